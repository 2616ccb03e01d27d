"""C16, deductive part: the phase-polynomial bookkeeping around the search procedures.

One arbitrary assignment x of the inputs is fixed: a parity expression is then a bit, a phase polynomial (in units of pi/4, modulo 8) a
number, a CNOT circuit the bit every wire carries.  Gate lists, columns, dictionaries are arbitrary; loops are cut by invariants.  The
search procedures (todd_iter, parity_network) may return anything of the right type: the result must realise the input polynomial anyway."""
import z3
from pyvc import loops as L
from pyvc.core import path, Unsupported, PathAbort
from pyvc.heap import Z
from props import c07p as G
from props.c07p import fa, fn, I, B, nx, term

_S = [None]
X = z3.Function('x', I, B)            # the input bits


def hunter(*prefixes):
    def rep():
        for p in prefixes:
            r = _S[0].hunt(p, 2000, 1, seconds=8) if _S[0] else None
            if r:
                return r
        return False
    return rep


def bit(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def num(b):
    """the bit as a number, known on this path"""
    return 1 if path().branch(b) else 0


def mod8(a):
    return z3.simplify(a) % 8 == 0


class Par:
    """a set of variables, seen through the parity of x on it"""
    def __init__(self, e):
        self.e = e

    def symmetric_difference(self, o):
        if not isinstance(o, Par):
            raise Unsupported('parity')
        return Par(z3.Xor(self.e, o.e))
    __xor__ = symmetric_difference

    def symmetric_difference_update(self, o):
        if not isinstance(o, Par):
            raise Unsupported('parity')
        self.e = z3.Xor(self.e, o.e)

    def copy(self):
        return Par(self.e)

    def __hash__(self):
        return 0

    def __eq__(self, o):
        raise Unsupported('comparison of parities')


class GateList:
    """arbitrary gates: ZPhase, CZ, CNOT"""
    lo, step = 0, 1

    def __init__(self):
        self.n = z3.Int('gates!%d' % nx())
        path().assume(self.n >= 0)

    @property
    def hi(self):
        return Z(self.n)


class Phase4:
    """g.phase: k/4 for an integer k, or not a multiple of 1/4"""
    def __init__(self, k):
        self.k = k
        self.q = Quarter(k)

    def __mul__(self, o):
        if o != 4:
            raise Unsupported('phase times %r' % (o,))
        return self.q
    __rmul__ = __mul__


class Quarter:
    def __init__(self, k):
        self.k = k
        self.int = None

    def __mod__(self, o):
        if o != 1:
            raise Unsupported('phase')
        if self.int is None:
            self.int = not path().choose(2)
        return 0 if self.int else 0.5


def q_int(x):
    if isinstance(x, Quarter):
        path().memo['rt'].prove('only multiples of pi/4 are converted to integers', x.int is True)
        return Z(x.k)
    if isinstance(x, Z):
        return x
    return int(x)


# ---------------------------------------------------------------- phase_gates_to_poly
class Poly8:
    """contract of ParityPolynomial: its value at x modulo 8; add_term adds value times parity (proved below)"""
    def __init__(self, v):
        self.v = v

    def add_term(self, par, value):
        if not isinstance(par, Par):
            raise Unsupported('term')
        self.v = self.v + num(par.e) * term(value)


class Exprs:
    """the list of ParitySingle objects: bit of each"""
    def __init__(self):
        self.e, self.n = (lambda i: z3.BoolVal(False)), z3.IntVal(0)

    def append(self, s):
        e, n, b = self.e, self.n, s.e
        self.e = lambda i: z3.If(i == n, b, e(i))
        self.n = z3.simplify(n + 1)

    def __getitem__(self, i):
        i = term(i)
        path().memo['rt'].prove('expression index in range', z3.And(i >= 0, i < self.n))
        return View(self, i)


class View:
    def __init__(self, s, i):
        self.s, self.i = s, i

    @property
    def par(self):
        return Par(self.s.e(self.i))

    def add_par(self, o):
        """contract of ParitySingle.add_par (proved): the parity becomes the sum"""
        s, i, b, e = self.s, self.i, o.s.e(o.i), self.s.e
        s.e = lambda j: z3.If(j == i, z3.Xor(e(j), b), e(j))


class Single:
    """contract of ParitySingle(i): the variable i"""
    def __init__(self, i):
        self.e = X(term(i))


class R2(L.SymRange):
    pass


def setup(p, V):
    p.drop = L.quantified
    rt = L.Runtime({}, V)
    p.memo['rt'] = rt
    return rt


def fresh(n, old):
    if isinstance(old, (Z, int)) and not isinstance(old, bool):
        return Z.fresh(n)
    return old


def gates_to_poly(P):
    import pyzx.todd as M
    from pyzx.circuit.gates import ZPhase, CZ, CNOT, S as SG, T as TG, Z as ZG
    P.under_contract('pyzx.todd.phase_gates_to_poly')
    V = {}

    def make(kind, n):
        g = kind.__new__(kind)
        t = Z.fresh('t')
        path().assume(z3.And(t.t >= 0, t.t < n))
        if kind is ZPhase:
            g.__dict__.update(target=t, phase=Phase4(z3.Int('k!%d' % nx())))
        else:
            c = Z.fresh('c')
            path().assume(z3.And(c.t >= 0, c.t < n, c.t != t.t))
            g.__dict__.update(target=t, control=c)
        return g

    def run(p):
        rt = setup(p, V)
        qubits = Z(z3.Int('qubits'))
        p.assume(qubits.t >= 0)
        st = dict(phi=z3.IntVal(0), w=lambda i: X(i))
        ex = Exprs()
        pp = Poly8(z3.IntVal(0))
        gl = GateList()

        def at(i):
            kind = (ZPhase, CZ, CNOT)[p.choose(3)]
            g = make(kind, qubits.t)
            w = st['w']
            # what the gate does to the state (oracle)
            if kind is ZPhase:
                st['phi'] = st['phi'] + num(w(g.target.t)) * g.phase.k
            elif kind is CZ:
                st['phi'] = st['phi'] + 4 * num(w(g.target.t)) * num(w(g.control.t))
            else:
                t, b = g.target.t, w(g.control.t)
                st['w'] = lambda i: z3.If(i == t, z3.Xor(w(i), b), w(i))
            return g
        gl.at = at

        def inv1(e, pos):
            return [('phase of the gates so far', mod8(pp.v - st['phi'])), ('expressions are what the wires carry', fa(1, lambda q: z3.Implies(z3.And(q >= 0, q < qubits.t), ex.e(q) == st['w'](q)))), ('one expression per qubit', ex.n == qubits.t)]

        def heap1(e):
            pp.v, st['phi'] = z3.Int('v!%d' % nx()), z3.Int('phi!%d' % nx())
            f, g = fn('e', I, B), fn('w', I, B)
            ex.e, st['w'] = (lambda i: f(i)), (lambda i: g(i))

        def heap0(e):
            f = fn('e', I, B)
            ex.e, ex.n = (lambda i: f(i)), z3.Int('en!%d' % nx())
        rt.specs = {0: L.Inv('initial expressions', lambda e, i: [('one per qubit so far', ex.n == term(i)), ('variables', fa(1, lambda q: z3.Implies(z3.And(q >= 0, q < term(i)), ex.e(q) == X(q))))], fresh, heap0),
                    1: L.Inv('gates', inv1, fresh, heap1)}
        rt.empties = (lambda: ex,)
        f = L.instrument(M.phase_gates_to_poly, rt, comps=True, range=R2, ParityPolynomial=lambda q: pp, ParitySingle=Single, int=q_int)
        try:
            r = f(gl, qubits)
        except (ValueError, NotImplementedError) as e:
            if 'multiple' not in str(e):
                raise
            return
        rt.prove('result: the polynomial has the phase of the circuit', mod8(r[0].v - st['phi']))
        rt.prove('result: the expressions are the output parities', fa(1, lambda q: z3.Implies(z3.And(q >= 0, q < qubits.t), r[1].e(q) == st['w'](q))))
    G.finish(P, 'phase_gates_to_poly', run, V, hunter('phase polynomials', 'todd_simp'))


def single(P):
    """ParitySingle: real class on arbitrary parities"""
    import pyzx.todd as M
    P.under_contract('pyzx.todd.ParitySingle.add_par')
    V = {}

    def run(p):
        rt = setup(p, V)
        a, b = M.ParitySingle(0), M.ParitySingle(1)
        ea, eb = z3.Bool('ea'), z3.Bool('eb')
        a.par, b.par = Par(ea), Par(eb)
        a.add_par(b)
        rt.prove('add_par: the sum', a.par.e == z3.Xor(ea, eb))
        rt.prove('add_par: the argument stays', b.par.e == eb)
        rt.prove('ParitySingle(i) is the variable i', M.ParitySingle(3).par == {3})
    G.finish(P, 'ParitySingle', run, V, hunter('phase polynomials'))


class Tot:
    """a dictionary of integers: total of value(key) * entry"""
    def __init__(self, val):
        self.val_ = val           # key -> 0/1 (forks)
        self.tot = z3.Int('tot!%d' % nx())
        self.cur = []             # [(key, present, entry, rest)]
        self.lim = None

    def havoc(self):
        self.tot, self.cur = z3.Int('tot!%d' % nx()), []

    def same(self, a, b):
        if isinstance(a, tuple):
            return isinstance(b, tuple) and len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Par):
            return a is b
        return isinstance(b, Z) and a.t.eq(b.t)

    def _look(self, k):
        for c in self.cur:
            if self.same(c[0], k):
                return c
        if self.cur:
            self.cur = []         # another key: what is known of the last one is forgotten
        here = bool(path().choose(2))
        v, rest = z3.Int('entry!%d' % nx()), z3.Int('rest!%d' % nx())
        y = self.val_(k)
        path().assume(self.tot == rest + (y * v if here else 0))
        if self.lim:
            path().assume(self.lim(v))
        c = [k, here, v, rest, y]
        self.cur.append(c)
        return c

    def __contains__(self, k):
        return self._look(k)[1]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __getitem__(self, k):
        c = self._look(k)
        if not c[1]:
            raise KeyError('absent')
        return Z(z3.simplify(c[2])) if not isinstance(c[2], int) else c[2]

    def __setitem__(self, k, v):
        c = self._look(k)
        c[1], c[2] = True, z3.simplify(term(v))
        self.tot = z3.simplify(c[3] + c[4] * c[2])

    def __delitem__(self, k):
        c = self._look(k)
        if not c[1]:
            raise KeyError('absent')
        c[1] = False
        self.tot = c[3]

    def pop(self, k, *d):
        v = self[k]
        del self[k]
        return v

    def known(self):
        return self.cur


def add_term(P):
    import pyzx.todd as M
    P.under_contract('pyzx.todd.ParityPolynomial.add_term')
    V = {}

    def run(p):
        rt = setup(p, V)
        d = Tot(lambda k: num(k.e))
        d.lim = lambda v: z3.And(v > 0, v < 8)
        t0 = d.tot
        f = L.instrument(M.ParityPolynomial.add_term, rt, tuple=lambda x: x, sorted=lambda x: x)

        class Me:
            terms = d
        par, v = Par(z3.Bool('e')), Z.fresh('value')
        f(Me, par, v)
        rt.prove('add_term adds value times parity', mod8(d.tot - t0 - num(par.e) * v.t))
        for k, here, val, rest, y in d.known():
            if here:
                rt.prove('entries stay between 1 and 7', z3.And(val > 0, val < 8))
    G.finish(P, 'ParityPolynomial.add_term', run, V, hunter('phase polynomials'))


# ---------------------------------------------------------------- MultiLinearPoly
class Toggle:
    """a set of triples: total of the products"""
    def __init__(self, val):
        self.t = Tot(val)
        self.t.lim = lambda v: v == 1

    def __contains__(self, k):
        return k in self.t

    def add(self, k):
        self.t[k] = 1

    def remove(self, k):
        del self.t[k]

    def discard(self, k):
        if k in self.t:
            del self.t[k]

    def symmetric_difference_update(self, ks):
        for k in ks:
            if k in self:
                self.remove(k)
            else:
                self.add(k)
    __ixor__ = None


class PosList:
    """the positions p: y(i) is the input bit at position p[i], with its suffix sums"""
    def __init__(self):
        self.n = z3.IntVal(0)
        self.at_ = lambda i: z3.IntVal(0)
        self.pre = z3.BoolVal(False)   # parity of x on the positions
        self.done = False

    def append(self, i):
        f, n, i = self.at_, self.n, term(i)
        self.at_ = lambda k: z3.If(k == n, i, f(k))
        self.n = z3.simplify(n + 1)
        self.pre = z3.Xor(self.pre, X(i))

    def close(self, rt):
        """suffix sums T1, T2, T3 and suffix parity D over the finished list; lemma by induction from the end"""
        p = path()
        self.done = True
        self.T1, self.T2, self.T3, self.D = fn('T1', I, I), fn('T2', I, I), fn('T3', I, I), fn('D', I, B)
        n = self.n
        p.assume(z3.And(self.T1(n) == 0, self.T2(n) == 0, self.T3(n) == 0, self.D(n) == False))  # noqa: E712
        lem = lambda i: (self.T1(i) - 2 * self.T2(i) + 4 * self.T3(i) - bit(self.D(i))) % 8 == 0
        rt.prove('lemma y1^...^yn = sum - 2 pairs + 4 triples (mod 8): end', lem(n))
        i = z3.Int('lem!%d' % nx())
        y = z3.Bool('y!%d' % nx())
        hyp = z3.And(lem(i + 1), self.T1(i) == bit(y) + self.T1(i + 1), self.T2(i) == z3.If(y, self.T1(i + 1), 0) + self.T2(i + 1), self.T3(i) == z3.If(y, self.T2(i + 1), 0) + self.T3(i + 1), self.D(i) == z3.Xor(y, self.D(i + 1)))
        rt.prove('lemma: step', z3.Implies(hyp, lem(i)))
        p.assume(lem(z3.IntVal(0)))
        p.assume(self.D(z3.IntVal(0)) == self.pre)

    def y(self, i):
        """the bit at position number i, known on this path, with the recursion of the suffix sums"""
        i = term(i)
        b = num(X(self.at_(i)))
        j = z3.simplify(i + 1)
        path().assume(z3.And(self.T1(i) == b + self.T1(j), self.T2(i) == b * self.T1(j) + self.T2(j), self.T3(i) == b * self.T2(j) + self.T3(j)))
        return b

    def __getitem__(self, i):
        i = term(i)
        path().memo['rt'].prove('position index in range', z3.And(i >= 0, i < self.n))
        return Z(z3.simplify(self.at_(i)))

    lo, step = 0, 1

    @property
    def hi(self):
        return Z(self.n)


def add_parity(P, subtract):
    import pyzx.todd as M
    P.under_contract('pyzx.todd.MultiLinearPoly.add_parity')
    V = {}

    def run(p):
        rt = setup(p, V)
        ps = PosList()
        val1 = lambda k: num(X(k.t))
        valp = lambda k: int(all([num(X(q.t)) for q in k]))
        l, q, c = Tot(val1), Tot(valp), Toggle(valp)

        def W():
            return l.tot + 2 * q.tot + 4 * c.t.tot
        W0 = W()
        s = -1 if subtract else 1
        e = fn('prefix', I, B)      # parity of x on par up to i
        p.assume(e(z3.IntVal(0)) == False)  # noqa: E712

        class Enum:
            lo, step = 0, 1
            n = z3.Int('len')

            @property
            def hi(self):
                return Z(self.n)

            def at(self, i):
                b = z3.Bool('set!%d' % nx())
                path().assume(e(z3.simplify(i.t + 1)) == z3.Xor(e(i.t), z3.And(b, X(i.t))))
                return i, G.Bit(b)
        en = Enum()
        p.assume(en.n >= 0)

        def close():
            if not ps.done:
                ps.close(rt)

        def heap0(env):
            ps.n, ps.pre = z3.Int('pn!%d' % nx()), z3.Bool('pre!%d' % nx())
            f = fn('pos', I, I)
            ps.at_ = lambda i: f(i)
            p.assume(ps.n >= 0)

        def heap(env):
            l.havoc(), q.havoc(), c.t.havoc()

        def done(a):
            return ps.T1(0) - ps.T1(a) - 2 * (ps.T2(0) - ps.T2(a)) + 4 * (ps.T3(0) - ps.T3(a))

        def A(env, a):
            close()
            a = z3.simplify(term(a))
            return [('value added so far', mod8(W() - W0 - s * done(a)))]

        def yy(env, nm):
            key = (nm, term(env[nm]).get_id())
            m = p.memo.setdefault('ys', {})
            if key not in m:
                m[key] = ps.y(env[nm])
            return m[key]

        def Bv(env, b):
            a = term(env['a'])
            ya = yy(env, 'a')
            a1, b = z3.simplify(a + 1), z3.simplify(term(b))
            return [('value added so far', mod8(W() - W0 - s * (done(a) + ya - 2 * ya * (ps.T1(a1) - ps.T1(b)) + 4 * ya * (ps.T2(a1) - ps.T2(b)))))]

        def Cv(env, cc):
            a, b = term(env['a']), term(env['b'])
            ya, yb = yy(env, 'a'), yy(env, 'b')
            a1, b1, cc = z3.simplify(a + 1), z3.simplify(b + 1), z3.simplify(term(cc))
            return [('value added so far', mod8(W() - W0 - s * (done(a) + ya - 2 * ya * (ps.T1(a1) - ps.T1(b)) + 4 * ya * (ps.T2(a1) - ps.T2(b)) - 2 * ya * yb + 4 * ya * yb * (ps.T1(b1) - ps.T1(cc)))))]
        rt.specs = {0: L.Inv('positions', lambda env, i: [('parity of the positions so far', ps.pre == e(term(i)))], fresh, heap0, iterable=lambda it: en),
                    1: L.Inv('first', A, fresh, heap), 2: L.Inv('second', Bv, fresh, heap), 3: L.Inv('third', Cv, fresh, heap)}
        rt.empties = (lambda: ps,)

        class R3(L.SymRange):
            def at(self, i):
                ps.y(i)     # the recursion of the suffix sums at this element
                return i

        def ln(x):
            return Z(x.n) if isinstance(x, PosList) else len(x)
        f = L.instrument(M.MultiLinearPoly.add_parity, rt, comps=True, range=R3, len=ln, enumerate=lambda x: en)
        if f.loops != 4:
            raise Unsupported('add_parity has %d loops' % f.loops)

        class Me:
            pass
        me = Me()
        me.l, me.q, me.c = l, q, c
        f(me, object(), subtract)
        rt.prove('result: the parity is added with coefficient %+d' % s, mod8(W() - W0 - s * bit(e(en.n))))
    G.finish(P, 'MultiLinearPoly.add_parity(subtract=%s)' % bool(subtract), run, V, hunter('todd matrices', 'todd_simp'))


class Cols:
    """the columns of a parity matrix: their sum of parities, in order"""
    lo, step = 0, 1

    def __init__(self, total=None):
        self.n, self.S = z3.Int('cols!%d' % nx()), fn('S', I, I)
        self.e = fn('col', I, B)
        path().assume(z3.And(self.n >= 0, self.S(z3.IntVal(0)) == 0))

    @property
    def hi(self):
        return Z(self.n)

    def at(self, i):
        b = num(self.e(i.t))
        path().assume(self.S(z3.simplify(i.t + 1)) == self.S(i.t) + b)
        return Col(self.e(i.t))

    def transpose(self):
        return self
    data = property(lambda s: s)


class Col:
    def __init__(self, e):
        self.e = e

    def __getitem__(self, i):
        return ColAt(self, i)


class ColAt:
    def __init__(self, c, i):
        self.c, self.i = c, i


def add_matrix(P):
    import pyzx.todd as M
    P.under_contract('pyzx.todd.MultiLinearPoly.add_par_matrix')
    V = {}

    def run(p):
        rt = setup(p, V)
        for sub in (False, True):
            st = dict(w=z3.Int('w0!%d' % nx()))
            w0 = st['w']
            m = Cols()

            class Me:
                def add_parity(self, col, subtract=False):
                    """contract of add_parity"""
                    st['w'] = st['w'] + (-1 if subtract else 1) * num(col.e)

            def heap(e):
                st['w'] = z3.Int('w!%d' % nx())
            rt.specs = {0: L.Inv('columns', lambda e, i: [('value so far', mod8(st['w'] - w0 - (-1 if sub else 1) * m.S(z3.simplify(term(i)))))], fresh, heap)}
            if sub == bool(p.choose(2)):
                L.instrument(M.MultiLinearPoly.add_par_matrix, rt)(Me(), m, sub)
                rt.prove('result: every column is added', mod8(st['w'] - w0 - (-1 if sub else 1) * m.S(m.n)))
    G.finish(P, 'MultiLinearPoly.add_par_matrix', run, V, hunter('todd matrices', 'todd_simp'))


class Gates:
    """a list of gates under construction: phase so far and the bit every wire carries (initially arbitrary)"""
    def __init__(self, w=None):
        self.phi = z3.IntVal(0)
        self.w = w or (lambda i: X(i))

    def havoc(self):
        f = fn('w', I, B)
        self.phi, self.w = z3.Int('phi!%d' % nx()), (lambda i: f(i))

    def append(self, g):
        w = self.w
        if g[0] == 'rot':
            self.phi = self.phi + g[2] * num(w(g[1]))
        elif g[0] == 'cz':
            self.phi = self.phi + 4 * num(w(g[1])) * num(w(g[2]))
        elif g[0] == 'cnot':
            c, t = w(g[1]), g[2]
            self.w = lambda i: z3.If(i == t, z3.Xor(w(i), c), w(i))
        else:
            raise Unsupported('gate')

    def extend(self, gs):
        """Clifford gates of a given phase, diagonal"""
        if not isinstance(gs, Diag):
            raise Unsupported('extend')
        path().memo['rt'].prove('diagonal corrections are placed where every wire carries its input', fa(1, lambda i: self.w(i) == X(i)))
        self.phi = self.phi + gs.v


class Diag:
    def __init__(self, v):
        self.v = v


def g_S(t, adjoint=False): return ('rot', term(t), 6 if adjoint else 2)
def g_Z(t): return ('rot', term(t), 4)
def g_T(t, adjoint=False): return ('rot', term(t), 7 if adjoint else 1)
def g_CZ(a, b): return ('cz', term(a), term(b))


class CNOT_:
    def __init__(self, c, t):
        self.control, self.target = c, t

    def __getitem__(self, i):
        return ('cnot', term(self.control), term(self.target))[i]


class ItemSeq:
    """the entries of one of the dictionaries, in order, with the prefix sums of value times entry"""
    lo, step = 0, 1

    def __init__(self, val, pair):
        self.n, self.S = z3.Int('items!%d' % nx()), fn('S', I, I)
        self.val, self.pair = val, pair
        path().assume(z3.And(self.n >= 0, self.S(z3.IntVal(0)) == 0))

    @property
    def hi(self):
        return Z(self.n)

    def at(self, i):
        k = (Z.fresh('k1'), Z.fresh('k2')) if self.pair else Z.fresh('k')
        v = Z.fresh('entry')
        path().assume(self.S(z3.simplify(i.t + 1)) == self.S(i.t) + self.val(k) * v.t)
        return k, v

    def items(self):
        return self


def to_clifford(P):
    import pyzx.todd as M
    P.under_contract('pyzx.todd.MultiLinearPoly.to_clifford')
    V = {}

    def run(p):
        rt = setup(p, V)
        gs = Gates()
        l = ItemSeq(lambda k: num(X(k.t)), False)
        q = ItemSeq(lambda k: int(all([num(X(y.t)) for y in k])), True)
        stay = lambda: ('the gates are diagonal', fa(1, lambda i: gs.w(i) == X(i)))
        rt.specs = {0: L.Inv('linear terms', lambda e, i: [('phase so far', mod8(gs.phi - l.S(z3.simplify(term(i))))), stay()], fresh, lambda e: gs.havoc()),
                    1: L.Inv('quadratic terms', lambda e, i: [('phase so far', mod8(gs.phi - l.S(l.n) - 2 * q.S(z3.simplify(term(i))))), stay()], fresh, lambda e: gs.havoc())}
        rt.empties = (lambda: gs,)

        class Some:
            """the cubic terms: none, or some"""
            def __init__(self): self.any = None

            def __bool__(self):
                if self.any is None:
                    self.any = bool(p.choose(2))
                return self.any
            def __len__(self): return int(bool(self))

        class Me:
            pass
        me = Me()
        me.l, me.q, me.c = l, q, Some()
        try:
            r = L.instrument(M.MultiLinearPoly.to_clifford, rt, comps=True, S=g_S, Z=g_Z, CZ=g_CZ)(me)
        except ValueError:
            return
        rt.prove('result: cubic terms are rejected', me.c.any is False)
        rt.prove('result: the gates have the phase of the polynomial', mod8(r.phi - l.S(l.n) - 2 * q.S(q.n)))
    def replay(*a):
        """the real method on one linear, quadratic and cubic coefficient each"""
        from pyzx.circuit import gates as gt
        for v in range(8):
            for w in range(4):
                for cub in (0, 1):
                    m = M.MultiLinearPoly()
                    m.l, m.q, m.c = {0: v}, {(0, 1): w}, {(0, 1, 2)} if cub else set()
                    data = dict(linear=v, quadratic=w, cubic=cub)
                    try:
                        gs = m.to_clifford()
                    except ValueError:
                        continue
                    got = sum(int(4 * g.phase) if isinstance(g, gt.ZPhase) else 4 if isinstance(g, gt.CZ) else 99 for g in gs)
                    for x, want in ((0, v), (1, v + 2 * w + 4 * cub)):
                        have = sum((int(4 * g.phase) if isinstance(g, gt.ZPhase) and g.target == 0 else 0) + (4 if isinstance(g, gt.CZ) and x else 0) for g in gs)
                        if (have - want) % 8 or any(not isinstance(g, (gt.ZPhase, gt.CZ)) for g in gs):
                            return dict(what='to_clifford of %s returned %s' % (data, gs), data=data)
        return hunter('todd matrices', 'todd_simp')(*a)
    G.finish(P, 'MultiLinearPoly.to_clifford', run, V, replay)


# ---------------------------------------------------------------- todd_simp
class Word:
    """a matrix as a word of invertible matrices; times is the product"""
    def __init__(self, w):
        self.w = w

    def __mul__(self, o):
        r = list(self.w)
        for x in o.w:
            if r and r[-1] == (x[0], not x[1]):
                r.pop()
            else:
                r.append(x)
        return Word(r)

    def inverse(self):
        return Word([(n, not i) for n, i in reversed(self.w)])

    def row_swap(self, a, b):
        raise Unsupported('row_swap')

    def to_cnots(self, optimize=False):
        """contract: the CNOTs, reversed and with control and target exchanged, are row operations with this product"""
        return Cnots(self, True)


class Cnots:
    """a list of CNOTs: the product of their row operations (last first) is the word"""
    lo, step = 0, 1

    def __init__(self, word, turned=False):
        self.word, self.turned = word, turned
        self.n = z3.Int('cnots!%d' % nx())
        self.c, self.t = fn('cc', I, I), fn('ct', I, I)
        path().assume(self.n >= 0)

    @property
    def hi(self):
        return Z(self.n)

    def at(self, i):
        c, t = self.c(i.t), self.t(i.t)
        return CNOT_(Z(c), Z(t))


class Rev:
    lo, step = 0, 1

    def __init__(self, c):
        self.c = c

    @property
    def hi(self):
        return Z(self.c.n)

    def at(self, i):
        g = CNOT_(Z(z3.Int('rc!%d' % nx())), Z(z3.Int('rt!%d' % nx())))
        self.cur = g
        return g


class Plus:
    """cnots after appending the turned reversed list, or during that"""


def todd_simp(P):
    import pyzx.todd as M
    P.under_contract('pyzx.todd.todd_simp')
    V = {}

    def run(p):
        rt = setup(p, V)
        qubits = Z(z3.Int('qubits'))
        p.assume(qubits.t >= 0)
        m, m2 = Cols(), Cols()
        f0 = z3.Int('input_phase')
        dbits = fn('out', I, B)       # output parities of the input circuit at x
        new = Gates()
        st = dict(pv=z3.IntVal(0), cnots=None)

        class Poly:
            def to_par_matrix(self):
                """contract (proved): the columns add up to the polynomial"""
                p.assume((m.S(m.n) - f0) % 8 == 0)
                return m

        class Parities:
            """columns left: their sum"""
            lo, step = 0, 1
            cur = None

            @property
            def hi(self):
                return Z(z3.Int('np!%d' % nx()))

            def append(self, c):
                st['pv'] = st['pv'] + num(c.e)

            def at(self, i):
                self.cur = Col(z3.Bool('par!%d' % nx()))
                return self.cur

            def remove(self, c):
                rt.prove('the parity removed is the one realised', c is self.cur)
                st['pv'] = st['pv'] - num(c.e)

            def __bool__(self):
                if p.choose(2):
                    return True
                p.assume(st['pv'] == 0)
                return False

            def __len__(self):
                return int(bool(self))
        pars = Parities()

        class MLP:
            def __init__(self):
                self.v = z3.IntVal(0)

            def add_par_matrix(self, a, subtract=False):
                self.v = self.v + (-1 if subtract else 1) * a.S(a.n)

            def to_clifford(self):
                if p.choose(2):
                    raise ValueError('PhasePoly is not Clifford')
                d = z3.Int('clifford!%d' % nx())
                p.assume((d - self.v) % 8 == 0)
                return Diag(d)

        class Wires:
            """the matrix m: row q is what wire q carries after the CNOTs so far"""
            def __init__(self):
                self.e = lambda i: X(i)
                self.log = []

            def havoc(self):
                f = fn('m', I, B)
                self.e = lambda i: f(i)

            def row_add(self, c, t):
                e, c, t = self.e, term(c), term(t)
                b = e(c)
                self.e = lambda i: z3.If(i == t, z3.Xor(e(i), b), e(i))
                self.log.append((c, t))

            def inverse(self):
                return st['mword'].inverse()
            data = property(lambda s: Rows(s))

        class Rows:
            def __init__(self, w):
                self.w = w

            def __contains__(self, col):
                return bool(p.choose(2))

            def index(self, col):
                i = Z.fresh('row')
                p.assume(self.w.e(i.t) == col.e)     # the row equals the column
                return i

        class FakeMat2:
            def __new__(cls, data):
                if not isinstance(data, Targets):
                    raise Unsupported('Mat2')
                return Word([('D', False)])

            @staticmethod
            def id(n):
                st['m'] = Wires()
                st['nid'] = st.get('nid', 0) + 1
                return st['m']

        class Targets:
            """rows appended for every output"""
            def append(self, x):
                rt.prove('row of the target matrix is the parity of that output', isinstance(x, Row) and x.q is st['q'])

        class Row:
            def __init__(self, q):
                self.q = q

        class Outs:
            lo, step = 0, 1
            hi = qubits

            def at(self, i):
                st['q'] = object.__new__(OutPar)
                return st['q']

        class OutPar:
            @property
            def par(self):
                return OutSet(self)

        class OutSet:
            def __init__(self, q):
                self.q = q

            def has(self, i):
                r = L.Formula(z3.Bool('member!%d' % nx()))
                self.q.probe = (i, r)
                return r.t

        class RQ(L.SymRange):
            def comp(self, f, conds):
                i = Z.fresh('i')
                if conds:
                    c = conds[0](i)
                    if f(i) is not i or len(conds) > 1 or not isinstance(c, ColAt) or c.i is not i:
                        raise Unsupported('comprehension')
                    return First(c.c)
                r = f(i)
                if isinstance(r, OutBit) and r.i is i:
                    return Row(r.q)
                raise Unsupported('comprehension')

            def __iter__(self):
                yield Z.fresh('k')

        class OutBit:
            def __init__(self, q, i):
                self.q, self.i = q, i

        class First:
            def __init__(self, c):
                self.c = c

        def nxt(x, *d):
            """contract: the single variable of a column of weight one"""
            if not isinstance(x, First):
                raise Unsupported('next')
            rt.prove('only columns of weight one become a T gate', st.get('one') is x.c)
            i = Z.fresh('var')
            p.assume(X(i.t) == x.c.e)
            return i

        def sm(x):
            if not isinstance(x, Col):
                raise Unsupported('sum')
            return Weight(x)

        class Weight:
            def __init__(self, c):
                self.c = c

            def __eq__(self, k):
                if k != 1:
                    raise Unsupported('weight')
                r = bool(p.choose(2))
                if r:
                    st['one'] = self.c
                return r
            __hash__ = None

        def int_(x):
            if isinstance(x, L.Formula):
                q = st['q']
                return OutBit(q, q.probe[0])
            return int(x)

        class CL(Cnots):
            """the list cnots: network, then what was appended"""
            def append(self, g):
                cur = st['rev'].cur
                rt.prove('the synthesised CNOTs are appended turned around', z3.And(term(g.control) == cur.target.t, term(g.target) == cur.control.t))

        def network(n, ps):
            """contract used: some list of CNOTs"""
            c = CL(Word([('N', False)]))
            st['cnots'] = c
            return c

        def rev(x):
            if isinstance(x, Cnots) and x.turned:
                st['rev'] = Rev(x)
                return st['rev']
            raise Unsupported('reversed')

        def base():
            return [('phase so far', mod8(new.phi + st['pv'] + m.S(m.n) - m2.S(m2.n) - f0 if st.get('cliff') else new.phi + st['pv'] - m2.S(m2.n)))]

        def last(e, pos):
            mm = st['m']
            return [('phase of the gates so far plus the parities left is the input phase', mod8(new.phi + st['pv'] - f0)),
                    ('the gates carry the rows of the matrix', fa(1, lambda i: new.w(i) == mm.e(i)))]

        def h_new(e):
            new.havoc()
            st['pv'] = z3.Int('pv!%d' % nx())

        def h_last(e):
            h_new(e)
            st['m'].havoc()
            st['m'].log = []

        class CE(Z):
            pass

        def enum(x):
            if x is not st['cnots']:
                raise Unsupported('enumerate')

            class E:
                lo, step, hi = 0, 1, x.hi

                def at(self, i):
                    return i, x.at(i)
            return E()

        def noswap(perm):
            return Empty()

        class Empty:
            lo, step, hi = 0, 1, 0

            def at(self, i):
                raise Unsupported('swap')

        def end_network(e, pos):
            # the product of the row operations of the whole network is its word
            st['mword'] = Word([('N', False)])
            return [('the row operations done are those of the gates so far', True if not st['m'].log else z3.And(len(st['m'].log) == 1, st['m'].log[0][0] == st['at'][0], st['m'].log[0][1] == st['at'][1]))]

        def cat(i):
            g = Cnots.at(st['cnots'], i)
            st['at'] = (term(g.control), term(g.target))
            st['m'].log = []
            return g
        CL.at = lambda self, i: cat(i)

        def l0(e, pos):
            return [('T gates and parities left add up to the columns so far', mod8(new.phi + st['pv'] - m2.S(z3.simplify(term(pos))))), ('diagonal', fa(1, lambda i: new.w(i) == X(i)))]

        def rows_only(e):
            st['m'].log = []
        rt.specs = {0: L.Inv('columns', l0, fresh, h_new),
                    1: L.Inv('network', end_network, fresh, rows_only),
                    2: L.Inv('targets', lambda e, i: [], fresh),
                    3: L.Inv('swaps', lambda e, i: [], fresh),
                    4: L.Inv('remaining linear map', lambda e, i: [], fresh),
                    5: L.Inv('place the phases', last, fresh, h_last),
                    6: L.Inv('is a parity on a wire', lambda e, i: last(e, None), fresh)}
        rt.empties = (lambda: new, lambda: pars, lambda: Targets())
        f = L.instrument(M.todd_simp, rt, comps=True, sets=True, range=RQ, sum=sm, next=nxt, int=int_, reversed=rev, enumerate=enum, T=g_T, CNOT=CNOT_, Mat2=FakeMat2,
                         MultiLinearPoly=MLP, parity_network=network, permutation_as_swaps=noswap, todd_iter=lambda a, quiet=True: m2, phase_gates_to_poly=lambda g, n: (Poly(), Outs()))
        if f.loops != 7:
            raise Unsupported('todd_simp has %d loops' % f.loops)
        words = []
        tc = Word.to_cnots

        def to_cnots(self, optimize=False):
            words.append(self.w)
            return tc(self, optimize)
        Word.to_cnots = to_cnots
        try:
            r = f(object(), qubits)
        except ValueError as e:
            if 'Clifford' in str(e) or 'Still phases' in str(e):
                return
            raise
        finally:
            Word.to_cnots = tc
        rt.prove('result: the gates have the phase of the input', mod8(new.phi - f0))
        rt.prove('result: the gates are returned', r[0] is new)
        rt.prove('result: the CNOTs added realise outputs * network^-1', words == [[('D', False), ('N', True)]])
        rt.prove('result: the identity permutation', isinstance(r[1], dict) and all(a is b for a, b in r[1].items()))
        rt.prove('result: wires carry the rows of the matrix of all CNOTs', fa(1, lambda i: new.w(i) == st['m'].e(i)))
    G.finish(P, 'todd_simp', run, V, hunter('todd_simp'))


def to_matrix(P):
    import pyzx.todd as M
    P.under_contract('pyzx.todd.ParityPolynomial.to_par_matrix')
    V = {}

    def run(p):
        rt = setup(p, V)
        st = dict(v=z3.IntVal(0))
        cur = {}

        class Terms(ItemSeq):
            def at(self, i):
                k, v = Par(z3.Bool('e!%d' % nx())), Z.fresh('entry')
                path().assume(z3.And(v.t > 0, v.t < 8))
                path().assume(self.S(z3.simplify(i.t + 1)) == self.S(i.t) + num(k.e) * v.t)
                cur['par'] = k
                return k, v
        t = Terms(None, False)

        class C:
            def append(self, c):
                rt.prove('the column of the term', isinstance(c, Col) and c.e is cur['par'].e)
                st['v'] = st['v'] + num(c.e)

        class RQ(L.SymRange):
            def comp(self, f, conds):
                i = Z.fresh('i')
                b = fn('in', I, B)
                k = cur['par']
                Par.__contains__ = lambda s, j: bool(p.branch(z3.Bool('member')))
                try:
                    r = f(i)
                finally:
                    del Par.__contains__
                if conds or r not in (0, 1) or bool(r) != p.branch(z3.Bool('member')):
                    rt.prove('entry i of the column is 1 exactly if i is in the term', False)
                return Col(k.e)
        cols = C()

        def heap(e):
            st['v'] = z3.Int('v!%d' % nx())
        rt.specs = {0: L.Inv('terms', lambda e, i: [('columns so far add up to the terms so far', st['v'] == t.S(z3.simplify(term(i))))], fresh, heap),
                    1: L.Inv('copies', lambda e, i: [('one column per unit', st['v'] == rt.act[1].setdefault('v0', st['v']) + num(cur['par'].e) * term(i))], fresh, heap)}
        rt.empties = (lambda: cols,)

        class Mt:
            def __init__(self, c):
                rt.prove('all columns', c is cols)

            def transpose(self):
                return 'matrix'

        class Me:
            terms, qubits = t, Z.fresh('qubits')
        r = L.instrument(M.ParityPolynomial.to_par_matrix, rt, comps=True, range=RQ, Mat2=Mt)(Me)
        rt.prove('result: the columns add up to the polynomial', st['v'] == t.S(t.n))
        rt.prove('result: transposed', r == 'matrix')
    G.finish(P, 'ParityPolynomial.to_par_matrix', run, V, hunter('phase polynomials', 'todd_simp'))


def register(S):
    _S[0] = S
    S.trusted += ['x^2 = x for bits; a column, set or dictionary is seen through its value at one arbitrary assignment of the inputs',
                  'Mat2.to_cnots (checked bounded in C07), Mat2.inverse and products (proved in C07); numpy-free']
    S.assumptions += ['todd_simp: that no phase is left over (every parity appears in the network) is bounded only', 'gray_synth, matroid_synth, parity_network, todd_on_graph, find_todd_match: bounded only']

    def t(name, fs, f):
        S.proof(name, functions=fs, limit=100)(f)
    t('gates to phase polynomial', ['phase_gates_to_poly'], gates_to_poly)
    t('parity expressions', ['ParitySingle', 'ParityPolynomial.add_term'], lambda P: [single(P), add_term(P)])
    t('polynomial to columns', ['ParityPolynomial.to_par_matrix'], to_matrix)
    t('multilinear form', ['MultiLinearPoly.add_parity'], lambda P: [add_parity(P, False), add_parity(P, True)])
    t('columns to multilinear form', ['MultiLinearPoly.add_par_matrix'], add_matrix)
    t('Clifford correction', ['MultiLinearPoly.to_clifford'], to_clifford)
    t('todd_simp', ['todd_simp'], todd_simp)
