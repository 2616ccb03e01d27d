"""C05, deductive part: the steps of extraction.

A graph-like diagram is read as its path sum: one bit per spider, a sign for every Hadamard edge, a phase for every spider, the outputs
carry the bits of the frontier.  Emitting a gate at the outputs and changing the diagram must leave the product unchanged.  One arbitrary
assignment of the bits is fixed (uninterpreted functions); frontiers, neighbourhoods, matrices and CNOT lists are arbitrary; loops are cut
by invariants.  Matrices are uninterpreted functions of two indices; a finite sum changes by the term that changes (arithmetic)."""
import inspect
from fractions import Fraction
import z3
from pyvc import bundle as B_, rw
from pyvc import loops as L
from pyvc import exact as X
from pyvc.core import path, Unsupported, PathAbort, discharge, guarded
from pyvc.heap import Z
from props import c07p as G
from props.c07p import fa, fn, I, B, nx, term

_S = [None]
R = L.SymRange
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)


def hunter(*prefixes):
    def rep():
        for p in prefixes:
            r = _S[0].hunt(p, 4000, 1, seconds=40 if p.endswith('dense') else 15) if _S[0] else None
            if r:
                return r
        return False
    return rep


def setup(p, V):
    p.drop = L.quantified
    rt = L.Runtime({}, V)
    p.memo['rt'] = rt
    p.memo['runtime'] = rt
    return rt


def fresh(n, old):
    if isinstance(old, (Z, int)) and not isinstance(old, bool):
        return Z.fresh(n)
    if isinstance(old, tuple):
        return tuple(fresh(n, x) for x in old)
    return old


def AND(*a):
    return z3.And(*a)


def imp(a, b):
    return z3.Implies(a, b)


class Ints:
    """a list of integers f(0), ..., f(n-1)"""
    lo, step = 0, 1

    def __init__(self, f=None, n=0):
        self.f, self.n = f or (lambda i: z3.IntVal(0)), z3.IntVal(n) if isinstance(n, int) else n

    @staticmethod
    def any(name='l'):
        f = fn(name, I, I)
        r = Ints(lambda i: f(i), z3.Int('n_%s!%d' % (name, nx())))
        path().assume(r.n >= 0)
        return r

    def havoc(self):
        o = Ints.any()
        self.f, self.n = o.f, o.n

    def append(self, x):
        f, n, x = self.f, self.n, term(x)
        self.f, self.n = (lambda i: z3.If(i == n, x, f(i))), z3.simplify(n + 1)

    @property
    def hi(self):
        return Z(self.n)

    def at(self, i):
        return Z(self.f(term(i)))

    def __getitem__(self, i):
        i = term(i)
        path().memo['rt'].prove('list index in range', AND(i >= 0, i < self.n))
        return Z(self.f(i))

    def __len__(self):
        raise Unsupported('machine length')


def zlen(x):
    if isinstance(x, Ints):
        return Z(x.n)
    if hasattr(x, 'size'):
        return x.size()
    return len(x)


class Entries:
    """a matrix of bits; entry (i, j) as the number 0 or 1"""
    def __init__(self, D, N, M=None):
        self.D, self.N, self.M = D, N, N if M is None else M

    @property
    def data(self):
        return self

    def __getitem__(self, i):
        i = term(i)
        path().memo['rt'].prove('row index in range', AND(i >= 0, i < self.N))
        return ERow(self, i)

    def write(self, i, j, b):
        D = self.D
        self.D = lambda x, y: z3.If(AND(x == i, y == j), b, D(x, y))


class ERow:
    def __init__(self, m, i):
        self.m, self.i = m, i

    def size(self):
        return Z(self.m.M)

    def __getitem__(self, j):
        j = term(j)
        path().memo['rt'].prove('column index in range', AND(j >= 0, j < self.m.M))
        return Z(z3.If(self.m.D(self.i, j), 1, 0))

    def __setitem__(self, j, v):
        j = term(j)
        path().memo['rt'].prove('column index in range', AND(j >= 0, j < self.m.M))
        if not isinstance(v, int) or v not in (0, 1):
            raise Unsupported('entry')
        self.m.write(self.i, j, z3.BoolVal(bool(v)))


def overlap_ok(ov, D, N):
    """contract of max_overlap"""
    (a, b), l = ov
    a, b = term(a), term(b)
    return [('the common qubits lie in both rows', fa(1, lambda k: imp(AND(k >= 0, k < l.n), AND(l.f(k) >= 0, l.f(k) < N, D(a, l.f(k)), D(b, l.f(k)))))),
            ('the common qubits are listed once', fa(2, lambda k, h: imp(AND(k >= 0, k < h, h < l.n), l.f(k) < l.f(h)))),
            ('the rows are two different qubits', imp(l.n > 0, AND(a >= 0, a < N, b >= 0, b < N, a != b))), ('length', l.n >= 0)]


def max_overlap(P):
    import pyzx.extract as M
    P.under_contract('pyzx.extract.max_overlap')
    V = {}

    def run(p):
        rt = setup(p, V)
        D0, N = fn('D', I, I, B), z3.Int('N')
        p.assume(N >= 1)
        D = lambda i, j: D0(i, j)

        def row(l, i, j, k):
            return [('common so far', fa(1, lambda q: imp(AND(q >= 0, q < l.n), AND(l.f(q) >= 0, l.f(q) < k, D(i, l.f(q)), D(j, l.f(q)))))),
                    ('listed once', fa(2, lambda q, h: imp(AND(q >= 0, q < h, h < l.n), l.f(q) < l.f(h)))), ('length', l.n >= 0)]

        def best(e):
            return overlap_ok((e['overlapping_rows'], e['final_common_qbs']), D, N) + [('the best so far', term(e['max_inner_product']) == e['final_common_qbs'].n)]

        def fr(n, old):
            if isinstance(old, Ints):
                return Ints.any()
            return fresh(n, old)

        def heap(e):
            e['common_qbs'].havoc()
        rt.specs = {0: L.Inv('first row', lambda e, i: best(e), fr),
                    1: L.Inv('second row', lambda e, j: best(e) + [('j', term(j) > term(e['i']))], fr),
                    2: L.Inv('columns', lambda e, k: row(e['common_qbs'], term(e['i']), term(e['j']), term(k)) + [('count', term(e['inner_product']) == e['common_qbs'].n)], fr, heap)}
        f = L.instrument(M.max_overlap, rt, range=R, len=zlen, list=lambda *a: Ints())
        r = f(Entries(D, N))
        for n, g in overlap_ok(r, D, N):
            rt.prove('result: ' + n, g)
    G.finish(P, 'max_overlap', run, V, hunter('reductions', 'frontier'))


# ------------------------------------------------------------------------------------------------ clean_frontier
class Wires:
    """outputs of the diagram; the spider of wire a is vert(a), and every output has its own spider; x: the bit of every wire"""
    def __init__(self):
        self.N = z3.Int('N')
        self.onf = fn('on', I, B)         # the wire is in the frontier
        self.pos = fn('pos', I, I)        # where
        self.x = fn('x', I, B)
        path().assume(self.N >= 1)


class Vx:
    """a vertex: the frontier spider of a wire, an output, or something else"""
    def __init__(self, kind, wire=None):
        self.kind, self.wire = kind, wire

    def __eq__(self, o):
        if not isinstance(o, Vx):
            raise Unsupported('vertex compared with %r' % (o,))
        if self is o:
            return True
        if self.kind != o.kind:
            return False
        if self.wire is None or o.wire is None:
            raise Unsupported('comparison of other vertices')
        return path().branch(self.wire == o.wire)

    def __ne__(self, o): return not self == o
    def __hash__(self): return 0


class Frontier:
    """frontier of n spiders, no repetitions"""
    lo, step = 0, 1

    def __init__(self, w):
        self.w = w
        self.n = z3.Int('nf')
        self.wire = fn('wire', I, I)
        path().assume(self.n >= 0)
        n, wi = self.n, self.wire
        path().assume(fa(1, lambda k: imp(AND(k >= 0, k < n), AND(wi(k) >= 0, wi(k) < w.N, w.onf(wi(k)), w.pos(wi(k)) == k))))
        path().assume(fa(1, lambda a: imp(w.onf(a), AND(a >= 0, a < w.N, w.pos(a) >= 0, w.pos(a) < n, wi(w.pos(a)) == a))))

    @property
    def hi(self):
        return Z(self.n)

    def at(self, i):
        a = self.wire(term(i))
        path().assume(self.w.onf(a))
        return Vx('frontier', a)

    def __contains__(self, v):
        return v.kind == 'frontier'


class QMap:
    """the wire of a frontier spider"""
    def __getitem__(self, v):
        if v.kind != 'frontier':
            raise Unsupported('wire of a vertex outside the frontier')
        return Z(v.wire)


class Outs:
    def __init__(self, w):
        self.w = w

    def __contains__(self, v):
        return v.kind == 'output'

    def size(self):
        return Z(self.w.N)


class Nb:
    """neighbours of a frontier spider: its output, and others"""
    def __init__(self, g, v):
        self.g, self.v = g, v

    def comp(self, h, conds):
        """[h(w) for w in neighbours if ...]: the condition must single out the output"""
        o = Vx('output', self.v.wire)
        for k in ('frontier', 'other'):
            w = Vx(k, z3.Int('nbw!%d' % nx()) if k == 'frontier' else None)
            if all(c(w) for c in conds):
                raise Unsupported('neighbours other than the output are kept')
        return [h(o)] if all(c(o) for c in conds) else []


class NbSet:
    """the same as a set to loop over: member(a) for frontier spiders by wire, other vertices numbered below 0"""
    def __init__(self, g, v):
        self.g, self.v, self.A = g, v, g.A

    def snapshot(self):
        return self

    def member(self, t):
        return z3.If(t >= 0, AND(t < self.g.w.N, self.A(self.v.wire, t)), self.g.other(self.v.wire, t))

    def element(self, name):
        t = Z.fresh(name)
        path().assume(self.member(t.t))
        return t


class Edge:
    def __init__(self, u, v):
        self.u, self.v = u, v


class SingleG:
    """what is known of the diagram; Hadamard edges between frontier spiders by wire: A"""
    def __init__(self, w, rt):
        self.w, self.rt = w, rt
        self.A0 = fn('A0', I, I, B)
        A0 = self.A0
        self.A = lambda a, b: A0(a, b)
        path().assume(fa(2, lambda a, b: AND(A0(a, b) == A0(b, a), imp(A0(a, b), AND(a != b, w.onf(a), w.onf(b))))))
        oth = fn('oth', I, I, B)
        self.other = lambda a, t: oth(a, t)
        self.cur = None       # the spider being cleaned: [vertex, edge type to its output, phase]

    def phases(self):
        return self

    def __getitem__(self, v):
        return self.single(v)[2]

    def single(self, v):
        if self.cur is None or self.cur[0] is not v:
            raise Unsupported('single-qubit part of a spider that is not at hand')
        return self.cur

    def outputs(self):
        return Outs(self.w)

    def neighbors(self, v):
        return Nb(self, v)

    def edge(self, u, v, *a):
        return Edge(u, v)

    def edge_type(self, e):
        v, o = (e.u, e.v) if e.u.kind == 'frontier' else (e.v, e.u)
        if o.kind != 'output' or v.kind != 'frontier':
            raise Unsupported('edge type')
        return self.single(v)[1]

    def set_edge_type(self, e, t):
        v, o = (e.u, e.v) if e.u.kind == 'frontier' else (e.v, e.u)
        if o.kind != 'output' or v.kind != 'frontier':
            raise Unsupported('edge type')
        self.single(v)[1] = t

    def set_phase(self, v, p):
        self.single(v)[2] = p

    def remove_edge(self, e):
        if e.u.kind != 'frontier' or e.v.kind != 'frontier':
            self.rt.prove('only edges between frontier spiders are removed', False)
            return
        a, b, A = e.u.wire, e.v.wire, self.A
        self.rt.prove('the edge removed exists', A(a, b))
        self.A = lambda x, y: AND(A(x, y), z3.Not(z3.Or(AND(x == a, y == b), AND(x == b, y == a))))


class CZMat(Entries):
    """the matrix with its meaning: Q = sum over a < b of D(a, b) x_a x_b"""
    def __init__(self, D, w):
        Entries.__init__(self, D, w.N)
        self.w, self.Q = w, z3.Bool('Q!%d' % nx())

    def write(self, i, j, b):
        x = self.w.x
        self.Q = z3.simplify(z3.Xor(self.Q, AND(i < j, z3.Xor(self.D(i, j), b), x(i), x(j))))
        Entries.write(self, i, j, b)


class Emit:
    """the circuit: single-qubit gates of the spider at hand; sign of the CZs; y: what the wires carry inside the gates emitted so far"""
    def __init__(self, w, rt):
        self.w, self.rt = w, rt
        self.single = []
        self.P = F_
        x = w.x
        self.y = lambda a: x(a)

    def add_gate(self, name, *a, **k):
        if not isinstance(name, str):
            raise Unsupported('gate')
        if name in ('HAD', 'ZPhase'):
            self.rt.prove('single-qubit gates come from the spider at hand', self.g.cur is not None)
            self.single.append((name, term(a[0]), a[1] if len(a) > 1 else None))
            return
        s, t = term(a[0]), term(a[1])
        N = self.w.N
        self.rt.prove('gates are on two different qubits', AND(s >= 0, s < N, t >= 0, t < N, s != t))
        y = self.y
        if name == 'CZ':
            self.P = z3.simplify(z3.Xor(self.P, AND(y(s), y(t))))
        elif name == 'CNOT':
            self.y = lambda b: z3.If(b == t, z3.Xor(y(t), y(s)), y(b))
        else:
            raise Unsupported('gate %s' % name)


def clean_frontier(P):
    import pyzx.extract as M
    from pyzx.utils import EdgeType
    P.under_contract('pyzx.extract.clean_frontier')
    V = {}
    X.install()

    def run(p):
        rt = setup(p, V)
        w = Wires()
        F = Frontier(w)
        g = SingleG(w, rt)
        c = Emit(w, rt)
        c.g = g
        x, N = w.x, w.N
        mat = [None]
        st = {}

        def at0(i):
            v = Frontier.at(F, i)
            g.cur = [v, (EdgeType.SIMPLE, EdgeType.HADAMARD)[p.choose(2)], X.phase_sym('a')]
            st['before'], c.single = list(g.cur), []
            return v
        F0 = type('F', (), dict(lo=0, step=1, hi=F.hi, at=staticmethod(at0)))()

        def op(t, ph):
            H = X.arr([[1, 1], [1, -1]])
            z = X.arr([[1, 0], [0, X.e(ph)]])
            return (H.dot(z) if t == EdgeType.HADAMARD else z)

        def single_ok():
            v, t, ph = g.cur
            m = None
            for nm, q, q2 in c.single:
                rt.prove('the single-qubit gates are on the wire of the spider', q == v.wire)
                k = X.arr([[1, 1], [1, -1]]) if nm == 'HAD' else X.arr([[1, 0], [0, X.e(q2)]])
                m = k if m is None else m.dot(k)
            after = op(t, ph)
            m = after if m is None else m.dot(after)
            b = op(st['before'][1], st['before'][2])
            return X.proportional(m, b)[0] if isinstance(X.proportional(m, b), tuple) else bool(X.proportional(m, b))

        def inv0(e, i):
            if g.cur is None:
                return []
            ok = single_ok()
            _, t, ph = g.cur
            g.cur = None
            return [('Hadamard and phase of the spider go to the circuit', ok), ('the spider is left with phase 0 and a plain edge', t == EdgeType.SIMPLE and ph == 0)]

        def heap0(e):
            g.cur = None

        def done(i):
            return lambda a: AND(w.onf(a), w.pos(a) < term(i))

        def sofar(i, extra=None):
            D, A, A0 = mat[0].D, g.A, g.A0
            d = done(i)
            E = extra or (lambda a, b: F_)
            moved = lambda a, b: z3.Or(d(a), d(b), E(a, b), E(b, a))
            return [('the edges moved are in the matrix', fa(2, lambda a, b: D(a, b) == AND(A0(a, b), moved(a, b)))),
                    ('the others are in the diagram', fa(2, lambda a, b: A(a, b) == AND(A0(a, b), z3.Not(moved(a, b)))))]

        def heap1(e):
            D, A = fn('D', I, I, B), fn('A', I, I, B)
            mat[0].D, g.A = (lambda a, b: D(a, b)), (lambda a, b: A(a, b))
            mat[0].Q = z3.Bool('Q!%d' % nx())

        def inv2(e, seen):
            v = e['v'].wire
            return sofar(rt.act[1]['pos'], lambda a, b: AND(a == v, seen(b)))

        # the CZs: Q + P stays
        def struct(D):
            return [('the matrix is symmetric without diagonal', fa(2, lambda a, b: AND(D(a, b) == D(b, a), imp(D(a, b), AND(a != b, a >= 0, a < N, b >= 0, b < N)))))]

        def inv3(e, _):
            D = mat[0].D
            return struct(D) + [('nothing is lost', z3.Xor(mat[0].Q, c.P) == st['K']), ('between the rounds the wires carry their bits', fa(1, lambda a: c.y(a) == x(a)))] + overlap_ok(e['overlap_data'], D, N)

        def heap3(e):
            heap1(e)
            y = fn('y', I, B)
            c.P, c.y = z3.Bool('P!%d' % nx()), (lambda a: y(a))

        def fr(n, old):
            if n == 'overlap_data':
                return ((Z.fresh('oa'), Z.fresh('ob')), Ints.any('common'))
            return fresh(n, old)

        def inv4(e, k):
            k = term(k)
            D, l = mat[0].D, e['overlap_data'][1]
            i, j = term(e['i']), term(e['j'])
            if 'D3' not in st or st.get('at3') is not e['overlap_data']:
                st['D3'], st['Q3P'], st['at3'] = D, z3.Xor(mat[0].Q, c.P), e['overlap_data']
                inv_, ci = fn('in', I, B), fn('ci', I, I)
                st['in'], st['ci'] = inv_, ci
                path().assume(fa(1, lambda b: imp(inv_(b), AND(ci(b) >= 0, ci(b) < l.n, l.f(ci(b)) == b))))
                path().assume(fa(1, lambda h: imp(AND(h >= 0, h < l.n), AND(inv_(l.f(h)), ci(l.f(h)) == h))))
            D3 = st['D3']
            gone = lambda a, b: AND(z3.Or(a == i, a == j), st['in'](b), st['ci'](b) < k)
            return [('the pairs emitted are taken from the matrix', fa(2, lambda a, b: D(a, b) == AND(D3(a, b), z3.Not(gone(a, b)), z3.Not(gone(b, a))))),
                    ('nothing is lost', z3.Xor(mat[0].Q, c.P) == st['Q3P']),
                    ('between the CNOTs the second qubit carries the sum', fa(1, lambda a: c.y(a) == z3.If(a == j, z3.Xor(x(j), x(i)), x(a))))]

        def heap4(e):
            heap3(e)

        # the final double loop: partial sums of Q in the order of the loops (definition of the sum)
        def sums():
            if 'out' not in st:
                D, Q = mat[0].D, mat[0].Q
                o, i_ = fn('outer', I, B), fn('inner', I, I, B)
                st['out'], st['inn'], st['P5'] = o, i_, c.P
                tm = lambda a, b: AND(D(a, b), x(a), x(b))
                path().assume(z3.Not(o(0)))
                path().assume(o(N) == Q)
                path().assume(fa(1, lambda a: imp(AND(a >= 0, a < N), AND(i_(a, a + 1) == o(a), o(a + 1) == i_(a, N)))))
                path().assume(fa(2, lambda a, b: imp(AND(a >= 0, a < b, b < N), i_(a, b + 1) == z3.Xor(i_(a, b), tm(a, b)))))

        def heap5(e):
            c.P = z3.Bool('P!%d' % nx())

        def inv5(e, a):
            sums()
            a = term(a)
            return [('the CZs of the rows so far', c.P == z3.Xor(st['P5'], st['out'](a))), ('row', a >= 0)]

        def inv6(e, b):
            a, b = term(e['i']), term(b)
            return [('the CZs of the row so far', c.P == z3.Xor(st['P5'], st['inn'](a, b))), ('column', b > a)]
        rt.specs = {0: L.Inv('single-qubit gates', inv0, fresh, heap0, iterable=lambda it: F0), 1: L.Inv('edges inside the frontier', lambda e, i: sofar(i), fresh, heap1),
                    2: L.Inv('neighbours', inv2, fresh, heap1), 3: L.Inv('overlaps', inv3, fr, heap3), 4: L.Inv('common qubits', inv4, fresh, heap4),
                    5: L.Inv('rows', inv5, fresh, heap5), 6: L.Inv('columns', inv6, fresh, heap5)}

        class FrontierOnce:
            """the first loop runs over spiders with their single-qubit part, the second over their edges"""
            def __init__(self): pass

            @property
            def lo(self): raise AttributeError('lo')

            def __contains__(self, v):
                return v.kind == 'frontier'

        def Mat2(rows):
            e = rows.at(Z(z3.Int('mi'))).at(Z(z3.Int('mj')))
            rt.prove('the matrix starts with zeros', e == 0 if isinstance(e, int) else False)
            rt.prove('the matrix has a row and a column for every output', AND(term(rows.n) == N, term(rows.at(Z(z3.Int('mi'))).n) == N))
            mat[0] = CZMat(lambda a, b: F_, w)
            p.assume(z3.Not(mat[0].Q))
            return mat[0]

        def nbset(v):
            return NbSet(g, v)

        def ovl(m):
            rt.prove('the overlap is computed for the matrix', m is mat[0])
            if 'K' not in st:
                # everything that was an edge is in the matrix now
                D, A, A0 = m.D, g.A, g.A0
                rt.prove('all edges inside the frontier are in the matrix', fa(2, lambda a, b: AND(D(a, b) == A0(a, b), z3.Not(A(a, b)))))
                st['K'] = m.Q
            r = ((Z.fresh('oa'), Z.fresh('ob')), Ints.any('common'))
            for n, t in overlap_ok(r, m.D, N):
                p.assume(t)
            return r

        class Lst:
            def __call__(self, it):
                if isinstance(it, Nb):
                    return NbSet(g, it.v)
                raise Unsupported('list')
        fo = FrontierOnce()
        rt.specs[1]._iterable = lambda it: F
        f = L.instrument(M.clean_frontier, rt, comps=True, sets=True, range=R, len=zlen, Mat2=Mat2, list=Lst(), max_overlap=ovl)
        opt = bool(p.choose(2))
        # vertices met in the second loop are numbers: wires of frontier spiders, negative for others
        old_item = rt.item

        def item(k):
            t = old_item(k)
            if k == 2:
                if p.branch(t.t >= 0):
                    return Vx('frontier', t.t)
                return Vx('other')
            return t
        rt.item = item
        r = f(g, c, fo, QMap(), opt)
        D, A0 = mat[0].D, g.A0
        K = st.get('K')
        if K is None:
            rt.prove('all edges inside the frontier are in the matrix', fa(2, lambda a, b: AND(D(a, b) == A0(a, b), z3.Not(g.A(a, b)))))
            K = mat[0].Q
        rt.prove('result: the sign of the gates emitted is the sign of the edges removed', c.P == K)
        rt.prove('result: the wires carry their bits', fa(1, lambda a: c.y(a) == x(a)))
    G.finish(P, 'clean_frontier', run, V, hunter('frontier'))


# ------------------------------------------------------------------------------------------------ apply_cnots
def adjacency(P):
    """bi_adj and connectivity_from_biadj: frontier spiders are the rows, neighbours the columns"""
    import pyzx.extract as M
    from pyzx.utils import EdgeType
    P.under_contract('pyzx.extract.bi_adj', 'pyzx.extract.connectivity_from_biadj')
    V = {}

    class Vs:
        lo, step = 0, 1

        def __init__(self, kind, n):
            self.kind, self.n = kind, n

        hi = property(lambda self: Z(self.n))

        def size(self): return Z(self.n)

        def at(self, i):
            return (self.kind, term(i))

        def __getitem__(self, i):
            path().memo['rt'].prove('vertex index in range', AND(term(i) >= 0, term(i) < self.n))
            return self.at(i)

    class Gr:
        def __init__(self):
            E = fn('E', I, I, B)
            self.E0 = self.E = lambda i, j: E(i, j)

        def _e(self, a, b):
            if {a[0], b[0]} != {'row', 'col'}:
                raise Unsupported('edge between %s' % (a, b))
            return (a[1], b[1]) if a[0] == 'row' else (b[1], a[1])

        def connected(self, a, b):
            return path().branch(self.E(*self._e(a, b)))

        def edge(self, a, b, *t):
            return (a, b)

        def add_edge(self, e, ty=EdgeType.SIMPLE):
            rt = path().memo['rt']
            i, j = self._e(*e)
            E = self.E
            rt.prove('the edge added is a Hadamard edge', ty == EdgeType.HADAMARD)
            rt.prove('no second edge is added', z3.Not(E(i, j)))
            self.E = lambda x, y: z3.Or(E(x, y), AND(x == i, y == j))

        def remove_edge(self, e):
            i, j = self._e(*e)
            E = self.E
            path().memo['rt'].prove('the edge removed exists', E(i, j))
            self.E = lambda x, y: AND(E(x, y), z3.Not(AND(x == i, y == j)))

    def run(p):
        rt = setup(p, V)
        r, c = z3.Int('r'), z3.Int('c')
        p.assume(AND(r >= 0, c >= 0))
        g, left, right = Gr(), Vs('col', c), Vs('row', r)
        if p.choose(2):
            got = []
            f = L.instrument(M.bi_adj, rt, comps=True, Mat2=lambda rows: rows)
            m = f(g, left, right)
            i, j = z3.Int('i'), z3.Int('j')
            p.assume(AND(i >= 0, i < r, j >= 0, j < c))
            v = m.at(Z(i)).at(Z(j))
            rt.prove('bi_adj: one row per vertex of the second list, one column per vertex of the first', AND(term(m.n) == r, term(m.at(Z(i)).n) == c))
            rt.prove('bi_adj: entry', g.E(i, j) == z3.BoolVal(v == 1) if v in (0, 1) else False)
            return
        D0 = fn('D', I, I, B)
        m = Entries(lambda i, j: D0(i, j), r, c)
        E0 = g.E0

        def heap(e):
            E = fn('E', I, I, B)
            g.E = lambda i, j: E(i, j)

        def upto(i, j):
            E = g.E
            seen = lambda x, y: AND(x >= 0, y >= 0, y < c, z3.Or(x < i, AND(x == i, y < j)))
            return [('pairs seen have the edges of the matrix', fa(2, lambda x, y: E(x, y) == z3.If(seen(x, y), D0(x, y), E0(x, y))))]
        rt.specs = {0: L.Inv('rows', lambda e, i: upto(term(i), z3.IntVal(0)), fresh, heap), 1: L.Inv('columns', lambda e, j: upto(term(e['i']), term(j)), fresh, heap)}
        f = L.instrument(M.connectivity_from_biadj, rt, range=R, len=zlen)
        f(g, m, left, right)
        rt.prove('connectivity_from_biadj: the edges are those of the matrix', fa(2, lambda i, j: imp(AND(i >= 0, i < r, j >= 0, j < c), g.E(i, j) == D0(i, j))))
        rt.prove('connectivity_from_biadj: other edges stay', fa(2, lambda i, j: imp(z3.Not(AND(i >= 0, i < r, j >= 0, j < c)), g.E(i, j) == E0(i, j))))
    G.finish(P, 'adjacency', run, V, hunter('reductions', 'extract'))


class Cnot:
    def __init__(self, c, t):
        self.control, self.target = c, t


def apply_cnots(P):
    import pyzx.extract as M
    from pyzx.utils import EdgeType
    P.under_contract('pyzx.extract.apply_cnots')
    V = {}

    def run(p):
        rt = setup(p, V)
        r, cc = z3.Int('r'), z3.Int('c')
        wire = fn('wire', I, I)
        p.assume(AND(r >= 1, cc >= 0))
        p.assume(fa(2, lambda i, j: imp(AND(i >= 0, i < j, j < r), wire(i) != wire(j))))
        # x of the neighbours, y of the wires, dot: the sum of the neighbours' bits in the row of the wire's spider
        st = dict(S=F_, emitted=z3.IntVal(0), phase=0, hads=z3.IntVal(0))
        y0, d0, M0 = fn('y', I, B), fn('dot', I, B), fn('M', I, I, B)
        st['y'], st['dot'] = (lambda a: y0(a)), (lambda a: d0(a))

        class Mat:
            """contract of Mat2.row_add; dot is linear in the row"""
            def __init__(self):
                self.M = lambda i, j: M0(i, j)
                self.synced = True     # the diagram has the edges of the matrix

            @property
            def data(self):
                return Rows(self)

            def row_add(self, a, b):
                a, b = term(a), term(b)
                rt.prove('row_add: two different rows of the matrix', AND(a >= 0, a < r, b >= 0, b < r, a != b))
                old, d = self.M, st['dot']
                self.M = lambda i, j: z3.If(i == b, z3.Xor(old(i, j), old(a, j)), old(i, j))
                wa, wb = wire(a), wire(b)
                st['S'] = z3.simplify(z3.Xor(st['S'], AND(st['y'](wb), d(wa))))
                st['dot'] = lambda w: z3.If(w == wb, z3.Xor(d(wb), d(wa)), d(w))
                self.synced = False

        class Rows:
            def __init__(self, m): self.m = m

            def enum(self):
                rows = self

                class En:
                    lo, step, hi = 0, 1, Z(r)

                    def at(self, i): return (Z(term(i)), Row(rows.m, term(i)))
                return En()

        class Row:
            def __init__(self, m, i): self.m, self.i = m, i

            def size(self): return Z(cc)

            def __getitem__(self, j): return G.Bit(self.m.M(self.i, term(j)))

        class RowSum:
            def __init__(self, row): self.row = row

            def __eq__(self, k):
                if not isinstance(k, int):
                    raise Unsupported('row sum')
                if k != 1:
                    return bool(path().choose(2))
                if path().choose(2):
                    return False
                row, j = self.row, z3.Int('one!%d' % nx())
                path().assume(AND(j >= 0, j < cc, row.m.M(row.i, j)))
                path().assume(fa(1, lambda k: imp(AND(k >= 0, k < cc, k != j), z3.Not(row.m.M(row.i, k)))))
                return True

        class Rng(L.SymRange):
            def comp(self, h, conds):
                rg = self

                class Some:
                    """the indices with the property; any of them"""
                    def __getitem__(s, k):
                        j = z3.Int('idx!%d' % nx())
                        path().assume(AND(term(rg.lo) <= j, j < term(rg.hi)))
                        if not all(c(Z(j)) for c in conds):
                            raise PathAbort()
                        return h(Z(j))
                return Some()

        class Cnots:
            """the CNOTs given: rows of the matrix"""
            lo, step = 0, 1

            def __init__(self):
                self.n = z3.Int('ncnots')
                path().assume(self.n >= 0)

            hi = property(lambda self: Z(self.n))

            def size(self): return Z(self.n)

            def at(self, i):
                a, b = Z.fresh('control'), Z.fresh('target')
                path().assume(AND(a.t >= 0, a.t < r, b.t >= 0, b.t < r, a.t != b.t))
                return Cnot(a, b)

        class Out:
            """the CNOTs on the wires of the circuit, in the order in which they will be emitted"""
            lo, step = 0, 1

            def __init__(self): self.n = z3.IntVal(0)

            hi = property(lambda self: Z(self.n))

            def size(self): return Z(self.n)

            def append(self, g):
                a, b, y = term(g.control), term(g.target), st['y']
                st['S'] = z3.simplify(z3.Xor(st['S'], AND(y(a), st['dot'](b))))
                st['y'] = lambda w: z3.If(w == b, z3.Xor(y(b), y(a)), y(w))
                self.n = z3.simplify(self.n + 1)

            def at(self, i):
                return ('gate', term(i))

        class FV:
            """frontier spider of row i"""
            def __init__(self, i): self.i = i

        class NV:
            """neighbour of column j"""
            def __init__(self, j): self.j = j

        class OV:
            def __init__(self, i): self.i = i

        class Front:
            def __getitem__(self, i):
                i = term(i)
                rt.prove('frontier index in range', AND(i >= 0, i < r))
                return FV(i)

            def remove(self, v): st['ev'].append(('left', v))
            def append(self, w): st['ev'].append(('joined', w))

        class QM:
            def __getitem__(self, v):
                if not isinstance(v, FV):
                    raise Unsupported('wire of a neighbour')
                return Z(wire(v.i))

            def __setitem__(self, w, q): st['ev'].append(('wire', w, q))

        class Nbrs:
            def __getitem__(self, j):
                j = term(j)
                rt.prove('neighbour index in range', AND(j >= 0, j < cc))
                return NV(j)

        class Good:
            """pairs (frontier spider, neighbour)"""
            lo, step = 0, 1

            def __init__(self):
                self.gi, self.gj, self.n = fn('gi', I, I), fn('gj', I, I), z3.IntVal(0)
                gi, gj = self.gi, self.gj
                self.fi, self.fj = (lambda k: gi(k)), (lambda k: gj(k))

            def __setitem__(self, v, w):
                fi, fj, n = self.fi, self.fj, self.n
                self.fi, self.fj = (lambda k: z3.If(k == n, v.i, fi(k))), (lambda k: z3.If(k == n, w.j, fj(k)))
                self.n = z3.simplify(n + 1)

            def __bool__(self): return path().branch(self.n > 0)

            def items(self): return self

            hi = property(lambda self: Z(self.n))

            def size(self): return Z(self.n)

            def at(self, k):
                k = term(k)
                st['cur'] = (self.fi(k), self.fj(k))
                st['ev'] = []
                return (FV(self.fi(k)), NV(self.fj(k)))

            def sound(self, upto):
                m, fi, fj, n = mat, self.fi, self.fj, self.n
                return [('pairs are rows with a single one, and its column', fa(1, lambda k: imp(AND(k >= 0, k < n), AND(fi(k) >= 0, fi(k) < upto, fj(k) >= 0, fj(k) < cc, m.M(fi(k), fj(k)))))),
                        ('nothing else in the row', fa(2, lambda k, h: imp(AND(k >= 0, k < n, h >= 0, h < cc, h != fj(k)), z3.Not(m.M(fi(k), h))))),
                        ('every row once', fa(2, lambda k, h: imp(AND(k >= 0, k < h, h < n), fi(k) < fi(h)))), ('length', n >= 0)]

            def havoc(self):
                o = Good()
                self.fi, self.fj, self.n = o.fi, o.fj, z3.Int('ngood!%d' % nx())

        class Gr:
            def outputs(self): return Os()

            def neighbors(self, v):
                if not isinstance(v, FV):
                    raise Unsupported('neighbours')
                return Nb2(v)

            def remove_vertex(self, v): st['ev'].append(('gone', v))

            def add_edge(self, e, ty=EdgeType.SIMPLE): st['ev'].append(('edge', e, ty))

        class Os:
            def __contains__(self, v): return isinstance(v, OV)

        class Nb2:
            def __init__(self, v): self.v = v

            def comp(self, h, conds):
                if all(c(NV(z3.Int('some!%d' % nx()))) for c in conds):
                    raise Unsupported('neighbours that are no outputs are kept')
                o = OV(self.v.i)
                return [h(o)] if all(c(o) for c in conds) else []

        class Circ:
            def add_gate(self, g, *a):
                if isinstance(g, tuple) and g[0] == 'gate':
                    rt.prove('every CNOT is emitted once, in order', g[1] == st['emitted'])
                    rt.prove('the CNOTs are emitted before the Hadamards', st['hads'] == 0)
                    st['emitted'] = z3.simplify(st['emitted'] + 1)
                elif g == 'HAD':
                    rt.prove('every Hadamard is emitted on the wire of its spider', term(a[0]) == wire(good.fi(st['hads'])))
                    rt.prove('Hadamards come after all CNOTs', st['emitted'] == out().n)
                    st['hads'] = z3.simplify(st['hads'] + 1)
                else:
                    raise Unsupported('gate %r' % (g,))
        mat, given, res, good, hads = Mat(), Cnots(), Out(), Good(), Ints()
        used = [None]

        def out():
            return res if used[0] else given

        def mk_out():
            used[0] = True
            return res

        def sync(g, m, left, right, *a):
            rt.prove('the diagram is given the edges of the matrix', m is mat and left is nb and right is front and not a)
            mat.synced = True

        def inv0(e, k):
            return [('the map is unchanged', st['S'] == st.get('S0', st['S'])), ('a gate for every row operation', res.n == term(k))]

        def heap0(e):
            y, d, MM = fn('y', I, B), fn('dot', I, B), fn('M', I, I, B)
            st['y'], st['dot'], mat.M, st['S'] = (lambda a: y(a)), (lambda a: d(a)), (lambda i, j: MM(i, j)), z3.Bool('S!%d' % nx())
            res.n = z3.Int('nres!%d' % nx())

        def inv2(e, k):
            ev = st.pop('ev', None)
            k = term(k)
            fs = [('a Hadamard for every pair', AND(hads.n == k, fa(1, lambda h: imp(AND(h >= 0, h < k), hads.f(h) == wire(good.fi(h))))))]
            if ev is not None and 'v' in e and 'w' in e:
                v, w = e['v'], e['w']
                i, j = st['cur']
                same = lambda a, b: a is b or (type(a) is type(b) and (a.i.eq(b.i) if hasattr(a, 'i') else a.j.eq(b.j)))
                fv, nw = FV(i), NV(j)
                edges = [x for x in ev if x[0] == 'edge']
                ok = (len(edges) == 1 and edges[0][2] == EdgeType.SIMPLE and any(same(edges[0][1][a], nw) and isinstance(edges[0][1][1 - a], OV) and edges[0][1][1 - a].i.eq(i) for a in (0, 1)))
                fs += [('the spider is removed and its output joined to the neighbour by a plain edge', ok and [same(x[1], fv) for x in ev if x[0] == 'gone'] == [True]),
                       ('the neighbour takes its place in the frontier', [same(x[1], fv) for x in ev if x[0] == 'left'] == [True] and [same(x[1], nw) for x in ev if x[0] == 'joined'] == [True]),
                       ('the neighbour takes over the wire', AND(*[term(x[2]) == wire(i) for x in ev if x[0] == 'wire']) if [same(x[1], nw) for x in ev if x[0] == 'wire'] == [True] else False)]
            return fs

        def heap1(e):
            good.havoc()

        def heap2(e):
            hads.havoc()
            st.pop('ev', None)

        def heap3(e):
            st['emitted'] = z3.Int('emitted!%d' % nx())

        def heap4(e):
            st['hads'] = z3.Int('nh!%d' % nx())
        rt.specs = {0: L.Inv('row operations', inv0, fresh, heap0), 1: L.Inv('rows', lambda e, i: good.sound(term(i)), fresh, heap1),
                    2: L.Inv('pairs', inv2, fresh, heap2), 3: L.Inv('emit CNOTs', lambda e, k: [('emitted so far', st['emitted'] == term(k))], fresh, heap3),
                    4: L.Inv('emit Hadamards', lambda e, k: [('emitted so far', st['hads'] == term(k))], fresh, heap4)}
        st['S0'] = st['S']
        nb, front, circ = Nbrs(), Front(), Circ()
        f = L.instrument(M.apply_cnots, rt, comps=True, sets=True, range=Rng, len=zlen, enumerate=lambda x: x.enum(), sum=RowSum, dict=lambda: good, CNOT=Cnot, connectivity_from_biadj=sync)
        rt.empties = (mk_out, lambda: hads)
        old = rt.enter

        def enter(k, it, env):
            if k == 1:
                rt.prove('before spiders are read off, the diagram has the edges of the matrix', mat.synced)
                rt.prove('before spiders are read off, the map is unchanged', st['S'] == st['S0'])
            return old(k, it, env)
        rt.enter = enter
        try:
            f(Gr(), circ, front, QM(), given, mat, nb)
        except Exception as ex:
            if 'No extractable' in str(ex):
                return
            raise
        rt.prove('result: all CNOTs were emitted', st['emitted'] == out().n)
        rt.prove('result: all Hadamards were emitted', st['hads'] == good.n)
    G.finish(P, 'apply_cnots', run, V, hunter('extract', 'wide'))



# ------------------------------------------------------------------------------------------------ steps on the diagram itself
class Broken(B_.Removed):
    """the postcondition of a step fails"""


def outs_internal(g, outs):
    """an output has one edge, which is known"""
    if g.backend == 'ghost':
        old = g.internal
        g.internal = lambda v: None if v in outs else old(v)


def io(g, h, ins, outs):
    g.set_inputs(tuple(h[n] for n in ins))
    g.set_outputs(tuple(h[n] for n in outs))
    path().memo['io'] = (ins, outs)


def check(c, what):
    if not c:
        raise Broken(what)


def neighbors_of_frontier(P):
    P.under_contract('pyzx.extract.neighbors_of_frontier')

    def build(g):
        v = g.ind('v', 1, 0)
        h = rw.H(v=v)
        o = h['o'] = rw.external(g, 'o', 0, [(v, 1)])
        h.update(rw.bundles(g, [('A', 1, [(v, 2)])]))
        k = path().choose(3)
        if k:
            h['b'] = rw.external(g, 'b', 0, [(v, k)])
        outs_internal(g, [o] + ([h['b']] if k else []))
        io(g, h, ['b'] if k else [], ['o'])
        return h

    def act(mod, g, h):
        fr = [h.v]
        n = mod.neighbors_of_frontier(g, fr)
        now = [w for w in g.neighbors(h.v) if w is not h.o and w != h.o]
        if fr:
            check(fr == [h.v], 'the frontier changed')
            check(set(n) == set(now), 'the result is not the set of neighbours of the frontier')
            check(not any(w in g.inputs() for w in n), 'an input is among the neighbours')
        else:
            check(not list(n), 'a spider that is taken off the frontier contributes neighbours')
            check('b' in h and now == [h.b], 'a spider with work left is taken off the frontier')
        return True
    rw.prove(P, 'neighbors_of_frontier', 'pyzx.extract', build, act)


def remove_gadget(P):
    P.under_contract('pyzx.extract.remove_gadget')

    def build(g):
        v, w, l = g.ind('v', 1, 0), g.ind('w', 1, Fraction(path().choose(2))), g.ind('l', 1, X.phase_sym('a'))
        g.link(v, w, 2)
        g.link(w, l, 2)
        h = rw.H(v=v, w=w, l=l)
        h['o'] = rw.external(g, 'o', 0, [(v, 1)])
        outs_internal(g, [h['o']])
        io(g, h, [], ['o'])
        h.update(rw.bundles(g, [('A', 1, [(w, 2)]), ('C', 1, [(v, 2)]), ('D', 1, [(v, 2), (w, 2)])]))
        return h

    def act(mod, g, h):
        fr, q, gad = [h.v], {h.v: 3}, {h.w: h.l}
        if g.backend == 'ghost':
            r = B_.instrument('pyzx.rules')
            mod.apply_rule, mod.pivot = r.apply_rule, r.pivot
        ns = [x for x in g.neighbors(h.v) if x != h.o]
        if g.backend != 'ghost':
            ns = set(ns)
        done = mod.remove_gadget(g, fr, q, ns, gad)
        check(done and fr == [h.w], 'the hub does not take the place of the frontier spider')
        check(q[h.w] == 3, 'the hub does not take over the wire')
        check(h.w not in gad, 'the gadget is still listed')
        check(h.o in list(g.neighbors(h.w)), 'the hub is not at the output')
        check(h.v not in list(g.vertices()), 'the frontier spider is left in the diagram')
        return True
    rw.prove(P, 'remove_gadget', 'pyzx.extract', build, act, proportional=True)


def attach(g, gate, outs):
    """the gate applied at the outputs, as a piece of diagram (definition of the gates)"""
    def spider(q, ty, ph=0):
        o = outs[q]
        x = list(g.neighbors(o))[0]
        e = g.edge(x, o)
        t = g.edge_type(e)
        g.remove_edge(e)
        s = g.add_vertex(ty, 0, 0, ph) if g.backend == 'ghost' else g.add_vertex(ty, phase=ph)
        g.add_edge((x, s), t)
        g.add_edge((s, o), 1 if g.backend == 'ghost' else EdgeType.SIMPLE)
        return s
    from pyzx.utils import VertexType, EdgeType
    n = type(gate).__name__
    if n == 'HAD':
        o = outs[gate.target]
        e = g.edge(list(g.neighbors(o))[0], o)
        g.set_edge_type(e, EdgeType.HADAMARD if g.edge_type(e) == EdgeType.SIMPLE else EdgeType.SIMPLE)
    elif n in ('ZPhase', 'XPhase'):
        spider(gate.target, VertexType.Z if n == 'ZPhase' else VertexType.X, gate.phase)
    elif n in ('CNOT', 'CZ', 'XCX'):
        a, b = {'CNOT': (1, 2), 'CZ': (1, 1), 'XCX': (2, 2)}[n]
        x, y = spider(gate.control, VertexType(a)), spider(gate.target, VertexType(b))
        g.add_edge((x, y), EdgeType.SIMPLE if n == 'CNOT' else EdgeType.HADAMARD)
    else:
        raise Unsupported('gate %s' % n)


class Stop(Exception):
    pass


def step(fn, two, outs):
    """the function with its while and for loops run on an arbitrary output (two=False: in the first loop; two=True: on an arbitrary pair in
    the nested loops, after a first loop without progress)"""
    import sys
    calls = [0]

    def enum(x):
        calls[0] += 1
        k = calls[0]

        class It:
            def __iter__(s):
                if not two:
                    if k > 1:
                        raise Stop()
                    yield (0, outs[0])
                    fr = sys._getframe(1).f_locals
                    if 'progress' in fr and not fr['progress']:
                        raise Stop('no progress')
                    raise Stop()
                if k == 1:
                    return
                if k > 3:
                    raise Stop()
                yield ((0, outs[0]) if k == 2 else (1, outs[1]))
                if k == 2 and calls[0] == 2:
                    raise Unsupported('loops over the outputs')
                raise Stop()
        return It()

    class Outs(tuple):
        def __iter__(s):
            raise Unsupported('loop over the outputs')
    gl = dict(fn.__globals__, enumerate=enum)
    import types
    return types.FunctionType(inspect.unwrap(fn).__code__, gl, fn.__name__, fn.__defaults__, fn.__closure__)


class Circ:
    def __init__(self, n=0):
        self.qubits, self.gates = n, []

    def prepend_gate(self, g, *a, **k):
        if isinstance(g, str):
            from pyzx.circuit.gates import gate_types
            g = gate_types[g](*a, **k)
        self.gates.insert(0, g)

    def __add__(self, o):
        raise Unsupported('end of the extraction inside a step')
    __radd__ = __add__


def extract_simple(P):
    P.under_contract('pyzx.extract.extract_simple')

    def act_for(two):
        def act(mod, g, h):
            import pyzx.extract as M
            outs = [h.o1, h.o2] if two else [h.o1]
            f = step(M.extract_simple, two, outs)
            c = Circ(2)
            f.__globals__['Circuit'] = lambda n: c
            v = list(g.neighbors(h.o1))[0]
            plain = g.edge_type(g.edge(v, h.o1)) == 1
            if two and not (plain and g.edge_type(g.edge(list(g.neighbors(h.o2))[0], h.o2)) == 1):
                return False
            try:
                f(g)
                if not two:
                    raise Unsupported('no loop over the outputs')
            except Stop as e:
                if e.args and not plain:
                    raise Broken('a Hadamard at an output counts as no progress')
                if e.args and c.gates:
                    raise Broken('a gate is emitted without progress')
            except ValueError as e:
                if 'unitary' in str(e) or 'degree' in str(e):
                    return False
                raise
            for x in c.gates:
                attach(g, x, outs)
            return True
        return act

    def one(g):
        k = path().choose(5)
        if k == 4:      # a bare wire
            o = rw.external(g, 'o1', 0, [])
            i = rw.external(g, 'i', 0, [(o, 1 + path().choose(2))])
            h = rw.H(o1=o, i=i)
            outs_internal(g, [o, i])
            io(g, h, ['i'], ['o1'])
            return h
        v = g.ind('v', (1, 2)[path().choose(2)], X.phase_sym('a'))
        h = rw.H(v=v)
        h['o1'] = rw.external(g, 'o1', 0, [(v, 1 + path().choose(2))])
        if k < 3:
            h['w'] = rw.external(g, 'w', (0, 1, 2)[k], [(v, 1 + path().choose(2))])
        else:
            bs = rw.bundles(g, [('A', 1, [(v, 1)]), ('C', 1, [(v, 2)])])
            if len(bs) == 1:    # a single neighbour is the case of w
                path().assume(z3.Int('n_' + list(bs)[0]) >= 2)
            h.update(bs)
        outs_internal(g, [h['o1']])
        io(g, h, [], ['o1'])
        return h

    def two(g):
        u, v = g.ind('u', (1, 2)[path().choose(2)], X.phase_sym('a')), g.ind('v', (1, 2)[path().choose(2)], X.phase_sym('b'))
        h = rw.H(u=u, v=v)
        h['o1'], h['o2'] = rw.external(g, 'o1', 0, [(u, 1)]), rw.external(g, 'o2', 0, [(v, 1)])
        k = path().choose(3)
        if k:
            g.link(u, v, k)
        h.update(rw.bundles(g, [('A', 1, [(u, 1)]), ('C', 1, [(u, 2)]), ('D', 1, [(v, 1)])]))
        outs_internal(g, [h['o1'], h['o2']])
        io(g, h, [], ['o1', 'o2'])
        return h
    rw.prove(P, 'extract_simple, an output', 'pyzx.extract', one, act_for(False), what='the gates emitted after the rest of the diagram give the diagram', proportional=True, reject_same=False)
    rw.prove(P, 'extract_simple, a pair of outputs', 'pyzx.extract', two, act_for(True), what='the gates emitted after the rest of the diagram give the diagram', proportional=True, reject_same=False)


# ------------------------------------------------------------------------------------------------ graph_to_swaps
def graph_to_swaps(P):
    import pyzx.extract as M
    from pyzx.utils import EdgeType
    P.under_contract('pyzx.extract.graph_to_swaps')
    V = {}

    class Stray(Exception):
        pass

    def run(p):
        rt = setup(p, V)
        n = z3.Int('n')
        pi, had = fn('pi', I, I), fn('had', I, B)
        p.assume(n >= 0)
        p.assume(fa(1, lambda q: imp(AND(q >= 0, q < n), AND(pi(q) >= 0, pi(q) < n))))
        p.assume(fa(2, lambda q, h: imp(AND(q >= 0, q < h, h < n), pi(q) != pi(h))))
        st = dict(left=lambda q: had(q), H=lambda q: F_, swaps=z3.IntVal(0), order=True)

        class Bnd:
            lo, step = 0, 1
            hi = Z(n)

            def __init__(self, kind): self.kind = kind

            def size(self): return Z(n)

            def at(self, i): return (self.kind, term(i))

            def __contains__(self, v): return v[0] == self.kind

            def index(self, v):
                if v[0] != self.kind:
                    raise ValueError('not a boundary')
                return Z(v[1])

            def enum(self):
                me = self

                class En:
                    lo, step, hi = 0, 1, Z(n)

                    def at(self, i): return (Z(term(i)), me.at(i))
                return En()

        class Gr:
            def inputs(self): return Bnd('in')
            def outputs(self): return Bnd('out')

            def neighbors(self, v):
                if v[0] != 'out':
                    raise Unsupported('neighbours')
                return [('in', pi(v[1]))] if path().choose(2) else [('spider', v[1])]

            def edge(self, u, v, *a):
                o, i = (u, v) if u[0] == 'out' else (v, u)
                rt.prove('edges asked for are edges of the diagram', pi(o[1]) == i[1] if i[0] == 'in' else False)
                return o

            def edge_type(self, o):
                return EdgeType.HADAMARD if path().branch(st['left'](o[1])) else EdgeType.SIMPLE

            def set_edge_type(self, o, t):
                l, q, b = st['left'], o[1], z3.BoolVal(t == EdgeType.HADAMARD)
                st['left'] = lambda x: z3.If(x == q, b, l(x))

        class Map:
            def __init__(self):
                f = fn('sm', I, I)
                self.f, self.has = (lambda q: f(q)), (lambda q: F_)

            def __setitem__(self, q, v):
                f, h, q, v = self.f, self.has, term(q), term(v)
                self.f, self.has = (lambda x: z3.If(x == q, v, f(x))), (lambda x: z3.Or(x == q, h(x)))

            def __getitem__(self, q): return Z(self.f(term(q)))

        class Swaps(Ints):
            def at(self, i):
                return ('s', term(i)), ('t', term(i))

        class C:
            def __init__(self, k): rt.prove('the circuit has a wire for every input', term(k) == n)

            def prepend_gate(self, g):
                kind, a = g
                if kind == 'HAD':
                    h, q = st['H'], term(a)
                    rt.prove('Hadamards are emitted before the swaps', st['swaps'] == 0)
                    st['H'] = lambda x: z3.If(x == q, z3.Not(h(x)), h(x))
                else:
                    rt.prove('the swaps are emitted in order', AND(a[0][1] == st['swaps'], a[1][1] == st['swaps']) if {a[0][0], a[1][0]} == {'s', 't'} else False)
                    st['swaps'] = z3.simplify(st['swaps'] + 1)
        sm = Map()
        sw = Swaps.any('swaps')
        asked = []

        def perm_swaps(m):
            rt.prove('the swaps are computed for the permutation of the wires', fa(1, lambda q: imp(AND(q >= 0, q < n), AND(sm.has(q), sm.f(q) == pi(q)))) if m is sm else False)
            asked.append(1)
            r = Swaps(sw.f, sw.n)
            return r

        def inv0(e, q):
            q = term(q)
            lo = e['leftover_swaps']
            lt = z3.BoolVal(lo) if isinstance(lo, bool) else lo.t
            return [('wires so far', fa(1, lambda a: imp(AND(a >= 0, a < q), AND(sm.has(a), sm.f(a) == pi(a))))),
                    ('Hadamards so far', fa(1, lambda a: st['H'](a) == AND(a >= 0, a < q, had(a)))),
                    ('Hadamards left', fa(1, lambda a: imp(AND(a >= q, a < n), st['left'](a) == had(a)))),
                    ('no swaps needed so far unless noted', z3.Or(lt, fa(1, lambda a: imp(AND(a >= 0, a < q), pi(a) == a)))),
                    ('no swaps yet', st['swaps'] == 0)]

        def fr(nm, old):
            if nm == 'leftover_swaps':
                return G.Bit(z3.Bool('ls!%d' % nx()))
            return fresh(nm, old)

        def heap0(e):
            H, l, f, h = fn('H', I, B), fn('left', I, B), fn('sm', I, I), fn('has', I, B)
            st['H'], st['left'], sm.f, sm.has = (lambda a: H(a)), (lambda a: l(a)), (lambda a: f(a)), (lambda a: h(a))

        def heap1(e):
            st['swaps'] = z3.Int('sw!%d' % nx())
        rt.specs = {0: L.Inv('outputs', inv0, fr, heap0), 1: L.Inv('swaps', lambda e, k: [('swaps so far', st['swaps'] == term(k))], fresh, heap1)}
        rt.dicts = (lambda: sm,)
        f = L.instrument(M.graph_to_swaps, rt, comps=True, list=lambda x: x, len=zlen, enumerate=lambda x: x.enum(), Circuit=C, HAD=lambda q: ('HAD', q), SWAP=lambda a, b: ('SWAP', (a, b)), permutation_as_swaps=perm_swaps)
        no = bool(p.choose(2))
        try:
            f(Gr(), no)
        except TypeError as ex:
            if 'not fully reduced' in str(ex):
                return
            raise
        rt.prove('result: a Hadamard on the wires that have one', fa(1, lambda a: imp(AND(a >= 0, a < n), st['H'](a) == had(a))))
        if not no:
            rt.prove('result: the swaps of the permutation', st['swaps'] == sw.n if asked else fa(1, lambda a: imp(AND(a >= 0, a < n), pi(a) == a)))
        else:
            rt.prove('result: no swaps when none are asked for', st['swaps'] == 0)
    G.finish(P, 'graph_to_swaps', run, V, hunter('swaps'))



def register(S):
    _S[0] = S

    def add(name, fns, *args):
        @S.proof('proof of ' + name, functions=fns, limit=300)
        def _(P):
            globals()[name](P, *args)
    add('max_overlap', ['max_overlap'])
    add('clean_frontier', ['clean_frontier'])
    add('adjacency', ['bi_adj', 'connectivity_from_biadj'])
    add('apply_cnots', ['apply_cnots'])
    for n in ('neighbors_of_frontier', 'remove_gadget', 'extract_simple', 'graph_to_swaps'):
        add(n, [n])
    from props import c05f

    def flow(name, f, fns, hunt):
        @S.proof('proof of ' + name, functions=fns, limit=300)
        def _(P):
            f(P, hunter(*hunt))
    flow('extract_circuit', c05f.extract, ['extract_circuit'], ('extract dense', 'extract'))
    L_ = 'LookaheadNode.'
    flow('lookahead nodes', c05f.expand, [L_ + 'expand', L_ + 'branch_child', L_ + 'apply_cnots', L_ + 'mark_expanded'], ('lookahead dense', 'lookahead'))
    flow('lookahead operations', c05f.operations, [L_ + 'apply_operation'], ('lookahead dense', 'lookahead'))
    flow('lookahead results', c05f.finished, [L_ + '__collect_finished_cnot', L_ + '__collect_finished_depth', L_ + 'get_finished'], ('lookahead dense', 'lookahead'))
    flow('lookahead roots', c05f.roots, [L_ + 'next_nodes', 'RootPicker'], ('lookahead dense', 'lookahead'))
    flow('lookahead search', c05f.base, ['lookahead_extract_base', 'lookahead_fast', 'lookahead_extract', 'lookahead_full'], ('lookahead dense', 'lookahead'))
