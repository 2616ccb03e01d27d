"""C18, deductive part: verify_equality from the contracts of adjoint / add_circuit / to_graph / full_reduce (its answer only depends on
queries of the reduced diagram, which is an arbitrary diagram here); compare_tensors and find_scalar_correction on arrays of arbitrary
complex numbers, with the tolerances idealised to equality."""
import itertools
import z3
from pyvc import flow as F, mods
from pyvc.core import path, Unsupported, discharge

_S = []


# ---------------------------------------------------------------- verify_equality
class C(F.Circ):
    """circuit known by the word of maps it denotes (applied left to right); (name, inverted)"""
    def __init__(self, map, qubits=1, frozen=False, name='', bits=0):
        F.Circ.__init__(self, map, frozen, name)
        self.qubits, self.bits = qubits, bits

    def copy(self, *a, **k): return C(self.map, self.qubits)
    def adjoint(self): return C(tuple((n, not i) for n, i in reversed(self.map)), self.qubits)

    def add_circuit(self, o, mask=None, bit_mask=None):
        if mask is not None and list(mask) != list(range(self.qubits)):
            raise Unsupported('mask')
        if o.qubits != self.qubits:
            raise Unsupported('qubits')
        self.mutate('add_circuit', self.map + o.map)

    def __add__(self, o):
        r = self.copy()
        r.add_circuit(o)
        return r

    def to_graph(self, *a, **k): return D(self.map, self.qubits)
    def to_basic_gates(self): return self.copy()


class D(F.Diag):
    def __init__(self, map, q):
        F.Diag.__init__(self, map)
        self.q, self.real = q, None

    def reduced(self):
        """an arbitrary diagram with q inputs and q outputs that denotes a unitary up to a scalar"""
        self.mutate('full_reduce')
        from pyzx.graph.graph_s import GraphS
        from pyzx.utils import VertexType, EdgeType
        p = path()
        g = self.real = GraphS()
        bs = [g.add_vertex(VertexType.BOUNDARY) for _ in range(2 * self.q)]
        g.set_inputs(tuple(bs[:self.q]))
        g.set_outputs(tuple(bs[self.q:]))
        kind = p.choose(3)
        free = list(bs)
        if kind == 2 and self.q:    # some spider on the first two wires, or a scalar spider
            v = g.add_vertex(VertexType.Z, phase=[0, 1][p.choose(2)])
            for b in [(0, self.q), (0, 2 * self.q - 1), ()][p.choose(3)]:
                g.add_edge((bs[b], v), EdgeType.SIMPLE)
                free.remove(bs[b])
        while free:
            a = free.pop(0)       # the diagram denotes a unitary up to a scalar: no two inputs are joined
            b = free.pop(p.choose(len([x for x in free if x in bs[self.q:]])) - len([x for x in free if x in bs[self.q:]]))
            g.add_edge((a, b), EdgeType.HADAMARD if kind == 1 and p.choose(2) else EdgeType.SIMPLE)
        if p.choose(2):
            g.scalar.add_phase(1)
        self.kind = kind

    def truth(self):
        """is the map a scalar times a permutation / the identity"""
        g = self.real
        if self.kind == 2 and any(g.type(v) == 1 for v in g.vertices()):
            return self.spider_truth()
        perm = {}
        for e in g.edges():
            a, b = g.edge_st(e)
            if int(g.edge_type(e)) == 2 or (a in g.inputs()) == (b in g.inputs()):
                return False, False
            i, o = (a, b) if a in g.inputs() else (b, a)
            perm[g.inputs().index(i)] = g.outputs().index(o)
        return all(i == o for i, o in perm.items()), True

    def spider_truth(self):
        import numpy as np
        from lib import refsem
        m = refsem.graph_matrix(self.real)
        n = m.shape[0]
        one = refsem.close_up_to_scalar(m, np.eye(n)) if n else True
        per = False
        for pm in itertools.permutations(range(self.q)):
            t = np.eye(n).reshape((2,) * (2 * self.q)).transpose(list(pm) + list(range(self.q, 2 * self.q))).reshape(n, n)
            per = per or refsem.close_up_to_scalar(m, t)
        return one, per

    def __getattr__(self, n):
        if n.startswith('__') or n in ('real', 'kind'):
            raise AttributeError(n)
        if self.real is None:
            raise Unsupported('query %s of a diagram before it is reduced' % n)
        return getattr(self.real, n)


def verify(P):
    def run(p):
        q = p.choose(4)
        a, b = C((('A', False),), q, frozen=True, name='the receiver'), C((('B', False),), [q, q + 1][p.choose(2)], frozen=True, name='the argument')
        swaps = p.choose(2) == 1
        m = mods.clone('pyzx.circuit')
        import pyzx.simplify as simp
        ds = []
        real = simp.full_reduce

        def red(g, *x, **k):
            if not isinstance(g, D):
                raise Unsupported('reduced something else')
            ds.append(g)
            g.reduced()
        simp.full_reduce = red
        try:
            try:
                r = m.Circuit.verify_equality(a, b, swaps)
            except F.Breach as e:
                return str(e)
        finally:
            simp.full_reduce = real
        if not r:
            return None
        if a.qubits != b.qubits:
            return 'yes for different numbers of qubits'
        if len(ds) != 1:
            return 'yes without one reduction'
        w = ds[0].map
        if len(w) != 2 or {n for n, _ in w} != {'A', 'B'} or w[0][1] == w[1][1]:
            return 'the reduced word is %s' % (w,)
        one, per = ds[0].truth()
        if not (per if swaps else one):
            return 'yes although the reduced diagram is not the %s' % ('permutation' if swaps else 'identity')
        return None
    discharge(P, 'verify_equality answers yes only if the reduced composite is the identity (a permutation), arguments untouched, up to 3 qubits', run, 'callee contracts', replay=lambda: _S[0].hunt('verify', 200, 3, 60) or _S[0].hunt('identity', 200, 3, 30))


# ---------------------------------------------------------------- arrays of arbitrary complex numbers
class Cx:
    """quotient of two complex numbers with z3 parts"""
    def __init__(self, re, im, dre=None, dim=None):
        self.n, self.d = (re, im), (dre, dim) if dre is not None else None

    def zero(self): return z3.And(self.n[0] == 0, self.n[1] == 0)

    def den(self): return self.d or (z3.RealVal(1), z3.RealVal(0))

    def div(self, o):
        if not isinstance(o, Cx):
            raise Unsupported('division')
        path().prover_need.append(z3.Not(o.zero()))
        n, d = mul(self.n, o.den()), mul(self.den(), o.n)
        return Cx(n[0], n[1], d[0], d[1])
    __truediv__ = div

    def times(self, o):
        n, d = mul(self.n, o.n), mul(self.den(), o.den())
        return Cx(n[0], n[1], d[0], d[1])
    __mul__ = times

    def same(self, o):
        a, b = mul(self.n, o.den()), mul(o.n, self.den())
        return z3.And(a[0] == b[0], a[1] == b[1])

    def __abs__(self): return Mag([self])


def mul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


class Mag:
    """largest magnitude of some entries, times an unspecified positive tolerance: only the test for zero is decided"""
    def __init__(self, xs, tiny=False): self.xs, self.tiny = xs, tiny
    def max(self): return self
    def __mul__(self, k):
        if not isinstance(k, (int, float)) or k <= 0:
            raise Unsupported('tolerance')
        return Mag(self.xs, self.tiny or k < 1e-3)
    __rmul__ = __mul__

    def _below(self, t, strict):
        if isinstance(t, (int, float)) and 0 < t < 1e-3 or isinstance(t, Mag) and t.tiny and set(map(id, self.xs)) <= set(map(id, t.xs)) or isinstance(t, Tol):
            return path().branch(z3.And([x.zero() for x in self.xs]))
        if isinstance(t, Mag) and t.tiny:   # below a tiny part of other magnitudes: zero while those are not
            return path().branch(z3.And([x.zero() for x in self.xs] + [z3.Not(z3.And([x.zero() for x in t.xs]))])) if strict else path().branch(z3.And([x.zero() for x in self.xs]))
        raise Unsupported('comparison of magnitudes')

    def __lt__(self, t): return self._below(t, True)
    def __le__(self, t): return self._below(t, False)
    def __gt__(self, t): return not self <= t
    def __ge__(self, t): return not self < t
    def __eq__(self, t):
        if t == 0:
            return path().branch(z3.And([x.zero() for x in self.xs]))
        raise Unsupported('equality of magnitudes')
    __hash__ = None
    def __float__(self): raise Unsupported('float')


class Tol:
    pass


class Arr:
    def __init__(self, xs, shape): self.xs, self.shape = xs, shape
    size = property(lambda s: len(s.xs))
    flat = property(lambda s: s.xs)
    def flatten(self): return Arr(self.xs, (len(self.xs),))
    ravel = flatten
    def __truediv__(self, o): return Arr([x / o for x in self.xs], self.shape)
    def __mul__(self, o): return Arr([x * o for x in self.xs], self.shape)
    __rmul__ = __mul__


class NPT:
    ndarray = Arr

    @staticmethod
    def abs(a): return Mag(a.xs) if isinstance(a, Arr) else abs(a)

    @staticmethod
    def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if any(not isinstance(t, (Tol, Mag)) and not (isinstance(t, (int, float)) and 0 <= t < 1e-3) for t in (rtol, atol)):
            raise Unsupported('tolerances')
        if a.shape != b.shape:
            raise Unsupported('shapes')
        return path().branch(z3.And([x.same(y) for x, y in zip(a.xs, b.xs)] or [z3.BoolVal(True)]))

    @staticmethod
    def argmax(a):
        if not isinstance(a, Mag):
            raise Unsupported('argmax')
        i = path().choose(len(a.xs))
        sq = [x.n[0] * x.n[0] + x.n[1] * x.n[1] for x in a.xs]
        for j, s in enumerate(sq):
            if j != i:
                path().assume(sq[i] >= s)
        path().assume(z3.Or(sq[i] > 0, z3.And([x.zero() for x in a.xs])))
        path().pivot = i
        return i

    def __getattr__(self, n): raise Unsupported('numpy.%s' % n)


def vmax(*a):
    if any(isinstance(x, (Mag, Tol)) for x in a):
        ms = [x for x in a if isinstance(x, Mag)]
        if any(not isinstance(x, Mag) for x in a) or any(m.tiny for m in ms):
            return Tol()
        return Mag(sum([m.xs for m in ms], []))
    return max(*a)


def tensor_module():
    m = mods.clone('pyzx.tensor', np=NPT(), max=vmax, float=lambda x: x, int=lambda x: x)
    return m


def fresh(n, tag):
    return Arr([Cx(z3.Real('%s%d' % (tag, i)), z3.Real('%si%d' % (tag, i))) for i in range(n)], (n,))


class Conv:
    """an object with a to_tensor contract"""
    def __init__(self, a, log): self.a, self.log = a, log

    def to_tensor(self, preserve_scalar=True):
        self.log.append(preserve_scalar)
        return self.a


def compare(P, n):
    def run(p):
        p.prover_need = []
        m = tensor_module()
        a, b = fresh(n, 'a'), fresh(n, 'b')
        ps = p.choose(2) == 1
        log = []
        k = p.choose(3)
        x, y = (Conv(a, log) if k else a), (Conv(b, log) if k == 2 else b)
        r = m.compare_tensors(x, y, ps) if ps or p.choose(2) else m.compare_tensors(x, y)
        if log != [ps] * k:
            return 'the scalar is %s' % ('dropped' if ps else 'kept')
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(p.pc)
        for c in p.prover_need:
            s.push()
            s.add(z3.Not(c))
            if s.check() != z3.unsat:
                return 'division by an entry that may vanish'
            s.pop()
        same = z3.And([u.same(v) for u, v in zip(a.xs, b.xs)] or [z3.BoolVal(True)])
        cross = []
        rows = range(n)
        i = getattr(p, 'pivot', None)
        if i is not None:   # with a_i nonzero, the rows through i imply the others
            s.push()
            s.add(a.xs[i].zero())
            if s.check() == z3.unsat:
                rows = [i]
            s.pop()
        for i in rows:
            for j in range(n):
                l, q = mul(a.xs[i].n, b.xs[j].n), mul(a.xs[j].n, b.xs[i].n)
                cross.append(z3.And(l[0] == q[0], l[1] == q[1]))
        za, zb = z3.And([u.zero() for u in a.xs] or [True]), z3.And([u.zero() for u in b.xs] or [True])
        prop = z3.And(cross + [za == zb])
        goal = same if ps else prop
        s.add(z3.Not(goal) if r else goal)
        k = s.check()
        if k == z3.unknown:
            raise Undecided()
        if k == z3.sat:
            return 'answers %s for %s' % (r, s.model())
        return None
    try:
        discharge(P, 'compare_tensors on %d arbitrary entries: yes exactly for equal (proportional) arrays' % n, run, 'z3 (reals)', replay=lambda: _S[0].hunt('arrays', 3000, 3, 60))
    except Undecided:
        P.record('compare_tensors on %d arbitrary entries' % n, None, 'z3 (reals)', 0, detail='solver answered unknown')


class Undecided(BaseException):
    pass


def shapes(P):
    def run(p):
        p.prover_need = []
        m = tensor_module()
        sh = [((2,), (2, 2)), ((2, 1), (1, 2)), ((2, 2), (4,)), ((), (1,))][p.choose(4)]
        a, b = [Arr(fresh(max(1, __import__('math').prod(s)), t).xs, s) for s, t in zip(sh, 'ab')]
        ps = p.choose(2) == 1
        return 'arrays of different shape are equal' if m.compare_tensors(a, b, ps) else None
    discharge(P, 'compare_tensors: arrays of different shapes are never equal', run, 'execution', replay=lambda: _S[0].hunt('arrays', 3000, 3, 60))


def correction(P, n):
    def run(p):
        p.prover_need = []
        m = tensor_module()
        b = fresh(n, 'b')
        z = Cx(z3.Real('z'), z3.Real('zi'))
        a = Arr([z * x for x in b.xs], (n,))
        log = []
        k = p.choose(2)
        r = m.find_scalar_correction(Conv(a, log) if k else a, Conv(b, log) if k else b)
        if any(not x for x in log):
            return 'the scalar is dropped'
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(p.pc)
        for c in p.prover_need:
            s.push()
            s.add(z3.Not(c))
            if s.check() == z3.sat:
                return 'division by an entry that may vanish'
            s.pop()
        if not isinstance(r, Cx):
            if r != 0:
                raise Unsupported('result')
            r = Cx(z3.RealVal(0), z3.RealVal(0))
        bad = [z3.Not((r * x).same(y)) for x, y in zip(b.xs, a.xs)]
        s.add(z3.Or(bad))
        k = s.check()
        if k == z3.unknown:
            raise Undecided()
        return 'z*t2 is not t1 for %s' % s.model() if k == z3.sat else None
    try:
        discharge(P, 'find_scalar_correction on %d arbitrary entries: the number z with t1 = z*t2' % n, run, 'z3 (reals)', replay=lambda: _S[0].hunt('arrays', 3000, 3, 60))
    except Undecided:
        P.record('find_scalar_correction on %d entries' % n, None, 'z3 (reals)', 0, detail='solver answered unknown')


ALL = [('verify', (), ['Circuit.verify_equality']), ('compare', (1,), ['tensor.compare_tensors']), ('compare', (2,), ['tensor.compare_tensors']), ('compare', (3,), ['tensor.compare_tensors']), ('shapes', (), ['tensor.compare_tensors']),
       ('correction', (1,), ['tensor.find_scalar_correction']), ('correction', (2,), ['tensor.find_scalar_correction']), ('correction', (3,), ['tensor.find_scalar_correction'])]


def register(S):
    _S.append(S)

    def add(f, args, fns):
        @S.proof('proof of %s' % ' '.join([f] + [str(a) for a in args]), functions=fns, limit=200)
        def _(P):
            globals()[f](P, *args)
    for f, args, fns in ALL:
        add(f, args, fns)
