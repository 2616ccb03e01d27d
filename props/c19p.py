"""C19, deductive part: the real evaluator executed on exact amplitudes.

numpy's array arithmetic is executed on object arrays of exact exponential sums, so one run of the real function covers every value of
the phases, labels and scalar of a diagram; the result is compared, by normal form, with an independent exact contraction.  The shapes
(arity, diagram) are enumerated: those obligations hold for all phases, at the stated shapes."""
import itertools
import random
from fractions import Fraction
import numpy as np
from pyvc import exact as X, mods
from pyvc.core import path, Unsupported, guarded


class PiTok:
    def __mul__(self, p): return Ang(p)
    __rmul__ = __mul__


class Ang:
    """pi * p"""
    def __init__(self, p): self.p = p
    def __eq__(self, o):
        if o == 0:
            return bool(self.p == 0)
        raise Unsupported('angle compared with %r' % (o,))
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __rmul__(self, o):
        if o == 1j:
            return IAng(self.p)
        raise Unsupported('angle')
    __mul__ = __rmul__


class IAng:
    def __init__(self, p): self.p = p


def exact_array(a):
    return np.vectorize(lambda x: X.Amp.exact(complex(x) if not isinstance(x, (X.Amp, int, Fraction)) else x), otypes=[object])(a) if np.size(a) else np.asarray(a, dtype=object)


class Sqrt:
    """sqrt of 2 and of 1/2, exactly"""
    def __call__(self, n):
        if n == 2:
            return X.SQ2
        if n == 0.5:
            return X.ISQ2
        raise Unsupported('sqrt %r' % (n,))


class NP:
    """numpy on exact amplitudes"""
    ndarray = np.ndarray
    tensordot = staticmethod(lambda a, b, axes=2: _wrap(np.tensordot(_arr(a), _arr(b), axes=axes)))
    moveaxis, transpose, reshape = staticmethod(np.moveaxis), staticmethod(np.transpose), staticmethod(np.reshape)
    trace = staticmethod(lambda a, offset=0, axis1=0, axis2=1: _trace(a, axis1, axis2))
    sqrt = Sqrt()

    @staticmethod
    def zeros(shape, dtype=None): return X.full(tuple(shape) if not isinstance(shape, int) else (shape,), X.ZERO)
    @staticmethod
    def ones(shape, dtype=None): return X.full(tuple(shape) if not isinstance(shape, int) else (shape,), X.ONE)
    @staticmethod
    def identity(n): return X.eye(n)

    @staticmethod
    def array(x, dtype=None):
        return exact_array(np.array(x, dtype=object))

    @staticmethod
    def exp(a):
        if isinstance(a, IAng):
            return X.e(a.p)
        raise Unsupported('exp')

    @staticmethod
    def power(a, n): return X.Amp.of(a) ** n

    def __getattr__(self, n):
        raise Unsupported('numpy.%s' % n)


def _arr(a):
    return a if isinstance(a, np.ndarray) else _wrap(a)


def _wrap(t):
    if isinstance(t, np.ndarray):
        return t
    a = np.empty((), dtype=object)
    a[()] = t
    return a


def _trace(a, i, j):
    n = a.ndim
    t = np.moveaxis(a, (i % n, j % n), (0, 1))
    return _wrap(t[0, 0] + t[1, 1])


def module():
    X.install()
    m = mods.clone('pyzx.tensor', np=NP(), pi=PiTok(), sqrt=Sqrt())
    m.__dict__['pi'] = PiTok()
    return m


def w(n):
    t = X.full((2,) * n)
    for i in range(n):
        t[tuple(int(j == i) for j in range(n))] = X.ONE
    return t if n else _wrap(X.ZERO)


def generators(P):
    mod = module()

    def run(p):
        k = p.choose(7)
        a = X.phase_sym('a')
        lab = X.e(X.phase_sym('l'))  # a formal label: the entries are linear in it
        c = X.e(a)
        name = ['Z', 'X', 'H', 'W', 'Z box'][p.choose(5)]
        got = {'Z': lambda: mod.Z_to_tensor(k, Ang(a)), 'X': lambda: mod.X_to_tensor(k, Ang(a)), 'H': lambda: mod.H_to_tensor(k, Ang(a)), 'W': lambda: mod.W_to_tensor(k), 'Z box': lambda: mod.Z_box_to_tensor(k, lab)}[name]()
        c = X.e(a)
        if name == 'H' and 'a' in p.subst:
            return None if X.equal(_wrap(got), X.hbox(k, X.ONE))[0] or X.equal(_wrap(got), X.hbox(k, X.e(a)))[0] else 'H-box of phase 0'
        want = {'Z': lambda: X.spider(k, c), 'X': lambda: X.xspider(k, c), 'H': lambda: X.hbox(k, c), 'W': lambda: w(k), 'Z box': lambda: X.spider(k, lab)}[name]()
        ok, msg = X.equal(_wrap(got), _wrap(want))
        return None if ok else '%s of arity %d: %s' % (name, k, msg)
    paths = P.explore(run)
    bad = [r for _, r in paths if r]
    P.record('generator tensors, arities 0 to 6, for every phase and label', not bad, 'normal form of exponential sums', detail=str(bad[:2]), replay=lambda: replay('generators'))


def shapes(rng, multi=True):
    """a diagram of a random shape with a symbol for every phase and label, an arbitrary scalar, any positions"""
    from props import c19
    from pyzx.utils import VertexType as VT
    g = c19.any_diagram(rng, 5)
    g.scalar = g.scalar.__class__()
    n = 0
    for v in g.vertices():
        if g.type(v) in (VT.Z, VT.X, VT.H_BOX):
            g._phase[v] = X.phase_sym('p%d' % n)
            n += 1
        elif g.type(v) == VT.Z_BOX:
            g.set_vdata(v, 'label', X.e(X.phase_sym('l%d' % n)))
            n += 1
    c19.layout(rng, g, rng.randrange(4))
    return g


class Sc:
    def __init__(self): self.val = X.e(X.phase_sym('sc'))
    def to_number(self): return self.val


def amp(g):
    """exact contraction (independent of the evaluator)"""
    ins, outs = list(g.inputs()), list(g.outputs())
    legs = {v: [] for v in g.vertices()}
    ts = []
    n = 0
    for ed in g.edges():
        s, t = g.edge_st(ed)
        la, lb = ('e', n, 0), ('e', n, 1)
        n += 1
        legs[s].append(la)
        legs[t].append(lb)
        ts.append((X.H if int(g.edge_type(ed)) == 2 else X.I2, [la, lb]))
    for v, ls in legs.items():
        ty = int(g.type(v))
        if ty == 0:
            ts.append((X.I2, list(ls) + ([('in', v)] if v in ins else []) + ([('out', v)] if v in outs else [])))
        elif ty in (1, 2, 3):
            ts.append(({1: X.spider, 2: X.xspider, 3: X.hbox}[ty](len(ls), X.e(g.phase(v))), ls))
        elif ty == 6:
            ts.append((X.spider(len(ls), X.Amp.exact(g.vdata(v, 'label', 1))), ls))
        else:
            ts.append((w(len(ls)), ls))
    r = _wrap(X.contract(ts, [('out', v) for v in outs] + [('in', v) for v in ins]))
    return np.vectorize(lambda x: x * g.scalar.to_number(), otypes=[object])(r)


def diagrams(P, seed, count):
    mod = module()
    rng = random.Random(seed)
    bad = []
    done = 0
    for i in range(count):
        st = rng.getrandbits(32)

        def run(p):
            g = shapes(random.Random(st))
            if g.num_edges() > 9:
                return 'skip'
            for v in g.vertices():   # forks of the evaluator on phase = 0 are avoided by a nonzero phase (phase 0 is a value of the symbol)
                f = X.SymPhase.of(g.phase(v))
                if f and f[1] and int(g.type(v)) == 3:
                    p.memo[('ne', f)] = True
                    p.memo[('ne', X.lf_add(f, (Fraction(1), ()), -1))] = True
            g.scalar = Sc()
            want = amp(g)
            got = mod.tensorfy(g)
            ok, msg = X.equal(_wrap(got), want)
            if not ok:
                return 'shape %d: %s' % (st, msg)
            m = mod.tensor_to_matrix(_wrap(got), g.num_inputs(), g.num_outputs())
            ok, msg = X.equal(np.asarray(m, dtype=object), want.reshape(2 ** g.num_outputs(), 2 ** g.num_inputs()))
            return None if ok else 'matrix: %s' % msg
        for _, r in P.explore(guarded(run)):
            if r == 'skip':
                continue
            done += 1
            if r:
                bad.append(r)
    P.record('tensorfy and tensor_to_matrix on %d diagram shapes, for every phase, label and scalar' % done, not bad, 'normal form of exponential sums', detail=str(bad[:2]), replay=lambda: replay('diagrams'))


def operations(P):
    """compose_tensors, adjoint, tensor_to_matrix on tensors whose entries are formal unknowns"""
    mod = module()

    def formal(shape, name):
        a = np.empty(shape, dtype=object)
        for n, ix in enumerate(np.ndindex(*shape)):
            a[ix] = X.e(X.phase_sym('%s%d' % (name, n)))
        return a

    def run(p):
        q = 1 + p.choose(2)
        d = 2 ** q
        a, b = formal((2,) * (2 * q), 'a'), formal((2,) * (2 * q), 'b')
        ok, msg = X.equal(mod.compose_tensors(a, b).reshape(d, d), b.reshape(d, d).dot(a.reshape(d, d)))
        if not ok:
            return 'compose_tensors: ' + msg
        ok, msg = X.equal(mod.adjoint(a).reshape(d, d), X.dagger(a.reshape(d, d)))
        return None if ok else 'adjoint: ' + msg
    bad = [r for _, r in P.explore(guarded(run)) if r]
    P.record('compose_tensors and adjoint are composition and adjoint, for all entries (1 and 2 qubits)', not bad, 'normal form', detail=str(bad[:1]), replay=lambda: replay('circuits'))

    def run2(p):
        o, i = p.choose(4), p.choose(4)
        a = formal((2,) * (o + i), 'a') if o + i else _wrap(X.e(X.phase_sym('a')))
        m = np.asarray(mod.tensor_to_matrix(a, i, o), dtype=object)
        ok, msg = X.equal(m, a.reshape(2 ** o, 2 ** i))
        return None if ok else '%d %d %s' % (o, i, msg)
    bad = [r for _, r in P.explore(guarded(run2)) if r]
    P.record('tensor_to_matrix is row-major, for all entries (up to 3 outputs and inputs)', not bad, 'normal form', detail=str(bad[:1]), replay=lambda: replay('tensor_to_matrix'))


def replay(name):
    from props import c19
    return c19.S.hunt(name, 400)


def register(S):
    T = 'pyzx.tensor.'
    S.proof('generator tensors', functions=[T + f for f in ('Z_to_tensor', 'X_to_tensor', 'H_to_tensor', 'W_to_tensor', 'Z_box_to_tensor')], limit=120)(generators)
    S.proof('tensor operations', functions=[T + f for f in ('compose_tensors', 'adjoint', 'tensor_to_matrix')], limit=120)(operations)
    for k in range(4):
        S.proof('evaluation by shapes %d' % k, functions=[T + 'tensorfy', T + 'pop_and_shift', T + 'tensor_to_matrix'], limit=200)(lambda P, k=k: diagrams(P, 100 + k, 60))
