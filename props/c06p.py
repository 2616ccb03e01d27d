"""C06, deductive part: the gate-cancelling optimiser on lists with arbitrary contents (pyvc.trace), its passes and drivers by contract.

Data invariant of Optimizer, checked after every operation: available[q] is the tail of gates[q]; its gates are all diagonal in the Z
basis of q (availty 1) or all in the X basis (availty 2; a leading ZPhase may remain after a CZ was absorbed); indices are distinct.
Denotation: permutation . nots . zs . hadamards . product of gates = the gates parsed so far, up to a global phase."""
import importlib
import inspect
import itertools
import time
from fractions import Fraction
import numpy as np
import z3
from pyvc import trace as T, exact as E, loops as L, flow as F
from pyvc.core import path, Unsupported, PathAbort, discharge
from pyvc.heap import Z
from props import c07p as G
from props.c07p import fn, I, nx

M = 'pyzx.optimize'


class Perm:
    """the permutation of the wires: two (or one) physical wires of interest, arbitrarily many others"""
    def __init__(self, d):
        self.d = dict(d)

    def __iter__(self):
        ks = list(self.d)
        if path().memo.setdefault('permrev', path().choose(2)):
            ks.reverse()
        yield T.EXT
        for k in ks:
            yield k

    def keys(self): return iter(self)
    def items(self): return ((k, self[k]) for k in self)
    def values(self): return (self[k] for k in self)

    def __getitem__(self, k):
        return 107 if k == T.EXT else self.d[k]

    def __setitem__(self, k, v):
        if k not in self.d:
            raise Unsupported('another wire is permuted')
        self.d[k] = v


class Box:
    pass


def state(mod, wires, logical, bits, simple=False):
    """an arbitrary optimiser state; bits: 'hadamards' etc. -> wires recorded there"""
    p = path()
    W = T.World(mod, wires)
    o = mod.Optimizer.__new__(mod.Optimizer)
    o.circuit, o.qubits = None, 8
    o.gates, o.available, o.availty = {}, {}, {}
    old = {}
    for w in wires + [T.EXT]:
        ty = 1 if simple or w == T.EXT else 1 + p.choose(2)
        a = [T.Seg(w, 'ZX'[ty - 1], True)]
        if ty == 2 and p.choose(2):
            a = [T.Seg(w, 'Z', True, only=[('ZPhase',)])] + a
        old[w] = [T.Seg(w, None, False)] + a
        o.gates[w] = T.SegList(W, w, 'gates', old[w])
        o.available[w] = T.SegList(W, w, 'available', a)
        o.availty[w] = ty
    for n in ('hadamards', 'nots', 'zs'):
        setattr(o, n, [9] + [w for w in wires if w in bits.get(n, ())])
    o.permutation = Perm(dict(zip(wires, logical)))
    o.gcount = 1000
    o.minimize_czs, o.do_swaps = not simple and bool(p.choose(2)), simple or bool(p.choose(2))
    return W, o, old


def pending(wires, logical, o):
    """the recorded part as a matrix from the physical wires to the logical ones (in the order given by `logical`)"""
    had, nots, zs, perm = list(o.hadamards), list(o.nots), list(o.zs), {w: o.permutation[w] for w in wires}

    def f(ws):
        n = len(ws)
        m = E.eye(2 ** n)
        for l, g in ((had, E.H), (zs, E.zp(1)), (nots, E.X)):
            for w in ws:
                if w in l:
                    m = E.on_qubits(g, [ws.index(w)], n).dot(m)
        # physical wire w becomes logical wire perm[w]
        t = m.reshape((2,) * n + (2 ** n,))
        src = [None] * n
        order = sorted([w for w in ws if w in perm], key=lambda w: logical.index(perm[w]))
        slots = [ws.index(w) for w in wires if w in ws]
        if len(order) != len(slots):
            raise Unsupported('wires')
        for i in range(n):
            src[i] = i
        for s, w in zip(slots, order):
            src[s] = ws.index(w)
        return np.transpose(t, src + [n]).reshape(2 ** n, 2 ** n)
    return f


def mat(d, wires, logical, g=None):
    """a gate on logical wires (slot k of the physical wires stands for logical[k])"""
    def f(ws):
        m, on = T.gate_matrix(d)
        slots = [w for w in wires if w in ws]
        return E.on_qubits(m, [ws.index(slots[logical.index(x)]) for x in on], len(ws))
    return f


def lists_ok(o, wires, W):
    for n in ('hadamards', 'nots', 'zs'):
        l = getattr(o, n)
        if l.count(9) != 1 or any(l.count(w) > 1 for w in wires) or any(w not in wires and w != 9 for w in l):
            return '%s: %s' % (n, l)
    if sorted(o.permutation.d) != sorted(wires) or len(set(o.permutation.d.values())) != len(wires):
        return 'the permutation'
    for w in wires + [T.EXT]:
        a, g = T.plain(o.available[w]), T.plain(o.gates[w])
        if len(a) > len(g) or any(x is not y for x, y in zip(g[len(g) - len(a):], a)):
            return 'available is not the tail of the gates of wire %s' % w
        ty = 'ZX'[o.availty[w] - 1]
        for k, x in enumerate(a):
            t = x.typ if isinstance(x, T.Seg) else T.typ(x, w)
            lead = ty == 'X' and t == 'Z' and (x.only if isinstance(x, T.Seg) else isinstance(x, type(o).__init__.__globals__['ZPhase'])) and all(
                isinstance(y, T.Seg) and y.only or not isinstance(y, T.Seg) and T.typ(y, w) == 'Z' for y in a[:k])
            if t != ty and not lead:
                return 'an available gate of wire %s has the wrong type' % w
    ex = {}
    for w in wires + [T.EXT]:
        for x in T.plain(o.gates[w]):
            if not isinstance(x, T.Seg):
                ex[id(x)] = x
    new = [x for i, x in ex.items() if i not in W.start]
    if len({x.index for x in ex.values()}) != len(ex) or any(not 1000 <= x.index < o.gcount for x in new) or o.gcount < 1000:
        return 'indices: %s, counter %s' % ([(x.name, x.index) for x in ex.values()], o.gcount)
    for x in ex.values():
        if x.name == 'CZ' and not x.control < x.target:
            return 'a CZ is not normalised'
        if x.name not in ('CZ', 'CNOT', 'HAD') and not isinstance(x, type(o).__init__.__globals__['ZPhase']):
            return 'a %s gate' % x.name
    return None


def module():
    mod = importlib.import_module(M)
    return mod


def patched(mod, fn):
    old = {k: mod.__dict__[k] for k in T.BUILTINS if k in mod.__dict__}
    mod.__dict__.update(T.BUILTINS)
    try:
        return fn()
    finally:
        for k in T.BUILTINS:
            if k in old:
                mod.__dict__[k] = old[k]
            else:
                del mod.__dict__[k]


_S = [None]


def hunting(*names):
    def f():
        if _S[0] is None:
            return False
        for n in names or ('one pass', 'structured', 'basic_optimization', 'separate'):
            r = _S[0].hunt(n, 1500, 1, seconds=15)
            if r:
                return r
        return False
    return f


def subsets(ws):
    return [s for k in range(len(ws) + 1) for s in itertools.combinations(ws, k)]


def ob(P, mod, name, fn):
    patched(mod, lambda: discharge(P, name, fn, 'exact arithmetic', replay=hunting(), max_paths=60000))


def add_gates(P):
    """add_cz, add_cnot: pending . product becomes pending . gate . product"""
    mod = module()

    def cz(p):
        bits = [dict(hadamards=(0,), nots=(1,), zs=(0, 1)), dict(hadamards=(1,), nots=(0,))][p.choose(2)]
        g = mod.CZ(0, 1)
        W_ = [0, 1]
        return run2(mod, W_, bits, lambda o: o.add_cz(g), T.gate_matrix(('CZ', 0, 1, None, None)))

    ob(P, mod, 'Optimizer.add_cz emits the gate', cz)
    for c, t in ((0, 1), (1, 0)):
        def cnot(p):
            b = subsets([0, 1])
            bits = dict(hadamards=b[p.choose(4)], nots=b[p.choose(4)], zs=b[p.choose(4)]) if c == 0 else dict(nots=(0,), zs=(1,), hadamards=(0, 1))
            return run2(mod, [0, 1], bits, lambda o: o.add_cnot(mod.CNOT(c, t)), T.gate_matrix(('CNOT', c, t, None, None)))
        ob(P, mod, 'Optimizer.add_cnot emits the gate CNOT(%d,%d)' % (c, t), cnot)


def run2(mod, wires, bits, call, gate):
    """pending' . product' = pending . gate . product"""
    logical = [100 + w for w in wires]
    W, o, old = state(mod, wires, logical, bits)
    before = pending(wires, logical, o)
    call(o)
    r = lists_ok(o, wires, W)
    if r:
        return r
    after = pending(wires, logical, o)
    m, on = gate
    return T.verify(W, old, o.gates, wires, lambda ws: before(ws).dot(E.on_qubits(m, [ws.index(x) for x in on], len(ws))), after)


# ---------------------------------------------------------------- one gate of the input
def stubs(o, W, wires):
    """add_cz, add_cnot by contract: the gate is emitted; add_cnot may have exchanged the two wires everywhere"""
    G = {}

    def put(g):
        g.index = o.gcount
        o.gcount += 1
        for w in T.wires_of(g):
            o.gates[w].append(g)
            o.available[w] = []
            o.availty[w] = 'ZX'.index(T.typ(g, w)) + 1

    def add_cz(g):
        if type(g).__name__ != 'CZ' or not g.control < g.target:
            raise AssertionError('add_cz(%r)' % g)
        put(g)

    def add_cnot(g):
        if type(g).__name__ != 'CNOT' or g.control == g.target:
            raise AssertionError('add_cnot(%r)' % g)
        put(g)
        if o.do_swaps and path().choose(2):
            c, t = g.control, g.target
            mod = importlib.import_module(M)
            # SWAP . CNOT instead of CNOT, and every record of the two wires exchanged: the same operator
            s1, s2, s3 = mod.CNOT(c, t), mod.CNOT(t, c), mod.CNOT(c, t)
            for s in (s1, s2, s3):
                put(s)
            p = o.permutation
            p[c], p[t] = p[t], p[c]
            for n in ('hadamards', 'nots', 'zs'):
                l = getattr(o, n)
                new = [{c: t, t: c}.get(x, x) for x in l]
                l[:] = new
    o.add_cz, o.add_cnot = add_cz, add_cnot


def run1(mod, wires, bits, make, given=()):
    p = path()
    logical = [100 + w for w in wires]
    g = make(logical)
    W, o, old = state(mod, wires, logical, bits, len(wires) == 2)
    if len(wires) == 2 and p.choose(2):
        o.permutation[wires[0]], o.permutation[wires[1]] = o.permutation[wires[1]], o.permutation[wires[0]]
    stubs(o, W, wires)
    before = pending(wires, logical, o)
    ph = getattr(g, 'phase', None)
    d = (g.name if g.name in ('CNOT', 'CZ', 'HAD', 'NOT') else 'ZPhase', getattr(g, 'control', None), g.target, ph, {})
    snap = (type(g), g.target, getattr(g, 'control', None), g.index)
    o.parse_gate(g)
    if (type(g), g.target, getattr(g, 'control', None), g.index) != snap or getattr(g, 'phase', None) is not ph:
        return 'the gate of the input is changed'
    r = lists_ok(o, wires, W)
    if r:
        return r
    after = pending(wires, logical, o)
    return T.verify(W, old, o.gates, wires, lambda ws: mat(d, wires, logical)(ws).dot(before(ws)), after, [ph] if ph is not None else [])


def parse(P, which):
    mod = module()
    one = {'HAD': lambda w: mod.HAD(w[0]), 'NOT': lambda w: mod.NOT(w[0]), 'ZPhase': lambda w: mod.ZPhase(w[0], E.phase_sym('a')),
           'S': lambda w: mod.S(w[0]), 'S*': lambda w: mod.S(w[0], adjoint=True), 'Z': lambda w: mod.Z(w[0]),
           'T': lambda w: importlib.import_module('pyzx.circuit.gates').T(w[0]), 'T*': lambda w: importlib.import_module('pyzx.circuit.gates').T(w[0], adjoint=True)}
    two = {'CZ': lambda w: mod.CZ(*w), 'CNOT': lambda w: mod.CNOT(*w), 'CNOT reversed': lambda w: mod.CNOT(w[1], w[0]), 'CZ reversed': lambda w: mod.CZ(w[1], w[0])}
    if which == 1:
        for n, f in one.items():
            def run(p):
                b = subsets([0])
                return run1(mod, [0], dict(hadamards=b[p.choose(2)], nots=b[p.choose(2)], zs=b[p.choose(2)]), f)
            ob(P, mod, 'Optimizer.parse_gate on %s: the total becomes gate . total' % n, run)
    else:
        for n, f in two.items():
            def run(p):
                b = subsets([0, 1])
                return run1(mod, [0, 1], dict(hadamards=b[p.choose(4)], nots=b[p.choose(4)], zs=b[p.choose(4)]), f)
            ob(P, mod, 'Optimizer.parse_gate on %s: the total becomes gate . total' % n, run)


def parse1(P): parse(P, 1)
def parse2(P): parse(P, 2)


# ---------------------------------------------------------------- permutation_as_swaps
class Arr:
    """a list of integers"""
    def __init__(self, a, n):
        self.a, self.n = a, n

    def __getitem__(self, i):
        return Z(z3.simplify(z3.Select(self.a, Z.of(i))))

    def __setitem__(self, i, v):
        self.a = z3.Store(self.a, Z.of(i), Z.of(v))


class PermDict:
    """a permutation of 0..n-1 as a dictionary (or its inverse)"""
    def __init__(self, n, fwd, bwd):
        self.n, self.fwd, self.bwd = n, fwd, bwd

    def __getitem__(self, i):
        return Z(self.fwd(Z.of(i)))

    def items(self):
        return PermItems(self)

    def __iter__(self): raise Unsupported('loop over a permutation')


class PermItems:
    def __init__(self, d):
        self.d = d

    def dictcomp(self, f):
        k, v = object(), object()
        a, b = f((k, v))
        if (a, b) == (v, k):
            return PermDict(self.d.n, self.d.bwd, self.d.fwd)
        if (a, b) == (k, v):
            return self.d
        raise Unsupported('dictionary made of a permutation')


class Rng(L.SymRange):
    def comp(self, h, conds=()):
        if conds or self.step != 1 or not (isinstance(self.lo, int) and self.lo == 0):
            raise Unsupported('comprehension')
        a = z3.Array('arr!%d' % nx(), I, I)
        i = z3.Int('ci!%d' % nx())
        path().assume(z3.ForAll([i], z3.Select(a, i) == Z.of(h(Z(i))), patterns=[z3.Select(a, i)]))
        return Arr(a, self.hi)


class Swaps:
    """the swaps made so far: position -> what was there at the beginning"""
    def __init__(self, n):
        self.c = z3.K(I, z3.IntVal(0))
        self.c = z3.Array('content!%d' % nx(), I, I)
        i = z3.Int('si!%d' % nx())
        path().assume(z3.ForAll([i], z3.Select(self.c, i) == i, patterns=[z3.Select(self.c, i)]))

    def append(self, ab):
        a, b = [Z.of(x) for x in ab]
        rt = path().memo['rt']
        n = path().memo['n']
        rt.prove('a swap has two different wires of the circuit', z3.And(a != b, 0 <= a, a < n, 0 <= b, b < n))
        x, y = z3.Select(self.c, a), z3.Select(self.c, b)
        self.c = z3.Store(z3.Store(self.c, a, y), b, x)


def swaps(P):
    ex = importlib.import_module('pyzx.extract')
    V = {}
    P.under_contract('pyzx.extract.permutation_as_swaps')

    def run(p):
        n = z3.Int('n')
        path().assume(n >= 0)
        k = nx()
        fw, bw = fn('perm', I, I), fn('inv', I, I)
        i = z3.Int('pi!%d' % k)
        dom = z3.And(0 <= i, i < n)
        path().assume(z3.ForAll([i], z3.Implies(dom, z3.And(0 <= fw(i), fw(i) < n, bw(fw(i)) == i)), patterns=[fw(i)]))
        path().assume(z3.ForAll([i], z3.Implies(dom, z3.And(0 <= bw(i), bw(i) < n, fw(bw(i)) == i)), patterns=[bw(i)]))
        perm = PermDict(Z(n), fw, bw)
        sw = Swaps(n)

        def inv(env, pos):
            l, li, S = env['l'], env['linv'], env['swaps']
            if not (isinstance(l, Arr) and isinstance(li, Arr) and S is sw):
                raise Unsupported('other data')
            q, j = Z.of(pos), z3.Int('q!%d' % nx())
            C = lambda x: z3.Select(S.c, x)
            la, lb = (lambda x: z3.Select(l.a, x)), (lambda x: z3.Select(li.a, x))
            d = z3.And(0 <= j, j < n)
            yield 'the content of a wire is one of the wires', z3.ForAll([j], z3.Implies(d, z3.And(0 <= C(j), C(j) < n)), patterns=[C(j)])
            yield 'the wires before are right', z3.ForAll([j], z3.Implies(z3.And(d, j < q), fw(C(j)) == j), patterns=[C(j)])
            yield 'l is where the content has to go', z3.ForAll([j], z3.Implies(z3.And(d, j >= q), z3.And(la(j) == fw(C(j)), la(j) >= q, la(j) < n)), patterns=[la(j)])
            yield 'linv inverts l', z3.ForAll([j], z3.Implies(z3.And(d, j >= q), z3.And(lb(j) >= q, lb(j) < n, la(lb(j)) == j, lb(la(j)) == j)), patterns=[lb(j)])
            yield 'linv inverts l (2)', z3.ForAll([j], z3.Implies(z3.And(d, j >= q), lb(la(j)) == j), patterns=[la(j)])

        def heap(env):
            for x in (env['l'], env['linv']):
                x.a = z3.Array('arr!%d' % nx(), I, I)
            sw.c = z3.Array('content!%d' % nx(), I, I)
        rt = L.Runtime({0: L.Inv('wires', inv, heap=heap)}, V)
        rt.empties = (lambda: sw,)
        p.memo['rt'] = p.memo['runtime'] = rt
        p.memo['n'] = n
        f = L.instrument(ex.permutation_as_swaps, rt, comps=True, range=lambda *a: Rng(*a), len=lambda x: x.n if hasattr(x, 'n') else len(x))
        r = f(perm)
        if r is not sw:
            raise Unsupported('result')
        j = z3.Int('out!%d' % nx())
        rt.prove('after the swaps wire perm[i] has the content of wire i', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), fw(z3.Select(sw.c, j)) == j), patterns=[z3.Select(sw.c, j)]))
    G.finish(P, 'permutation_as_swaps', run, V, hunting('separate', 'basic_optimization'))


# ---------------------------------------------------------------- topological_sort_gates
class Pos:
    """position of an element in a queue"""
    def __init__(self, q, e, off=0):
        self.q, self.e, self.off = q, e, off

    def __add__(self, k): return Pos(self.q, self.e, self.off + k)
    __radd__ = __add__
    def __sub__(self, k): return Pos(self.q, self.e, self.off - k)
    def __lt__(self, o): return self.q.order.index(self.e) < self.q.order.index(o.e)
    def __gt__(self, o): return o < self
    __hash__ = None


class Queue:
    """what is left of the gates of one wire: arbitrarily many"""
    def __init__(self, S, w):
        self.S, self.w, self.order, self.gone, self.open, self.bools, self.passed = S, w, [], [], True, 0, 0

    def left(self):
        return [e for e in self.order if not any(e is x for x in self.gone)]

    def _new(self):
        p, m, S = path(), self.S.mod, self.S
        o = 20 + len(self.order)
        k = p.choose(8)
        w = self.w
        g = [lambda: m.ZPhase(w, Fraction(1, 3)), lambda: m.S(w), lambda: m.HAD(w), lambda: m.CZ(w, o), lambda: m.CZ(o, w), lambda: m.CNOT(w, o), lambda: m.CNOT(o, w), lambda: m.ZPhase(w, Fraction(1, 4))][k]()
        g.index = 50 + len(self.order)
        self.order.append(g)
        return g

    def __bool__(self):
        """the loop `while gs`: twice an arbitrary first gate, then the state is one seen before"""
        self.S.step()
        if self.left():
            return True
        self.bools += 1
        if self.bools > 2:
            raise PathAbort()
        if path().choose(2):
            self.open = False
            return False
        self._new()
        return True

    def __len__(self): raise Unsupported('len')

    def __getitem__(self, i):
        if i == 0:
            if not self.left():
                raise IndexError('list index out of range')
            return self.left()[0]
        if isinstance(i, slice) and i.start == 1 and i.stop is None and i.step is None:
            return Tail(self)
        raise Unsupported('index of a queue')

    def pop(self, i=-1):
        if isinstance(i, int) and i == 0:
            e = self.left()[0]
        elif isinstance(i, Pos) and i.q is self and i.off == 1:
            if any(self.order.index(x) < self.order.index(i.e) for x in self.since):
                raise T.Mismatch('a position is used after gates before it were removed')
            e = i.e
        else:
            raise Unsupported('pop %r' % (i,))
        self._del(e)
        return e

    since = ()

    def _del(self, e):
        if any(e is x for x in self.gone):
            raise T.Mismatch('a gate is removed twice')
        self.gone.append(e)
        self.since = list(self.since) + [e]

    def remove(self, e):
        if not any(e is x for x in self.left()):
            raise ValueError('list.remove(x): x not in list')
        self._del(e)


class Tail:
    """gs[1:]: the loop over it looks at arbitrary gates, two of them explicit"""
    def __init__(self, q):
        self.q = q
        q.since = []
        if not q.left():
            raise Unsupported('tail of an empty queue')
        q.base = q.left()[0]

    def _iter(self, num):
        q = self.q
        for k in range(3):
            if k == 2 or path().choose(2):    # a third gate: the two before are any two
                return
            g = q._new()
            yield (Pos(q, g), g) if num else g

    def __iter__(self): return self._iter(False)


class Marks:
    """available_indices: gates whose other list is free, found while looking at the other wires"""
    def __init__(self, S):
        self.S, self.born, self.mine, self.theirs, self.no = S, S.rounds, [], [], []

    def __contains__(self, i):
        if any(i == x for x in self.mine + self.theirs):
            return True
        if i in self.no or self.S.rounds == 0:
            return False
        if path().choose(2):
            self.no.append(i)
            return False
        if self.born != self.S.rounds and path().choose(2):
            self.mine.append(i)       # a mark of an earlier round may come from this wire
        else:
            self.theirs.append(i)
            self.S.reach.append(i)
        return True

    def add(self, i):
        self.mine.append(i)
        self.S.marked.append(i)

    def remove(self, i):
        if i not in self:
            raise KeyError(i)
        for l in (self.mine, self.theirs):
            if i in l:
                l.remove(i)
        self.no.append(i)

    def discard(self, i):
        if i in self:
            self.remove(i)


class OtherQueue:
    def __init__(self, S, w):
        self.S, self.w = S, w

    def remove(self, g):
        S = self.S
        if self.w not in T.wires_of(g) or self.w == S.q.w:
            raise ValueError('list.remove(x): x not in list')
        if g.index not in S.reach:
            raise T.Mismatch('%s is placed, but gates before it on the other wire may not have been' % g)
        if any(g is x for x in S.other):
            raise ValueError('list.remove(x): x not in list')
        S.other.append(g)


class Sorting:
    """self.gates"""
    def __init__(self, mod):
        self.mod, self.q, self.rounds, self.reach, self.other, self.marked = mod, None, 0, [], [], []

    def values(self):
        return [self._any()]

    def _any(self):
        S = self

        class V:
            def __bool__(self):
                S.rounds += 1
                if S.rounds == 1:
                    return path().choose(2) == 0
                return False         # after an arbitrary round: leave (going on is the state before the round)
        return V()

    def items(self):
        if path().choose(2):
            return
        self.q = Queue(self, 3)
        yield 3, self.q
        self.step()

    def keys(self): return (w for w, q in self.items())
    __iter__ = keys

    def __getitem__(self, w):
        if self.q is not None and w == self.q.w:
            return self.q
        return OtherQueue(self, w)

    def step(self):
        """between two steps: marks of this wire are gates nothing stands before"""
        q = self.q
        if q is None:
            return
        for i in self.marked:
            g = [e for e in q.order if e.index == i]
            if not g:
                raise T.Mismatch('a gate of another wire is marked')
            if any(e is g[0] for e in q.gone):
                continue
            for e in q.left():
                if e is g[0]:
                    break
                if T.typ(e, q.w) is None or T.typ(e, q.w) != T.typ(g[0], q.w):
                    raise T.Mismatch('%s is marked although %s stands before it' % (g[0], e))


def toposort(P):
    mod = module()
    P.under_contract('pyzx.optimize.Optimizer.topological_sort_gates')

    def run(p):
        S = Sorting(mod)
        o = mod.Optimizer.__new__(mod.Optimizer)
        o.gates = S
        over = dict(set=lambda *a: Marks(S) if not a else set(*a), enumerate=lambda x, *a: x._iter(True) if isinstance(x, Tail) else enumerate(x, *a))
        keep = {k: mod.__dict__[k] for k in over if k in mod.__dict__}
        mod.__dict__.update(over)
        try:
            out = o.topological_sort_gates()
        except T.Mismatch as e:
            return str(e)
        finally:
            for k in over:
                if k in keep:
                    mod.__dict__[k] = keep[k]
                else:
                    del mod.__dict__[k]
        q = S.q
        if q is None:
            return None if out == [] else 'output %s' % out
        try:
            S.step()
        except T.Mismatch as e:
            return str(e)
        if len(out) != len(q.gone) or any(not any(x is e for e in out) for x in q.gone):
            return 'placed %s, removed %s' % (out, q.gone)
        for x in out:
            if x.name in ('CZ', 'CNOT') and not any(x is y for y in S.other):
                return '%s stays in the list of the other wire' % x
        if any(not any(x is y for y in out) for x in S.other):
            return 'a gate is removed from another list without being placed'
        seq = [e for e in out] + q.left()
        for i, x in enumerate(seq):
            for y in seq[i + 1:]:
                if q.order.index(y) < q.order.index(x) and (T.typ(x, q.w) is None or T.typ(x, q.w) != T.typ(y, q.w)):
                    return '%s is placed before %s' % (x, y)
        return None
    discharge(P, 'topological_sort_gates: every gate is placed after the gates it does not commute with, and once', run, 'path enumeration', replay=hunting(), max_paths=60000)


# ---------------------------------------------------------------- passes
class GateTok:
    def __init__(self, n):
        self.n, self.index = n, 0

    def to_basic_gates(self):
        return [self]
    def __repr__(self): return self.n


class Input:
    """circuit.gates: arbitrarily many; one arbitrary of them is parsed"""
    def __init__(self, o, start, end):
        self.o, self.start, self.end = o, start, end

    def __iter__(self):
        r = self.start()
        if r:
            raise T.Mismatch(r)
        if path().choose(2):
            g = GateTok('g')
            self.o.parsed = []
            yield g
            if self.o.parsed != [g]:
                raise T.Mismatch('a gate of the circuit is parsed %d times' % len(self.o.parsed))
            raise PathAbort()
        self.end()


def forward(P):
    mod = module()
    P.under_contract('pyzx.optimize.Optimizer.parse_forward', 'pyzx.optimize.Optimizer.add_hadamard')
    from itertools import permutations
    Sw = type('SwapTok', (), {})

    def run(p):
        n = 3
        o = mod.Optimizer.__new__(mod.Optimizer)
        o.qubits = n
        o.circuit = Box()
        info = {}

        def start():
            if o.hadamards or o.nots or o.zs or any(len(o.gates[i]) or len(o.available[i]) or o.availty[i] != 1 or o.permutation[i] != i for i in range(n)) or \
                    any(sorted(d) != list(range(n)) for d in (o.gates, o.available, o.availty, o.permutation)):
                return 'the pass starts with something recorded'
            if len({id(x) for d in (o.gates, o.available) for x in d.values()} | {id(o.hadamards), id(o.nots), id(o.zs)}) != 2 * n + 3:
                return 'two records are the same list'

        def end():
            for l in ('hadamards', 'nots', 'zs'):
                setattr(o, l, [w for w in (1, 0, 2) if p.choose(2)])
                info[l] = list(getattr(o, l))
            info['seg'] = [GateTok('seg%d' % i) for i in range(n)]
            o.gates = {i: [info['seg'][i]] for i in range(n)}
            o.available = {i: [info['seg'][i]] if p.choose(2) else [] for i in range(n)}
            o.gcount = 100
            o.permutation = info['perm'] = Perm({0: 1, 1: 2, 2: 0})

        def sort():
            info['gates'] = {i: list(l) for i, l in o.gates.items()}
            return ['sorted']
        o.circuit.gates = Input(o, start, end)
        o.parse_gate = lambda g: o.parsed.append(g)
        o.topological_sort_gates = sort
        keep = mod.permutation_as_swaps

        def pas(perm):
            if perm is not info['perm']:
                raise T.Mismatch('swaps of another permutation')
            return [(0, 1), (1, 2)]
        mod.permutation_as_swaps = pas
        try:
            c, corr = o.parse_forward()
        except T.Mismatch as e:
            return str(e)
        finally:
            mod.permutation_as_swaps = keep
        if c.gates != ['sorted'] or c.qubits != n:
            return 'the circuit is not the sorted list'
        if sorted(info['gates']) != list(range(n)):
            return 'wires'
        for i in range(n):
            want = ['HAD'] * (i in info['hadamards']) + ['Z'] * (i in info['zs'])
            l = info['gates'][i]
            if l[:1] != [info['seg'][i]] or [('Z' if isinstance(g, mod.ZPhase) and g.phase == 1 else g.name) for g in l[1:]] != want or any(g.target != i for g in l[1:]):
                return 'wire %d ends with %s instead of %s' % (i, l[1:], want)
        idx = [g.index for l in info['gates'].values() for g in l[1:]]
        if len(set(idx)) != len(idx) or any(x < 100 for x in idx):
            return 'indices'
        if not (sorted(g.target for g in corr[:-2]) == sorted(info['nots']) and all(type(g).__name__ == 'NOT' for g in corr[:-2])):
            return 'corrections %s for NOTs on %s' % (corr, info['nots'])
        if [(type(g).__name__, g.control, g.target) for g in corr[-2:]] != [('SWAP', 0, 1), ('SWAP', 1, 2)]:
            return 'corrections %s' % corr
        return None
    discharge(P, 'parse_forward: every gate is parsed once, from an empty record; what is recorded at the end becomes gates and corrections', run, 'path enumeration', replay=hunting())


def norm(word, eqs):
    """replaces the result of a pass by what it was made from"""
    word = list(word)
    for new, old in reversed(eqs):
        k = len(new)
        for r, by in ((new, old), (new[::-1], old[::-1])):
            for i in range(len(word) - k + 1):
                if all(x is y for x, y in zip(word[i:i + k], r)):
                    word[i:i + k] = by
                    break
            else:
                continue
            break
        else:
            return None
    return word


def passes(P):
    mod = module()
    P.under_contract('pyzx.optimize.Optimizer.parse_circuit', 'pyzx.optimize.Optimizer.__init__', 'pyzx.optimize.basic_optimization', 'pyzx.optimize.full_optimize')

    def run(p):
        eqs = []
        inp = [GateTok(x) for x in 'xyz']
        c = mod.Circuit(3)
        c.gates = list(inp)
        o = mod.Optimizer(c)
        if o.circuit is not c or o.qubits != 3:
            return 'the optimiser is not made for the circuit'
        sep, ds = bool(p.choose(2)), bool(p.choose(2))
        state_ = {}

        def fwd():
            if o.do_swaps is not ds:
                raise T.Mismatch('do_swaps')
            L_ = list(o.circuit.gates)
            if norm(L_, eqs) not in (inp, inp[::-1]):
                raise T.Mismatch('the circuit of pass %d is %s' % (len(eqs) + 1, norm(L_, eqs)))
            if len(eqs) > 8:
                raise PathAbort()     # further rounds start in the state of an earlier one
            k = len(eqs)
            new, corr = [GateTok('a%d' % k), GateTok('b%d' % k)], [GateTok('n%d' % k), GateTok('s%d' % k)]
            eqs.append((new + corr, L_))
            r = mod.Circuit(3)
            r.gates = new
            return r, corr
        o.parse_forward = fwd
        keep = mod.stats
        mod.stats = lambda c: (F.Any(), F.Any(), F.Any())
        try:
            r = o.parse_circuit(separate_correction=sep, max_iterations=F.Any(), do_swaps=ds, quiet=True)
        except T.Mismatch as e:
            return str(e)
        finally:
            mod.stats = keep
        if c.gates != inp:
            return 'the argument is changed'
        word = list(r[0].gates) + list(r[1]) if sep else r.gates
        q = r[0].qubits if sep else r.qubits
        w = norm(word, eqs)
        if w != inp or q != 3:
            return 'the result is %s, i.e. %s' % (word, w)
        return None
    discharge(P, 'parse_circuit: any number of passes forward and backward denote the input', run, 'path enumeration', replay=hunting())

    def drivers(p):
        log = []

        class Ci(mod.Circuit):
            def to_basic_gates(self):
                log.append(('basic', self))
                r = Ci(2)
                return r
        k = p.choose(2)
        c = Ci(2)
        if k == 0:
            class Opt:
                def __init__(self, x): self.x = x

                def parse_circuit(self, separate_correction=False, max_iterations=1000, do_swaps=True, quiet=True):
                    log.append((self.x, separate_correction, do_swaps))
                    return 'result'
            keep = mod.Optimizer
            mod.Optimizer = Opt
            try:
                ds = bool(p.choose(2))
                r = mod.basic_optimization(c, do_swaps=ds)
            finally:
                mod.Optimizer = keep
            return None if r == 'result' and log == [(c, False, ds)] else 'basic_optimization: %s' % log
        kb, kp = mod.basic_optimization, mod.phase_block_optimize
        seq = [c]

        def step(x, *a, **kw):
            if not isinstance(x, Ci) or x not in seq and not any(l[0] == 'basic' and l[1] in seq for l in log):
                raise T.Mismatch('another circuit is optimised')
            r = Ci(2)
            seq.append(r)
            return r
        mod.basic_optimization = mod.phase_block_optimize = step
        try:
            r = mod.full_optimize(c)
        except T.Mismatch as e:
            return str(e)
        finally:
            mod.basic_optimization, mod.phase_block_optimize = kb, kp
        return None if r is seq[-1] and len(seq) >= 2 else 'full_optimize does not return the last circuit'
    discharge(P, 'basic_optimization, full_optimize: passes applied to the results of passes', drivers, 'path enumeration', replay=hunting('basic_optimization', 'full_optimize'))


def register(S):
    _S[0] = S
    O = 'optimize.Optimizer.'
    for name, fns, f, lim in [
            ('gates are emitted, cancelled or merged', [O + 'add_cz', O + 'add_cnot'], add_gates, 200),
            ('one-qubit gates are parsed', [O + 'parse_gate', O + 'add_hadamard', O + 'add_gate', 'optimize.toggle_element'], parse1, 200),
            ('two-qubit gates are parsed', [O + 'parse_gate', O + 'add_hadamard', 'optimize.toggle_element', 'optimize.swap_element'], parse2, 200),
            ('lists are put in order', [O + 'topological_sort_gates'], toposort, 120),
            ('permutations as swaps', ['extract.permutation_as_swaps'], swaps, 120),
            ('passes', [O + 'parse_forward', O + 'parse_circuit', 'optimize.basic_optimization', 'optimize.full_optimize'], lambda P: (forward(P), passes(P)), 120)]:
        S.proof(name, functions=fns, limit=lim)(f)
