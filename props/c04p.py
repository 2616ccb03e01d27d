"""C04, deductive part: operations on gate lists executed on opaque gates.

A gate token carries the contract of its class (C03 and `positions` below): copy, to_adjoint, to_basic_gates, split_phases, reposition.
A `Run` is a token that stands for a gate list of arbitrary length: an operation applied to it is applied to each of its gates in order;
lists that contain one answer neither length, index nor slice questions other than reversal.  An operation that treats its gates
one by one is thus checked on every length; anything else leaves the obligation undecided (bounded cases decide)."""
import itertools
from fractions import Fraction
from pyvc import mods, exact as X, ghost as G
from pyvc.core import path, Unsupported, discharge
from pyvc.ghost import Lab

_S = []


def gate_classes():
    from pyzx.circuit.gates import Gate, ZPhase, XPhase

    class Base:
        pass

    def make(cls, plus):
        class T(cls):
            name = 'token'

            def __init__(self, nm, ops=(), rev=False, run=False, part=None, mask=(), owner='new'):
                self.__dict__.update(nm=nm, ops=ops, rev=rev, run=run, part=part, mask=mask, owner=owner)

            def __setattr__(self, k, v):
                if k in ('rev', 'owner'):
                    self.__dict__[k] = v
                    return
                raise Unsupported('gate attribute %s set' % k)

            def _new(self, **k):
                d = dict(nm=self.nm, ops=self.ops, rev=self.rev, run=self.run, part=self.part, mask=self.mask)
                d.update(k)
                return type(self)(**d)

            def copy(self): return self._new()
            __copy__ = copy
            def __deepcopy__(self, memo): return self._new()

            def to_adjoint(self):
                if self.part is not None:
                    raise Unsupported('adjoint of a part')
                return self._new(ops=tuple(o for o in self.ops if o != 'inv') + (() if 'inv' in self.ops else ('inv',)))

            def expand(self):
                if self.run or self.part is not None:
                    return [self] if path().choose(2) else [self._new()]
                k = path().choose(3)
                return [self] if k == 0 else [self._new()] if k == 1 else [self._new(part=0), self._new(part=1)]
            to_basic_gates = expand

            def reposition(self, mask, bit_mask=None):
                return self._new(mask=self.mask + ((tuple(mask), tuple(bit_mask) if bit_mask is not None else None),))

            def _max_target(self):
                if self.run:
                    raise Unsupported('max target')
                return 2

            def __eq__(self, o): return self is o if not self.run else NotImplemented
            def __hash__(self): return id(self)
            def __str__(self): return 'token'
            __repr__ = __str__

            def meaning(self): return (self.nm, 'inv' in self.ops, self.rev, self.part, self.mask)
        if plus:
            T.split_phases = T.expand
        T.__name__ = cls.__name__
        return T
    return make(Gate, False), make(ZPhase, True), make(XPhase, True)


class NoLen(Unsupported, TypeError):
    pass


def vlen(x):
    if isinstance(x, list) and any(getattr(g, 'run', False) for g in list.__iter__(x)):
        raise NoLen('length of a gate list')
    return len(x)


class GL(list):
    """gate list that may contain Runs"""
    def _has(self): return any(g.run for g in self)

    def __reversed__(self):
        return iter(rev(list(self)))

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None, None, -1):
            return GL(rev(list(self)))
        if isinstance(i, slice) and i == slice(None, None, None):
            return GL(self)
        if self._has():
            raise Unsupported('index into a gate list')
        return list.__getitem__(self, i)

    def __len__(self):
        if self._has():
            raise NoLen('length of a gate list')
        return list.__len__(self)

    def __bool__(self):
        return list.__len__(self) > 0

    def copy(self): return GL(self)


def rev(l):
    out = []
    for g in l[::-1]:
        if g.run:
            g = g.__class__(g.nm, g.ops, not g.rev, True, g.part, g.mask, g.owner)
        out.append(g)
    return out


def lists(p, T, tag):
    """a gate list: up to two opaque gates, or runs around one"""
    k = p.choose(5)
    names = [[], ['%sa' % tag], ['%sa' % tag, '%sb' % tag], ['*%sr' % tag], ['*%sr' % tag, '%sa' % tag, '*%ss' % tag]][k]
    return GL([T[p.choose(3) if n[-1] == 'a' and tag == 'c' else 0](n, run=n[0] == '*', owner=tag) for n in names])


def circuit(p, m, T, tag, q, bits=0):
    c = m.Circuit(q, tag, bits)
    c.gates = lists(p, T, tag)
    c.held = list.copy(list(c.gates))
    return c


def mean(gs):
    """the product: two adjacent parts of one gate are the gate"""
    out = []
    gs = list(list.__iter__(gs)) if isinstance(gs, list) else list(gs)
    i = 0
    while i < len(gs):
        m = gs[i].meaning()
        if m[3] == 0 and i + 1 < len(gs) and gs[i + 1].meaning() == m[:3] + (1,) + m[4:]:
            m = m[:3] + (None,) + m[4:]
            i += 1
        out.append(m)
        i += 1
    return out


def intact(c, q, bits, tag):
    g = list(list.__iter__(c.gates))
    return [id(x) for x in g] == [id(x) for x in c.held] and (c.qubits, c.bits, c.name) == (q, bits, tag)


def fresh(r, *cs):
    """no gate object is shared with an operand"""
    theirs = {id(x) for c in cs for x in c.held}
    mine = [id(x) for x in list.__iter__(r.gates)]
    return not theirs & set(mine) and len(set(mine)) == len(mine) and all(r.gates is not c.gates for c in cs)


def moved(ms, mask, bit_mask):
    return [m[:4] + (m[4] + ((tuple(mask), tuple(bit_mask)),),) for m in ms]


def inv(ms):
    out = []
    for m in reversed(ms):
        out.append((m[0], not m[1], m[2] if not m[0].startswith('*') else not m[2]) + m[3:])
    return out


def op(P, name, fns, body):
    def run(p):
        m = mods.clone('pyzx.circuit', len=vlen)
        return body(p, m, gate_classes())
    discharge(P, name, run, 'opaque gates', replay=lambda: next((h for h in (_S[0].hunt(n, 150, 3, 25) for n in fns) if h), False))


def unary(P):
    def go(p, m, T):
        q, b = p.choose(3), p.choose(2)
        c = circuit(p, m, T, 'c', q, b)
        w = mean(c.held)
        k = p.choose(4)
        r = [c.copy, c.adjoint, c.to_basic_gates, c.split_phase_gates][k]()
        if not intact(c, q, b, 'c'):
            return 'the operand was changed'
        if (r.qubits, r.bits) != (q, b):
            return 'qubits or bits'
        if not fresh(r, c):
            return 'a gate is shared with the operand'
        if mean(r.gates) != (inv(w) if k == 1 else w):
            return '%s instead of %s' % (mean(r.gates), w)
    op(P, 'copy, adjoint, to_basic_gates, split_phase_gates', ['unary'], go)


def compose(P):
    def go(p, m, T):
        q, b = 1 + p.choose(2), p.choose(2)
        a = circuit(p, m, T, 'a', q, b)
        k = p.choose(5)
        if k < 3:
            o = circuit(p, m, T, 'b', q, b)
            want = mean(a.held) + mean(o.held)
            if k == 0:
                r = a + o
            elif k == 1:
                a.add_circuit(o)
                r = a
            else:
                r = a
                r += o
            ok = intact(o, q, b, 'b') and (r is a or intact(a, q, b, 'a'))
            sh = fresh(r, o) and (r is a or fresh(r, a))
        elif k == 3:
            o = circuit(p, m, T, 'b', 2, 1)
            mask, bm = [q, 0], [b]
            i = p.choose(3)
            if i == 0:
                a.add_circuit(o, mask=mask, bit_mask=bm)
            elif i == 1:
                a.add_circuit(o, mask, bm)
            else:
                try:
                    a.add_circuit(o, mask=mask + [1], bit_mask=bm)
                except TypeError:
                    return None if intact(a, q, b, 'a') else 'a refused composition changed the circuit'
                return 'a mask of the wrong length is accepted'
            r = a
            want = mean(a.held) + moved(mean(o.held), mask, bm)
            ok = intact(o, 2, 1, 'b')
            sh = fresh(r, o)
        else:
            o = circuit(p, m, T, 'b', q + p.choose(2), b)
            if o.qubits == q:
                o.bits = b + 1
            try:
                a.add_circuit(o)
            except TypeError:
                return None if intact(a, q, b, 'a') else 'a refused composition changed the circuit'
            return 'circuits of different size are composed'
        if not ok:
            return 'an operand was changed'
        if not sh:
            return 'a gate is shared with an operand'
        if r.qubits != q or r.bits != b:
            return 'qubits or bits'
        if mean(r.gates) != want:
            return '%s instead of %s' % (mean(r.gates), want)
    op(P, 'composition: +, +=, add_circuit with and without masks, mismatches refused', ['compose', 'mismatched'], go)


def tensor(P):
    def go(p, m, T):
        q, b, q2, b2 = p.choose(2), p.choose(2), p.choose(3), p.choose(2)
        a = circuit(p, m, T, 'a', q, b)
        k = p.choose(3)
        if k == 2:
            g = T[p.choose(2)]('g')
            r = a @ g
            q2, b2 = 3, 0
            ow = mean([g])
            others = [a]
            same = lambda: True
            sg = all(x is not g for x in r.gates)
        else:
            o = circuit(p, m, T, 'b', q2, b2)
            r = a.tensor(o) if k else a @ o
            ow = mean(o.held)
            others = [a, o]
            same = lambda: intact(o, q2, b2, 'b')
            sg = True
        if not intact(a, q, b, 'a') or not same():
            return 'an operand was changed'
        if not fresh(r, *others) or not sg:
            return 'a gate is shared with an operand'
        if (r.qubits, r.bits) != (q + q2, b + b2):
            return 'qubits or bits'
        want = mean(a.held) + moved(ow, [q + i for i in range(q2)], [b + i for i in range(b2)])
        if mean(r.gates) != want:
            return '%s instead of %s' % (mean(r.gates), want)
    op(P, 'tensor product of circuits and with a gate', ['tensor'], go)


def builders(P):
    def go(p, m, T):
        a = circuit(p, m, T, 'a', 2, 0)
        w = mean(a.held)
        k = p.choose(5)
        g = T[0]('g')
        if k == 0:
            a.add_gate(g)
            want = w + mean([g])
        elif k == 1:
            a.prepend_gate(g)
            want = mean([g]) + w
        else:
            from pyzx.circuit import gates as R
            if k == 2:
                a.add_gate('CNOT', 1, 0)
            elif k == 3:
                a.row_add(1, 0)
            else:
                a.col_add(0, 1)
            gs = list(list.__iter__(a.gates))
            new = gs.pop(0 if k == 4 else -1)
            if type(new) is not R.CNOT or (new.control, new.target) != (1, 0):
                return 'another gate was added: %s' % new
            return None if [id(x) for x in gs] == [id(x) for x in a.held] else 'other gates moved'
        return None if mean(a.gates) == want else 'gate in the wrong place'
    op(P, 'add_gate, prepend_gate, row_add, col_add', ['builders'], go)


def counts(P):
    """statistics of a gate list: one gate at the end adds its own counts (induction), whatever came before"""
    def go(p, m, T):
        from pyzx.circuit import gates as R
        from props.c03 import SPEC, cls_of
        names = sorted(SPEC)
        n = names[p.choose(len(names))]
        nq, k, ctor, _ = SPEC[n]
        ps = [[Fraction(1, 4), Fraction(1, 3), Fraction(1, 2), Fraction(0), Fraction(3, 4), Fraction(1)][p.choose(6) if i == 0 else 2 + i] for i in range(k)]
        g = ctor(cls_of(n), list(range(nq)), ps)
        pre = [[], [R.T(0)], [R.CNOT(1, 2), R.T(2), R.HAD(0), R.CZ(0, 1), R.S(1), R.Tofolli(0, 1, 2), R.XCX(0, 1)]][p.choose(3)]
        c, d = m.Circuit(3), m.Circuit(3)
        c.gates, d.gates = list(pre), list(pre) + [g]
        kind = 'clifford' if isinstance(g, (R.ZPhase, R.XPhase)) and g.phase.denominator <= 2 else 'had' if isinstance(g, R.HAD) else 'two' if isinstance(g, (R.CZ, R.XCX, R.CNOT)) else 'none' if isinstance(g, (R.ZPhase, R.XPhase)) else 'other'
        a, b = c.stats_dict(), d.stats_dict()
        diff = {x: b[x] - a[x] for x in a if isinstance(a[x], int) and b[x] != a[x]}
        want = dict(gates=1, tcount=g.tcount())
        want.update(dict(clifford=dict(clifford=1), had=dict(had=1, clifford=1), two=dict(twoqubit=1, clifford=1, cnot=int(isinstance(g, R.CNOT))), none={}, other=dict(other=1))[kind])
        want = {x: y for x, y in want.items() if y}
        if diff != want:
            return '%s adds %s instead of %s' % (g, diff, want)
        if d.tcount() - c.tcount() != g.tcount():
            return 'tcount'
        two = sum(1 for x in g.to_basic_gates() if x.name in ('CNOT', 'CZ'))
        if d.twoqubitcount() - c.twoqubitcount() != two:
            return 'twoqubitcount'
        return None
    op(P, 'statistics: every gate adds its own counts', ['stats'], go)


class Mask:
    """an arbitrary placement: label l goes to label f(l)"""
    def __init__(self): self.m = {}

    def __getitem__(self, l):
        if not isinstance(l, Lab):
            raise Unsupported('placement %r' % (l,))
        return self.m.setdefault(l, Lab('f' + l.name))


def state(g):
    return {k: (list(v) if isinstance(v, (list, tuple, set)) else v) for k, v in g.__dict__.items() if k != 'index'}


def same_state(a, b):
    def eq(x, y):
        if isinstance(x, list) and isinstance(y, list):
            return len(x) == len(y) and all(eq(u, v) for u, v in zip(x, y))
        if isinstance(x, Lab) or isinstance(y, Lab):
            return x is y
        if isinstance(x, X.SymPhase) and isinstance(y, X.SymPhase):
            return x.lf == y.lf
        return x == y
    return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)


def positions(P):
    """reposition and copy of every gate class, at arbitrary labels and parameters"""
    from props.c03 import SPEC, cls_of, PARAM
    X.install()
    for name in sorted(SPEC):
        n, k, ctor, _ = SPEC[name]

        def run(p):
            labs = [Lab('q%d' % i) for i in range(n)]
            ps = [X.phase_sym(PARAM[i]) for i in range(k)]
            g = ctor(cls_of(name), labs, ps)
            before = state(g)
            mk = Mask()
            bm = [None, Mask()][p.choose(2)]
            r = g.reposition(mk, bm) if bm is not None else g.reposition(mk)
            want = ctor(cls_of(name), [mk[l] for l in labs], ps)
            if type(r) is not type(g) or not same_state(state(r), state(want)):
                return 'repositioned to %s instead of %s' % (state(r), state(want))
            if not same_state(state(g), before) or r is g:
                return 'the gate itself was moved'
            c = g.copy()
            if c is g or type(c) is not type(g) or not same_state(state(c), before):
                return 'copy'
            if any(isinstance(v, (list, set, dict)) and v is g.__dict__[kk] for kk, v in r.__dict__.items() if kk in g.__dict__):
                return 'the copy shares a list'
            return None
        discharge(P, '%s: reposition moves every qubit of the gate and nothing else, copy is equal' % name, run, 'symbolic execution', replay=lambda: _S[0].hunt('compose', 150, 3, 25) or _S[0].hunt('tensor', 150, 3, 25) or False)


def to_graph(P):
    """circuit_to_graph by the contract of Gate.to_graph: the gate is appended on its wires"""
    def go(p, _m, T):
        m = mods.clone('pyzx.circuit.graphparser')
        from pyzx.utils import VertexType
        n, bits = p.choose(4), p.choose(2)
        log = []
        g0 = []
        # to_graph extends the wires of an arbitrary set of labels
        k = p.choose(4)

        class TG:
            name = 'token'
            def __init__(self, nm): self.nm = nm

            def to_graph(self, g, qm, cm):
                if g0 and g0[0] is not g:
                    raise Unsupported('another graph')
                g0[:] = [g]
                log.append(self.nm)
                for i in list(range(n)) if k != 3 else range(0, n, 2):
                    u = qm.prev_vertex(i)
                    r = qm.next_row(i)
                    v = g.add_vertex(VertexType.Z, qm.to_qubit(i), r, phase=Fraction(1, 3))
                    g.add_edge((u, v))
                    qm.set_prev_vertex(i, v)
                    qm.advance_next_row(i)
        class Ci:
            qubits, gates = n, [TG(i) for i in range(k)]
        Ci.bits = bits
        cr = p.choose(2) == 1
        g = m.circuit_to_graph(Ci, cr, None)
        if log != list(range(k)):
            return 'gates %s of %d were placed' % (log, k)
        if len(g.inputs()) != n + bits or len(g.outputs()) != n + bits or len(set(g.inputs() + g.outputs())) != 2 * (n + bits):
            return 'inputs or outputs'
        touched = list(range(n)) if k != 3 else list(range(0, n, 2))
        if g.num_vertices() != 2 * (n + bits) + k * len(touched) or g.num_edges() != n + bits + k * len(touched):
            return 'extra vertices or edges'
        for i, (a, b) in enumerate(zip(g.inputs(), g.outputs())):
            prev, v, count = None, a, 0
            while v != b:
                nx = [w for w in g.neighbors(v) if w != prev]
                if len(nx) != 1 or int(g.edge_type(g.edge(v, nx[0]))) != 1:
                    return 'wire %d is broken' % i
                prev, v = v, nx[0]
                count += 1
            if count != 1 + (k if i in touched else 0) or g.qubit(a) != i or g.qubit(b) != i:
                return 'wire %d has %d vertices' % (i, count)
            if int(g.type(a)) or int(g.type(b)):
                return 'boundary types'
        return None
    op(P, 'circuit_to_graph: all gates in order, inputs and outputs are the two ends of each wire', ['to_graph'], go)


ALL = [('unary', ['Circuit.copy', 'Circuit.adjoint', 'Circuit.to_basic_gates', 'Circuit.split_phase_gates']), ('compose', ['Circuit.add_circuit', 'Circuit.__add__', 'Circuit.__iadd__']), ('tensor', ['Circuit.tensor', 'Circuit.__matmul__']),
       ('builders', ['Circuit.add_gate', 'Circuit.prepend_gate', 'Circuit.row_add', 'Circuit.col_add']), ('counts', ['Circuit.stats_dict', 'Circuit.tcount', 'Circuit.twoqubitcount', 'Gate.tcount']),
       ('positions', ['Gate.reposition', 'Gate.copy', '*.reposition']), ('to_graph', ['circuit_to_graph'])]


def register(S):
    _S.append(S)

    def add(f, fns):
        @S.proof('proof of ' + f, functions=fns, limit=200)
        def _(P):
            globals()[f](P)
    for f, fns in ALL:
        add(f, fns)
