"""C04: circuit operations are the corresponding operations on unitaries."""
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C04', 'proof',
          note='bounded part: random circuits over all 35 gate types; unitaries computed from the defining matrix of each gate',
          rule='bounded part: a random circuit; non-trivial = distinct circuit with at least one gate')

B = 'random circuits of at most 4 qubits and mostly 10, sometimes up to 90 gates over every gate type, arbitrary rational phases'


def circ(c, n=(1, 4), depth=(0, 10), gates=None):
    rng = c.rng
    depth = depth if rng.random() < 0.95 else (30, 90)
    return gens.rand_circuit(rng, n=n, depth=depth, gates=gates or rng.choice([gens.GATES_ALL, gens.GATES_ALL, gens.GATES_T, gens.GATES_BASIC]), phases='mix', name='n%d' % rng.randrange(9))


def umat(k):
    return gens.circuit_matrix(k)


def same(a, b):
    """equality of unitaries up to global phase"""
    return a.shape == b.shape and refsem.close_up_to_phase(a, b)


def scramble(rng, k):
    """changes every gate of k in place"""
    for g in k.gates:
        for a in list(g.__dict__):
            if a in ('target', 'control', 'ctrl1', 'ctrl2'):
                setattr(g, a, 77)
            elif a == 'phase':
                g.phase = Fraction(1, 11)
            elif isinstance(getattr(g, a), list):
                getattr(g, a)[:] = [44]
            elif a == 'targets':
                g.targets = (55,)
        g.index = 99
    k.gates.append(k.gates[0]) if k.gates else None
    k.qubits += 3
    k.bits += 1


@S.bounded('compose', 250, 4000, bound=B, functions=['Circuit.add_circuit', 'Circuit.__add__', 'Circuit.__iadd__', 'Gate.reposition', 'Gate.__add__'])
def compose(c):
    rng = c.rng
    a, b = circ(c), circ(c)
    c.note(first=repr(a.gates), second=repr(b.gates))
    sa, sb = gens.gates_snapshot(a), gens.gates_snapshot(b)
    how = rng.randrange(4)
    if how == 0:        # same number of qubits
        b.qubits = a.qubits = max(a.qubits, b.qubits)
        sa, sb = gens.gates_snapshot(a), gens.gates_snapshot(b)
        r = a + b
        want = umat(b) @ umat(a)
        c.check(gens.gates_snapshot(a) == sa, 'a sum of circuits changed its operand')
    elif how == 1:
        b.qubits = a.qubits = max(a.qubits, b.qubits)
        sb = gens.gates_snapshot(b)
        want = umat(b) @ umat(a)
        r = a.copy()
        r += b
    elif how == 2:      # through a mask
        if b.qubits > a.qubits:
            a, b = b, a
            sa, sb = sb, sa
        mask = rng.sample(range(a.qubits), b.qubits)
        want = gens.apply(umat(b), mask, a.qubits) @ umat(a)
        r = a.copy()
        r.add_circuit(b, mask=mask)
        c.check(len(r.gates) == len(a.gates) + len(b.gates), 'number of gates')
    else:               # gate + gate, circuit + gate
        g = gens.rand_gate(rng, a.qubits, gens.GATES_ALL)
        want = gens.apply(*gens.gate_unitary(g), a.qubits) @ umat(a)
        r = a + g
    c.check(same(want, umat(r)), 'composition is the product of the unitaries')
    c.sig((sa, sb, how))
    c.check(gens.gates_snapshot(b) == sb or how == 3, 'composition changed an operand')
    if how != 3:
        scramble(rng, r)
        c.check(gens.gates_snapshot(b) == sb, 'changing a composition changed its operand')
        if how != 1:
            c.check(gens.gates_snapshot(a)[2] == sa[2], 'changing a composition changed its operand')


@S.bounded('mismatched', 60, 600, bound=B, functions=['Circuit.add_circuit'])
def mismatched(c):
    rng = c.rng
    a, b = circ(c), circ(c)
    if a.qubits == b.qubits:
        b.qubits += 1
    sa = gens.gates_snapshot(a)
    c.sig((sa, b.qubits))
    try:
        if rng.random() < 0.5:
            a.add_circuit(b)
        else:
            a.add_circuit(b, mask=list(range(b.qubits + 1)))
    except TypeError:
        c.check(gens.gates_snapshot(a) == sa, 'a refused composition changed the circuit')
        return
    c.check(False, 'composing circuits of different sizes is not refused')


@S.bounded('tensor', 200, 3000, bound=B, functions=['Circuit.tensor', 'Circuit.__matmul__', 'Gate.__matmul__'])
def tensor(c):
    rng = c.rng
    a, b = circ(c, n=(1, 2)), circ(c, n=(1, 2))
    a.bits, b.bits = rng.choice([0, 0, 1]), rng.choice([0, 0, 2])
    c.note(first=repr(a.gates), second=repr(b.gates))
    sa, sb = gens.gates_snapshot(a), gens.gates_snapshot(b)
    how = rng.randrange(3)
    if how == 2:
        g = gens.rand_gate(rng, 3, gens.GATES_ALL)
        k = g._max_target() + 1
        mg, qs = gens.gate_unitary(g)
        c.check(k == max(qs) + 1, 'the number of qubits of a gate')
        r = a @ g
        want = np.kron(umat(a), gens.apply(mg, qs, k))
        c.check(r.qubits == a.qubits + k, 'number of qubits')
    else:
        r = a.tensor(b) if how else a @ b
        want = np.kron(umat(a), umat(b))
        c.check((r.qubits, r.bits) == (a.qubits + b.qubits, a.bits + b.bits), 'number of qubits and bits')
    c.check(same(want, umat(r)), 'tensor product is the tensor product of the unitaries')
    c.sig((sa, sb, how))
    c.check(gens.gates_snapshot(a) == sa and gens.gates_snapshot(b) == sb, 'tensor product changed an operand')
    scramble(rng, r)
    c.check(gens.gates_snapshot(a) == sa and gens.gates_snapshot(b) == sb, 'changing a tensor product changed an operand')


@S.bounded('unary', 500, 8000, bound=B, functions=['Circuit.copy', 'Circuit.adjoint', 'Circuit.to_basic_gates', 'Circuit.split_phase_gates', 'Gate.to_adjoint', 'Gate.to_basic_gates', 'Gate.split_phases'])
def unary(c):
    rng = c.rng
    a = circ(c)
    a.bits = rng.choice([0, 0, 0, 2])
    c.note(circuit=repr(a.gates))
    s = gens.gates_snapshot(a)
    how = rng.choice(['copy', 'adjoint', 'to_basic_gates', 'split_phase_gates'])
    r = getattr(a, how)()
    want = umat(a)
    if how == 'adjoint':
        want = want.conj().T
    c.check((r.qubits, r.bits) == (a.qubits, a.bits), how + ' keeps the number of qubits and bits')
    c.check(same(want, umat(r)), how + ' denotes the %s unitary' % ('inverse' if how == 'adjoint' else 'same'), result=repr(r.gates))
    if how == 'copy':
        c.check(gens.gates_snapshot(r) == s and r.name == a.name and all(x == y for x, y in zip(a.gates, r.gates)), 'a copy differs from the original')
    if how == 'to_basic_gates':
        from pyzx.circuit.gates import gate_types
        c.check(all(type(g).__name__ in ('ZPhase', 'XPhase', 'Z', 'S', 'T', 'NOT', 'SX', 'HAD', 'CNOT', 'CZ', 'FSim') for g in r.gates), 'basic gates only', result=repr(r.gates))
    if how == 'split_phase_gates':
        c.check(all(type(g).__name__ not in ('ZPhase', 'XPhase') or (4 * g.phase) % 1 != 0 or not 0 <= g.phase < 2 or (type(g).__name__ == 'XPhase' and g.phase % 1 != 0) for g in r.gates), 'phases multiple of pi/4 are split', result=repr(r.gates))
    c.check(gens.gates_snapshot(a) == s, how + ' changed the circuit')
    c.sig((s, how))
    scramble(rng, r)
    c.check(gens.gates_snapshot(a) == s, 'changing the result of %s changed the circuit' % how)
    r = getattr(a, how)()
    s2 = gens.gates_snapshot(r)
    scramble(rng, a)
    c.check(gens.gates_snapshot(r) == s2, 'changing the circuit changed the result of ' + how)


@S.bounded('to_graph', 400, 6000, bound=B, functions=['Circuit.to_graph', 'circuit_to_graph', 'TargetMapper', 'Gate.to_graph', 'Circuit.to_matrix'])
def to_graph(c):
    rng = c.rng
    a = circ(c, depth=(0, 7))
    if any(type(g).__name__ == 'FSim' for g in a.gates):
        pass
    s = gens.gates_snapshot(a)
    c.note(circuit=repr(a.gates))
    zh, compress, backend = rng.random() < 0.3, rng.random() < 0.7, rng.choice([None, 'simple', 'multigraph'])
    g = a.to_graph(zh=zh, compress_rows=compress, backend=backend)
    c.sig((s, zh, compress))
    c.check(gens.gates_snapshot(a) == s, 'conversion to a diagram changed the circuit')
    c.check(len(g.inputs()) == len(g.outputs()) == a.qubits, 'number of inputs and outputs')
    c.check(refsem.close_up_to_scalar(umat(a), refsem.graph_matrix(g)) and abs(np.abs(np.linalg.det(refsem.graph_matrix(g))) - 1) < 1e-6 if not zh else
            refsem.close_up_to_scalar(umat(a), refsem.graph_matrix(g)), 'the diagram denotes the unitary of the circuit', diagram=gens.describe(g))
    if not zh:
        c.check(same(umat(a), refsem.graph_matrix(g)), 'the diagram denotes the unitary of the circuit, up to global phase', diagram=gens.describe(g))
    # positions: qubits in order, every wire runs left to right
    for i, (v, w) in enumerate(zip(g.inputs(), g.outputs())):
        c.check(g.qubit(v) == g.qubit(w) == i, 'wires of the diagram are the qubits in order')


@S.bounded('wide', 60, 1000, bound='circuits of 9 to 24 qubits whose gates stay within blocks of at most 3 qubits', functions=['Circuit.to_graph', 'circuit_to_graph', 'TargetMapper', 'graph_to_circuit', 'Circuit.add_circuit', 'Circuit.tensor'])
def wide(c):
    from pyzx.circuit import Circuit
    rng = c.rng
    n = rng.randint(9, 24)
    bl = gens.blocks(rng, n)
    a = gens.block_circuit(rng, n, bl, (n, 4 * n), rng.choice([gens.GATES_BASIC, gens.GATES_CLIFF, gens.GATES_T]))
    c.note(circuit=repr(a.gates), qubits=n)
    c.sig(gens.gates_snapshot(a))

    def restrict(x, b):
        r = Circuit(len(b))
        for g in x.gates:
            u, qs = gens.gate_unitary(g)
            if set(qs) <= set(b):
                r.gates.append(g.reposition({q: b.index(q) for q in b}))
        return gens.circuit_matrix(r)
    g = a.to_graph(compress_rows=rng.random() < 0.7, backend=rng.choice([None, 'simple', 'multigraph']))
    if rng.random() < 0.5:
        g = g.copy()
    parts, _ = gens.pieces(g)
    got = {}
    for i, o, m in parts:
        c.check(i == o and any(set(i) <= set(b) for b in bl), 'wires of the diagram are the qubits in order', ins=i, outs=o)
        c.check(same(restrict(a, i), m * (np.sqrt(m.shape[0]) / np.linalg.norm(m))), 'the diagram denotes the unitary of the circuit', qubits=i)
    c.check(sorted(q for i, _, _ in parts for q in i) == list(range(n)), 'every qubit has a wire')
    # wider: masks and tensors
    k = rng.randint(0, 12)
    mask = rng.sample(range(n + k), n)
    big = Circuit(n + k)
    big.add_gate('HAD', 0)
    big.add_circuit(a, mask)
    c.check(len(big.gates) == len(a.gates) + 1 and all(gens.gate_unitary(y)[1] == [mask[q] for q in gens.gate_unitary(x)[1]] and np.allclose(gens.gate_unitary(x)[0], gens.gate_unitary(y)[0])
            for x, y in zip(a.gates, big.gates[1:])), 'adding a circuit with a mask')
    t = Circuit(k).tensor(a)
    c.check(t.qubits == n + k and all(gens.gate_unitary(y)[1] == [q + k for q in gens.gate_unitary(x)[1]] for x, y in zip(a.gates, t.gates)), 'tensor of circuits')
    f = gens.block_circuit(rng, n, bl, (n, 3 * n), [('ZPhase', 1), ('XPhase', 1), ('HAD', 1), ('CNOT', 2), ('CZ', 2)])
    r = Circuit.from_graph(f.to_graph(), split_phases=False)
    c.check(r.qubits == n, 'number of qubits')
    for b in bl:
        c.check(same(restrict(f, b), restrict(r, b)), 'reading back the diagram of a circuit', qubits=b)


@S.bounded('from_graph', 250, 4000, bound='random circuits of at most 4 qubits and 12 gates over Z/X phases, H, CNOT, CZ, XCX', functions=['graph_to_circuit', 'Circuit.from_graph'])
def from_graph(c):
    rng = c.rng
    a = circ(c, depth=(0, 12), gates=gens.GATES_BASIC + [('S*', 1), ('T', 1), ('NOT', 1), ('SX', 1), ('Z', 1)])
    g = a.to_graph(compress_rows=rng.random() < 0.5)
    if rng.random() < 0.4:      # colour changes give X spiders and Hadamard wires between them
        from pyzx import simplify
        sel = {v for v in g.vertices() if rng.random() < 0.4}
        simplify.to_rg(g, select=lambda v: v in sel)
    s = gens.snapshot(g)
    split = rng.random() < 0.5
    c.note(diagram=gens.describe(g), split=split)
    c.sig(s)
    from pyzx.circuit import Circuit
    try:
        r = Circuit.from_graph(g, split_phases=split)
    except TypeError:
        raise Skip()
    c.check(gens.snapshot(g) == s, 'reading a circuit from a diagram changed it')
    c.check(r.qubits == a.qubits and refsem.close_up_to_scalar(umat(r), refsem.graph_matrix(g)), 'the circuit read from a circuit-like diagram denotes it', result=repr(r.gates))


@S.bounded('builders', 150, 2000, bound=B, functions=['Circuit.add_gate', 'Circuit.prepend_gate', 'Circuit.add_gates', 'Circuit.row_add', 'Circuit.col_add'])
def builders(c):
    rng = c.rng
    from pyzx.circuit import Circuit
    a = circ(c, n=(2, 3), depth=(0, 5))
    m = umat(a)
    q = rng.sample(range(a.qubits), 2)
    how = rng.randrange(6)
    cx = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])
    p = gens.phase(rng, 'mix')
    c.note(circuit=repr(a.gates), how=how, qubits=q)
    c.sig((gens.gates_snapshot(a), how, q))
    if how == 0:
        a.add_gate('CNOT', *q)
        want = gens.apply(cx, q, a.qubits) @ m
    elif how == 1:
        a.prepend_gate('CNOT', *q)
        want = m @ gens.apply(cx, q, a.qubits)
    elif how == 2:
        a.add_gates('S T H', q[0])
        H = np.array([[1, 1], [1, -1]]) / 2 ** .5
        want = gens.apply(H @ np.diag([1, np.exp(1j * np.pi * .75)]), q[:1], a.qubits) @ m
    elif how == 3:
        a.row_add(*q)
        want = gens.apply(cx, q, a.qubits) @ m
    elif how == 4:
        a.col_add(*q)
        want = m @ gens.apply(cx, q[::-1], a.qubits)
    else:
        a.add_gate('ZPhase', q[0], phase=p)
        want = gens.apply(np.diag([1, np.exp(1j * np.pi * float(p))]), q[:1], a.qubits) @ m
    c.check(same(want, umat(a)), 'building a circuit gate by gate')


@S.bounded('stats', 300, 4000, bound=B, functions=['Circuit.stats_dict', 'Circuit.tcount', 'Circuit.twoqubitcount', 'Circuit.depth', 'Circuit.stats', 'Gate.tcount'])
def stats(c):
    rng = c.rng
    gates = rng.choice([gens.GATES_ALL, gens.GATES_BASIC, gens.GATES_T])
    a = circ(c, gates=gates, depth=(0, 12))
    s = gens.gates_snapshot(a)
    c.note(circuit=repr(a.gates))
    c.sig(s)
    d = a.stats_dict(depth=True)
    a.stats(depth=rng.random() < 0.5)
    names = [type(g).__name__ for g in a.gates]
    zx = ('ZPhase', 'XPhase', 'Z', 'S', 'T', 'NOT', 'SX')
    c.check(d['gates'] == len(names) and d['qubits'] == a.qubits and d['name'] == a.name, 'number of gates and qubits')
    c.check(d['had'] == names.count('HAD') and d['cnot'] == names.count('CNOT'), 'Hadamard and CNOT count')
    c.check(d['twoqubit'] == sum(n in ('CNOT', 'CZ', 'XCX', 'SWAP') for n in names), 'two-qubit count')
    c.check(d['clifford'] == sum(n in ('CNOT', 'CZ', 'XCX', 'SWAP', 'HAD') or (n in zx and (2 * g.phase) % 1 == 0) for n, g in zip(names, a.gates)), 'Clifford count')
    c.check(d['other'] == sum(n not in zx + ('CNOT', 'CZ', 'XCX', 'SWAP', 'HAD') for n in names), 'count of other gates')
    ex = {'Tofolli': 7, 'CCZ': 7, 'CSWAP': 7}
    b = a.to_basic_gates()
    if not any(n == 'FSim' for n in names):
        # one T gate per phase that is not Clifford, in the expansion of each gate
        t = sum(ex.get(n) if n in ex else sum(1 for h in g.to_basic_gates() if hasattr(h, 'phase') and (2 * h.phase) % 1 != 0) for n, g in zip(names, a.gates))
        c.check(a.tcount() == t == d['tcount'], 'T-count')
    bn = [type(g).__name__ for g in b.gates]
    c.check(a.twoqubitcount() == bn.count('CNOT') + bn.count('CZ'), 'two-qubit count of the expansion')

    def depth(gs, n):
        lev = [0] * n
        for g in gs:
            qs = gens.gate_unitary(g)[1]
            m = max(lev[q] for q in qs) + 1
            for q in qs:
                lev[q] = m
        return max(lev, default=0)
    c.check(a.depth() == depth(a.gates, a.qubits), 'depth')
    c.check(d['depth'] == depth(b.gates, a.qubits), 'depth of the expansion')
    c.check(gens.gates_snapshot(a) == s, 'computing statistics changed the circuit')


@S.bounded('gate_equality', 300, 4000, bound='pairs of gates of the same type whose parameters differ or agree', functions=['Gate.__eq__', '*.__eq__'])
def gate_equality(c):
    """equal gates denote the same unitary, copies are equal"""
    rng = c.rng
    g = gens.rand_gate(rng, 3, gens.GATES_ALL)
    h = g.copy()
    c.check(g == h and not (g != h), 'a gate equals its copy')
    name = type(g).__name__
    for _ in range(6):
        k = gens.rand_gate(rng, 3, [x for x in gens.GATES_ALL])
        if type(k) == type(g):
            break
    else:
        k = g.reposition(rng.sample(range(3), 3))
    c.note(first=repr(g), second=repr(k))
    c.sig((gens_key(g), gens_key(k)))
    if g == k:
        a, b = gens.apply(*gens.gate_unitary(g), 3), gens.apply(*gens.gate_unitary(k), 3)
        c.check(refsem.close(a, b), 'gates that compare equal denote the same unitary')


def gens_key(g):
    return (type(g).__name__, sorted((k, repr(v)) for k, v in g.__dict__.items()))


@S.bounded('hybrid', 100, 1500, bound='circuits with measurements and bits', functions=['Measurement.to_graph', 'Measurement.reposition', 'Measurement.__eq__', 'DiscardBit.reposition', 'Circuit.tensor'])
def hybrid(c):
    rng = c.rng
    from pyzx.circuit import Circuit
    from pyzx.circuit.gates import Measurement, DiscardBit, HAD, CNOT
    a = Circuit(rng.randint(1, 3), bit_amount=rng.randint(0, 2))
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.4:
            a.add_gate(HAD(rng.randrange(a.qubits)))
        elif r < 0.8:
            a.add_gate(Measurement(rng.randrange(a.qubits), rng.choice(list(range(a.bits)) + [None])))
        elif a.bits:
            a.add_gate(DiscardBit(rng.randrange(a.bits)))
    s = gens.gates_snapshot(a)
    c.note(circuit=repr(s))
    c.sig(s)
    b = a.copy()
    c.check(gens.gates_snapshot(b) == s, 'a copy differs from the original')
    c.check(all((x == y) for x, y in zip(a.gates, b.gates) if not isinstance(x, DiscardBit)), 'a gate equals its copy')
    c.check([(type(g).__name__) for g in a.to_basic_gates().gates] == [type(g).__name__ for g in a.gates] and a.to_basic_gates().bits == a.bits and a.split_phase_gates().bits == a.bits, 'expansion keeps measurements and bits')
    t = a.tensor(b)
    c.check((t.qubits, t.bits) == (2 * a.qubits, 2 * a.bits), 'tensor adds qubits and bits')
    for i, g in enumerate(a.gates):
        h = t.gates[len(a.gates) + i]
        if isinstance(g, Measurement):
            c.check(h.target == g.target + a.qubits and h.result_bit == (None if g.result_bit is None else g.result_bit + a.bits), 'tensor moves measurements')
        elif isinstance(g, DiscardBit):
            c.check(h.target == g.target + a.bits, 'tensor moves bits')
    g = a.to_graph()
    c.check(len(g.inputs()) == len(g.outputs()) == a.qubits + a.bits, 'one wire per qubit and per bit')
    k = sum(isinstance(x, Measurement) for x in a.gates) + sum(isinstance(x, DiscardBit) or (isinstance(x, Measurement) and x.result_bit is not None) for x in a.gates)
    c.check(len(g.grounds()) == k, 'one ground per measurement and per discarded bit')


from props import c04p  # noqa: E402
c04p.register(S)
