"""Input generators for the bounded stand-ins (all randomness from the given rng)."""
from fractions import Fraction
import random

CLIFF = [Fraction(0), Fraction(1, 2), Fraction(1), Fraction(3, 2)]
T8 = [Fraction(i, 4) for i in range(8)]


def phase(rng, kind='T'):
    if kind == 'clifford':
        return rng.choice(CLIFF)
    if kind == 'pauli':
        return rng.choice(CLIFF[::2])
    if kind == 'mix':
        r = rng.random()
        if r < 0.35:
            return rng.choice(CLIFF)
        if r < 0.7:
            return rng.choice(T8)
        if r < 0.8:
            return Fraction(rng.randrange(-20, 20), rng.choice([1, 2, 3, 4, 5, 8]))
        return Fraction(rng.randrange(0, 16), rng.choice([3, 7, 8, 16]))
    return rng.choice(T8)


def rand_scalar(g, rng):
    if rng.random() < 0.5:
        g.scalar.add_power(rng.randrange(-3, 4))
        g.scalar.add_phase(rng.choice(T8))
    if rng.random() < 0.2:
        g.scalar.add_node(Fraction(1, 3))


def shuffle_graph(g, rng):
    return g


def new_graph(backend=None):
    from pyzx.graph import Graph
    return Graph(backend) if backend else Graph()


def rand_graph(rng, types=(1, 2), nv=(2, 7), io=(0, 2, 0, 2), phases='mix', had=0.4, density=0.45, hbox_deg=4, backend=None, scalar=True,
               wires=True, maxdeg=6, z_box=False):
    """random open diagram: n vertices, each boundary attached to one vertex (or to another boundary)"""
    from pyzx.utils import VertexType, EdgeType
    g = new_graph(backend)
    n = rng.randint(*nv)
    ni, no = rng.randint(io[0], io[1]), rng.randint(io[2], io[3])
    vs = []
    order = ['i'] * ni + ['o'] * no + ['v'] * n
    rng.shuffle(order)
    ins, outs = [], []
    for k in order:
        if k == 'v':
            ty = VertexType(rng.choice(types))
            if ty == VertexType.H_BOX:
                p = Fraction(1) if rng.random() < 0.5 else phase(rng, phases)
            else:
                p = phase(rng, phases)
            v = g.add_vertex(ty, qubit=rng.randrange(4), row=rng.randrange(8))
            g.set_phase(v, p)
            vs.append(v)
        else:
            v = g.add_vertex(VertexType.BOUNDARY, qubit=rng.randrange(4), row=-1 if k == 'i' else 9)
            (ins if k == 'i' else outs).append(v)
    et = lambda: EdgeType.HADAMARD if rng.random() < had else EdgeType.SIMPLE
    for i in range(len(vs)):
        for j in range(i):
            if rng.random() < density and g.vertex_degree(vs[i]) < maxdeg and g.vertex_degree(vs[j]) < maxdeg:
                g.add_edge((vs[i], vs[j]), et())
    bs = ins + outs
    rng.shuffle(bs)
    while bs:
        b = bs.pop()
        if wires and bs and rng.random() < 0.12:
            c = bs.pop()
            g.add_edge((b, c), et() if rng.random() < 0.5 else EdgeType.SIMPLE)
        elif vs:
            g.add_edge((b, rng.choice(vs)), et())
        else:
            z = g.add_vertex(VertexType.Z)
            g.add_edge((b, z), et())
            vs.append(z)
    rng.shuffle(ins)
    rng.shuffle(outs)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    if scalar:
        rand_scalar(g, rng)
    return g


def graph_like(rng, nv=(2, 7), io=(0, 2, 0, 2), phases='mix', density=0.5, gadgets=0.3, backend=None, simple_boundary=0.6, scalar=True, wires=0.05, tree=False):
    """Z spiders joined by Hadamard edges, boundaries on spiders, plus phase gadgets"""
    from pyzx.utils import VertexType, EdgeType
    g = new_graph(backend)
    n = rng.randint(*nv)
    ni, no = rng.randint(io[0], io[1]), rng.randint(io[2], io[3])
    ins = [g.add_vertex(VertexType.BOUNDARY, i, 0) for i in range(ni)]
    vs = []
    for i in range(n):
        v = g.add_vertex(VertexType.Z, i % 3, 1 + i)
        g.set_phase(v, phase(rng, phases))
        vs.append(v)
    outs = [g.add_vertex(VertexType.BOUNDARY, i, 9) for i in range(no)]
    for i in range(n):
        for j in range(i):
            if rng.random() < density:
                g.add_edge((vs[i], vs[j]), EdgeType.HADAMARD)
    for b in ins + outs:
        g.add_edge((b, rng.choice(vs)), EdgeType.SIMPLE if rng.random() < simple_boundary else EdgeType.HADAMARD)
    for _ in range(rng.randint(0, 2) if rng.random() < gadgets else 0):
        hub = g.add_vertex(VertexType.Z, -1, 5)
        g.set_phase(hub, rng.choice([0, 0, 0, 1]))
        leaf = g.add_vertex(VertexType.Z, -2, 5)
        g.set_phase(leaf, phase(rng, 'mix'))
        g.add_edge((hub, leaf), EdgeType.HADAMARD)
        for w in rng.sample(vs, rng.randint(0, min(3, len(vs)))):
            g.add_edge((hub, w), EdgeType.HADAMARD)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    if scalar:
        rand_scalar(g, rng)
    return g


GATES_CLIFF = [('HAD', 1), ('S', 1), ('Z', 1), ('NOT', 1), ('CNOT', 2), ('CZ', 2)]
GATES_T = GATES_CLIFF + [('T', 1), ('T', 1), ('T*', 1)]
GATES_BASIC = [('HAD', 1), ('ZPhase', 1), ('XPhase', 1), ('CNOT', 2), ('CZ', 2), ('ZPhase', 1)]
GATES_ALL = [('HAD', 1), ('S', 1), ('S*', 1), ('Z', 1), ('NOT', 1), ('T', 1), ('T*', 1), ('SX', 1), ('SX*', 1), ('Y', 1), ('ZPhase', 1), ('XPhase', 1), ('YPhase', 1),
             ('U2', 1), ('U3', 1), ('CNOT', 2), ('CZ', 2), ('XCX', 2), ('SWAP', 2), ('CY', 2), ('CHAD', 2), ('CSX', 2), ('CPhase', 2), ('CRX', 2), ('CRY', 2), ('CRZ', 2),
             ('RXX', 2), ('RZZ', 2), ('CU3', 2), ('CU', 2), ('FSim', 2), ('CCZ', 3), ('TOF', 3), ('CSWAP', 3), ('ParityPhase', 0)]
NPAR = dict(ZPhase=1, XPhase=1, YPhase=1, U2=2, U3=3, CPhase=1, CRX=1, CRY=1, CRZ=1, RXX=1, RZZ=1, CU3=3, CU=4)


def rand_gate(rng, n, gates, phases='mix', swap_ok=True):
    from pyzx.circuit import gates as G
    while True:
        name, k = rng.choice(gates)
        if k <= n:
            break
    adj = name.endswith('*')
    name = name.rstrip('*')
    cls = G.gate_types[name]
    if name == 'ParityPhase':
        return cls(phase(rng, phases), *rng.sample(range(n), rng.randint(1, n)))
    q = rng.sample(range(n), k)
    if name == 'FSim':
        return cls(q[0], q[1], Fraction(1, 2), phase(rng, phases))
    ps = [phase(rng, phases) for _ in range(NPAR.get(name, 0))]
    if adj:
        return cls(*q, adjoint=True)
    return cls(*q, *ps)


def rand_circuit(rng, n=(1, 4), depth=(0, 12), gates=GATES_T, phases='mix', name=''):
    from pyzx.circuit import Circuit
    q = rng.randint(*n)
    c = Circuit(q, name)
    for _ in range(rng.randint(*depth)):
        c.add_gate(rand_gate(rng, q, gates, phases))
    return c


def toffoli_circuit(rng, n=(3, 4), k=(3, 10), basic=True):
    """Toffoli circuits with negations and phases in between: their T gates fuse in long chains, with signs"""
    from pyzx.circuit import Circuit
    c = Circuit(rng.randint(*n))
    for _ in range(rng.randint(*k)):
        c.add_gate(rng.choice(['TOF', 'TOF', 'CCZ']), *rng.sample(range(c.qubits), 3))
        for _ in range(rng.choice([0, 1, 1, 2])):
            t = rng.choice(['NOT', 'NOT', 'CNOT', 'HAD', 'S', 'T'])
            c.add_gate(t, *rng.sample(range(c.qubits), 2 if t == 'CNOT' else 1))
    return c.to_basic_gates() if basic else c


def blocks(rng, n, size=3):
    """a random partition of range(n) into blocks of at most size elements"""
    l = rng.sample(range(n), n)
    out = []
    while l:
        k = rng.randint(1, size)
        out.append(l[:k])
        l = l[k:]
    return out


def block_circuit(rng, n, bl, depth, gates):
    """a circuit on n qubits whose gates stay within the blocks"""
    from pyzx.circuit import Circuit
    c = Circuit(n)
    for _ in range(rng.randint(*depth)):
        b = rng.choice(bl)
        g = rand_gate(rng, len(b), gates)
        c.add_gate(g.reposition(b))
    return c


def pieces(g):
    """the connected components that touch the boundary: [(input numbers, output numbers, matrix)], and the product of the other components"""
    from lib import refsem
    adj = {v: set() for v in g.vertices()}
    for e in g.edges():
        s, t = g.edge_st(e)
        adj[s].add(t)
        adj[t].add(s)
    ins, outs = list(g.inputs()), list(g.outputs())
    seen, out, rest = set(), [], refsem.scalar_value(g.scalar)
    for v in list(g.vertices()):
        if v in seen:
            continue
        comp, todo = {v}, [v]
        while todo:
            for w in adj[todo.pop()]:
                if w not in comp:
                    comp.add(w)
                    todo.append(w)
        seen |= comp
        h = new_graph('multigraph')
        h.set_auto_simplify(False)
        m = {}
        for w in sorted(comp):
            m[w] = h.add_vertex(g.type(w), g.qubit(w), g.row(w), g.phase(w))
            for k in g.vdata_keys(w):
                h.set_vdata(m[w], k, g.vdata(w, k))
        for e in g.edges():
            s, t = g.edge_st(e)
            if s in comp:
                h.add_edge((m[s], m[t]), g.edge_type(e))
        i, o = [k for k, w in enumerate(ins) if w in comp], [k for k, w in enumerate(outs) if w in comp]
        h.set_inputs(tuple(m[ins[k]] for k in i))
        h.set_outputs(tuple(m[outs[k]] for k in o))
        mat = refsem.graph_matrix(h)
        if i or o:
            out.append((i, o, mat))
        else:
            rest = rest * mat.flatten()[0]
    return out, rest


def circuit_matrix(c):
    """unitary of a circuit from the defining unitaries of its gates (independent of the code's own conversions)"""
    import numpy as np
    return circuit_images(c, np.eye(2 ** c.qubits, dtype=complex))


def circuit_images(c, cols):
    """the images of the given columns under the circuit"""
    import numpy as np
    n, k = c.qubits, cols.shape[1]
    U = np.asarray(cols, dtype=complex).reshape((2,) * n + (k,))
    for g in c.gates:
        m, qs = gate_unitary(g)
        a = len(qs)
        t = np.asarray(m, dtype=complex).reshape((2,) * (2 * a))
        U = np.moveaxis(np.tensordot(t, U, axes=(list(range(a, 2 * a)), list(qs))), list(range(a)), list(qs))
    return U.reshape(2 ** n, k)


def apply(m, qs, n):
    import numpy as np
    k = len(qs)
    t = np.asarray(m, dtype=complex).reshape((2,) * (2 * k))
    full = np.eye(2 ** n, dtype=complex).reshape((2,) * (2 * n))
    r = np.tensordot(t, full, axes=(list(range(k, 2 * k)), list(qs)))
    return np.moveaxis(r, list(range(k)), list(qs)).reshape(2 ** n, 2 ** n)


def _consts():
    import numpy as np
    return np


def gate_unitary(g):
    """(matrix, qubits) of a gate object by its class name and public attributes: the defining unitary"""
    import numpy as np, cmath, math
    pi = math.pi
    ex = lambda x: cmath.exp(1j * pi * float(x))
    zp = lambda x: np.diag([1, ex(x)]).astype(complex)
    H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
    xp = lambda x: H @ zp(x) @ H

    def u3(t, p, l):
        c, s = math.cos(pi * float(t) / 2), math.sin(pi * float(t) / 2)
        return np.array([[c, -ex(l) * s], [ex(p) * s, ex(p + l) * c]], dtype=complex)

    def ctrl(u):
        k = u.shape[0]
        r = np.eye(2 * k, dtype=complex)
        r[k:, k:] = u
        return r
    def par(p, n):
        return np.diag([ex(p) if bin(i).count('1') % 2 else 1 for i in range(2 ** n)]).astype(complex)
    SW = np.eye(4, dtype=complex)[[0, 2, 1, 3]]
    name = type(g).__name__
    q1 = lambda m: (m, [g.target])
    q2 = lambda m: (m, [g.control, g.target])
    q3 = lambda m: (m, [g.ctrl1, g.ctrl2, g.target])
    f = lambda x: float(x)
    if name in ('ZPhase', 'Z', 'S', 'T'):
        return q1(zp(g.phase))
    if name in ('XPhase', 'NOT', 'SX'):
        return q1(xp(g.phase))
    if name in ('YPhase', 'Y'):
        return q1(u3(g.phase, 0, 0))
    if name == 'HAD':
        return q1(H)
    if name == 'U2':
        return q1(u3(0.5, g.theta, g.phi))
    if name == 'U3':
        return q1(u3(g.theta, g.phi, g.rho))
    if name == 'CNOT':
        return q2(ctrl(xp(1)))
    if name == 'CZ':
        return q2(ctrl(zp(1)))
    if name == 'XCX':
        return q2(np.kron(H, H) @ ctrl(zp(1)) @ np.kron(H, H))
    if name == 'SWAP':
        return q2(SW)
    if name == 'CY':
        return q2(ctrl(np.array([[0, -1j], [1j, 0]])))
    if name == 'CHAD':
        return q2(ctrl(H))
    if name == 'CSX':
        return q2(ctrl(xp(-0.5 if getattr(g, 'adjoint', False) else 0.5)))
    if name == 'CPhase':
        return q2(ctrl(zp(g.phase)))
    if name == 'CRX':
        return q2(ctrl(ex(-f(g.phase) / 2) * xp(g.phase)))
    if name == 'CRZ':
        return q2(ctrl(ex(-f(g.phase) / 2) * zp(g.phase)))
    if name == 'CRY':
        return q2(ctrl(u3(g.phase, 0, 0)))
    if name == 'RXX':
        return q2(np.kron(H, H) @ par(g.phase, 2) @ np.kron(H, H))
    if name == 'RZZ':
        return par(g.phase, 2), list(g.targets)
    if name == 'ParityPhase':
        return par(g.phase, len(g.targets)), list(g.targets)
    if name == 'CU3':
        return q2(ctrl(u3(g.theta, g.phi, g.rho)))
    if name == 'CU':
        return q2(ctrl(ex(g.gamma) * u3(g.theta, g.phi, g.rho)))
    if name == 'FSim':
        s = 1 if float(g.theta) > 0 else -1
        m = np.zeros((4, 4), dtype=complex)
        m[0, 0] = 1
        m[1, 2] = m[2, 1] = -1j * s
        m[3, 3] = ex(-f(g.phi))
        return q2(m)
    if name == 'CCZ':
        return q3(ctrl(ctrl(zp(1))))
    if name == 'Tofolli':
        return q3(ctrl(ctrl(xp(1))))
    if name == 'CSWAP':
        return q3(ctrl(SW))
    raise KeyError(name)


def snapshot(g):
    """every observable attribute of a graph, for unchanged-operand checks"""
    ins, outs = tuple(g.inputs()), tuple(g.outputs())
    vs = sorted(g.vertices())
    es = sorted((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in g.edges())
    s = g.scalar
    return (ins, outs, [(v, int(g.type(v)), repr(g.phase(v)), g.qubit(v), g.row(v), bool(g.is_ground(v)), sorted((k, repr(g.vdata(v, k))) for k in g.vdata_keys(v))) for v in vs], es,
            (s.power2, repr(s.phase), sorted(map(repr, s.phasenodes)), complex(s.floatfactor), bool(s.is_zero)))


def gates_snapshot(c):
    return (c.qubits, c.bits, [(type(g).__name__, sorted((k, repr(v)) for k, v in g.__dict__.items())) for g in c.gates])


def describe(g):
    """compact replayable description of a diagram"""
    return dict(inputs=list(g.inputs()), outputs=list(g.outputs()),
                vertices={v: '%s %s' % (g.type(v).name if hasattr(g.type(v), 'name') else g.type(v), g.phase(v)) for v in g.vertices()},
                edges=['%s-%s %s' % (*g.edge_st(e), int(g.edge_type(e))) for e in g.edges()], scalar=repr(g.scalar.__dict__))
