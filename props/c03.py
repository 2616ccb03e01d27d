"""C03: gates agree with their defining unitary in every representation."""
import itertools
from fractions import Fraction
import numpy as np
from lib.harness import Suite, ContractViolation
from lib import refsem
from pyvc import exact as X
from pyvc import ghost as G
from pyvc.core import Unsupported

S = Suite('C03', 'proof',
          note='Contract on every gate class: to_graph, to_basic_gates and to_adjoint of the real class are executed on symbolic phase '
               'parameters (all branches on phases explored) and the resulting diagrams / gate lists are contracted exactly; each obligation is an '
               'identity of exponential polynomials valid for all real parameters, decided by normal form.',
          rule='bounded part: one gate with random numeric parameters (floats and fractions) and a random placement, evaluated by the reference semantics; '
               'non-trivial = distinct (gate, parameters, placement)',
          trusted=['CPython executing the real gate classes', 'pyvc.exact: symbolic phases, exact contraction, cyclotomic normal form', 'gate unitaries written in props/c03.py',
                   'contracts of the graph mutators used (add_vertex, add_edge, set_phase; obligations of C08) and of Scalar.add_power (C13)'],
          assumptions=['rows and qubit positions do not influence the diagram (layout)',
                       'phases are mathematical reals (units of pi); float phases are covered by the bounded part only'])

A = X.Amp.of
Z1, O1 = X.ZERO, X.ONE


def rz(p):  # diag(1, e^{i pi p})
    return X.zp(p)


def rot_y(p):
    return X.zp(Fraction(1, 2)).dot(X.xp(p)).dot(X.zp(Fraction(-1, 2)))


def u3(th, ph, la):
    # standard U(theta,phi,lambda) up to global phase, via its Z-Y-Z form: rz(phi) ry(theta) rz(lambda)
    return X.zp(ph).dot(rot_y(th)).dot(X.zp(la))


def sym_rot(p, base):
    """exp(-i pi p/2 sigma): phase-symmetric rotation, needed under a control"""
    f = X.e(X.mk(X.lf_scale(X.SymPhase.of(p), Fraction(-1, 2))))
    return np.vectorize(lambda a: a * f, otypes=[object])(base(p))


def neg(p):
    return -p


SW = X.arr([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])


def zz(p, n):
    m = X.eye(2 ** n)
    for i in range(2 ** n):
        if bin(i).count('1') % 2:
            m[i, i] = X.e(p)
    return m


def real_u3(th, ph, la):
    """U(theta,phi,lambda) = [[cos, -e^{i la} sin],[e^{i ph} sin, e^{i(ph+la)} cos]] (angles theta/2), exact phase"""
    h = th / 2
    cos = (X.e(h) + X.e(-h)) * Fraction(1, 2)
    sin = (X.e(h) - X.e(-h)) * Fraction(1, 2) * X.e(Fraction(-1, 2))
    return X.arr([[cos, -(X.e(la) * sin)], [X.e(ph) * sin, X.e(ph + la) * cos]])


def fsim(th, ph):
    """phase convention of the qsim fSim gate at theta = pi/2: |01> -> -i|10>, |11> -> e^{-i phi}|11>"""
    m = X.full((4, 4))
    m[0, 0] = O1
    m[1, 2] = m[2, 1] = X.e(Fraction(-1, 2))
    m[3, 3] = X.e(-ph)
    return m


# gate name -> (number of qubits, number of parameters, constructor(cls, qubits, params), unitary(params), exact?)
def q1(cls, q, p): return cls(q[0], *p)
def q2(cls, q, p): return cls(q[0], q[1], *p)
def q3(cls, q, p): return cls(q[0], q[1], q[2], *p)


SPEC = {
    'XPhase': (1, 1, q1, lambda p: X.xp(p)),
    'NOT': (1, 0, q1, lambda: X.X),
    'SX': (1, 0, q1, lambda: X.xp(Fraction(1, 2))),
    'SX*': (1, 0, lambda c, q, p: c(q[0], adjoint=True), lambda: X.xp(Fraction(-1, 2))),
    'YPhase': (1, 1, q1, lambda p: real_u3(p, 0, 0)),
    'Y': (1, 0, q1, lambda: X.arr([[0, X.e(Fraction(-1, 2))], [X.e(Fraction(1, 2)), 0]])),
    'ZPhase': (1, 1, q1, lambda p: X.zp(p)),
    'Z': (1, 0, q1, lambda: X.zp(1)),
    'S': (1, 0, q1, lambda: X.zp(Fraction(1, 2))),
    'S*': (1, 0, lambda c, q, p: c(q[0], adjoint=True), lambda: X.zp(Fraction(-1, 2))),
    'T': (1, 0, q1, lambda: X.zp(Fraction(1, 4))),
    'T*': (1, 0, lambda c, q, p: c(q[0], adjoint=True), lambda: X.zp(Fraction(-1, 4))),
    'HAD': (1, 0, q1, lambda: X.H),
    'U2': (1, 2, q1, lambda a, b: real_u3(Fraction(1, 2), a, b)),
    'U3': (1, 3, q1, lambda a, b, c: real_u3(a, b, c)),
    'CNOT': (2, 0, q2, lambda: X.ctrl(X.X)),
    'CZ': (2, 0, q2, lambda: X.ctrl(X.zp(1))),
    'XCX': (2, 0, q2, lambda: np.kron(X.H, X.H).dot(X.ctrl(X.zp(1))).dot(np.kron(X.H, X.H))),
    'SWAP': (2, 0, q2, lambda: SW),
    'CY': (2, 0, q2, lambda: X.ctrl(X.arr([[0, X.e(Fraction(-1, 2))], [X.e(Fraction(1, 2)), 0]]))),
    'CHAD': (2, 0, q2, lambda: X.ctrl(X.H)),
    'CSX': (2, 0, q2, lambda: X.ctrl(X.xp(Fraction(1, 2)))),
    'CPhase': (2, 1, q2, lambda p: X.ctrl(X.zp(p))),
    'CRX': (2, 1, q2, lambda p: X.ctrl(sym_rot(p, X.xp))),
    'CRY': (2, 1, q2, lambda p: X.ctrl(real_u3(p, 0, 0))),
    'CRZ': (2, 1, q2, lambda p: X.ctrl(sym_rot(p, X.zp))),
    'RXX': (2, 1, q2, lambda p: np.kron(X.H, X.H).dot(zz(p, 2)).dot(np.kron(X.H, X.H))),
    'RZZ': (2, 1, q2, lambda p: zz(p, 2)),
    'CU3': (2, 3, q2, lambda a, b, c: X.ctrl(real_u3(a, b, c))),
    'CU': (2, 4, q2, lambda a, b, c, d: X.ctrl(np.vectorize(lambda z: z * X.e(d), otypes=[object])(real_u3(a, b, c)))),
    'FSim': (2, 1, lambda c, q, p: c(q[0], q[1], Fraction(1, 2), *p), lambda p: fsim(Fraction(1, 2), p)),
    'CCZ': (3, 0, q3, lambda: X.ctrl(X.ctrl(X.zp(1)))),
    'TOF': (3, 0, q3, lambda: X.ctrl(X.ctrl(X.X))),
    'CSWAP': (3, 0, q3, lambda: X.ctrl(SW)),
    'ParityPhase': (3, 1, lambda c, q, p: c(p[0], *q), lambda p: zz(p, 3)),
    'ParityPhase2': (2, 1, lambda c, q, p: c(p[0], *q), lambda p: zz(p, 2)),
    'ParityPhase1': (1, 1, lambda c, q, p: c(p[0], *q), lambda p: zz(p, 1)),
}
# CX3 convention of standard CU3: control applies U3 without the global phase e^{i(phi+lambda)/2}; fixed by the obligation being exact
PARAM = ['alpha', 'beta', 'gamma', 'delta']


def cls_of(name):
    from pyzx.circuit.gates import gate_types
    n = name.rstrip('*')
    if n.startswith('ParityPhase'):
        n = 'ParityPhase'
    return gate_types[n]


def circ(gates, n):
    from pyzx.circuit import Circuit
    c = Circuit(n)
    for g in gates:
        c.add_gate(g)
    return c


def mat(c):
    return X.graph_amp_matrix(c.to_graph())


def numeric_replay(name, what, n, seedtxt):
    """search for concrete parameters and wires on which the real code breaks the contract"""
    import random
    n, k, ctor, spec = SPEC[name]
    for t in range(200):
        rng = random.Random('%s%d' % (seedtxt, t))
        ps = [Fraction(rng.randrange(-16, 17), rng.choice([1, 2, 3, 4, 8])) for _ in range(k)]
        place = rng.sample(range(4), n)
        bad = gate_contract(name, ps, place)
        if bad:
            return dict(what=bad, data=dict(gate=name, params=[str(p) for p in ps], placement=place))
    return False


def num(a):
    """numeric matrix from exact matrix without symbols"""
    return np.vectorize(lambda x: complex(A(x).value({})))(a)


def gate_contract(name, ps, place, adjoint_too=True):
    """the contract, evaluated on concrete parameters with the reference semantics; returns a description of the breach or None"""
    n, k, ctor, spec = SPEC[name]
    N = max(place) + 1
    try:
        g = ctor(cls_of(name), list(place), list(ps))
        U = num(X.on_qubits(spec(*[Fraction(p).limit_denominator(10 ** 12) for p in ps]), list(place), N))
        d = refsem.graph_matrix(circ([g], N).to_graph(zh=True))
        if not refsem.close_up_to_phase(d, U):
            return '%s%s on %s: its diagram is not its defining unitary' % (name, [str(p) for p in ps], list(place))
        b = refsem.graph_matrix(circ(g.to_basic_gates(), N).to_graph(zh=True))
        if not refsem.close_up_to_phase(b, U):
            return '%s%s on %s: its basic-gate expansion is not its defining unitary' % (name, [str(p) for p in ps], list(place))
        if not refsem.close(d, b):
            return '%s%s on %s: diagram and expansion differ by a phase' % (name, [str(p) for p in ps], list(place))
        a = refsem.graph_matrix(circ([g.to_adjoint()], N).to_graph(zh=True))
        if not refsem.close(a @ d, np.eye(2 ** N)) and not refsem.close_up_to_phase(a @ d, np.eye(2 ** N)):
            return '%s%s on %s: the adjoint gate is not the inverse' % (name, [str(p) for p in ps], list(place))
        if hasattr(g, 'split_phases'):
            sp = refsem.graph_matrix(circ(g.split_phases(), N).to_graph(zh=True))
            if not refsem.close(sp, d):
                return '%s%s on %s: split phases denote another map' % (name, [str(p) for p in ps], list(place))
        if not refsem.close(refsem.graph_matrix(circ([g], N).to_graph()), d):
            return '%s%s on %s: the circuit with this gate expanded differs from its diagram' % (name, [str(p) for p in ps], list(place))
        d2 = refsem.graph_matrix(circ([g], N).to_graph(zh=True))
        if not refsem.close(d, d2):
            return '%s: gate changed by using it' % name
    except Exception as ex:
        return '%s%s on %s: raises %s: %s' % (name, [str(p) for p in ps], list(place), type(ex).__name__, ex)
    return None


def wire(P_, gates, labs, extra):
    """runs the real to_graph of the gates on a ghost graph whose wires carry the labels; returns the exact matrix on labs+extra"""
    from pyzx.circuit.gates import TargetMapper
    from pyzx.utils import VertexType
    g = G.ghost_graph_class()()
    qm, cm = TargetMapper(), TargetMapper()
    ins, outs = [], []
    for i, l in enumerate(labs + extra):
        v = g.add_vertex(VertexType.BOUNDARY)
        ins.append(v)
        qm.set_prev_vertex(l, v)
        qm.set_next_row(l, 1 + i)
        qm.set_qubit(l, i)
    for h in gates:
        h.to_graph(g, qm, cm)
    if set(qm.labels()) != set(labs + extra):
        raise Unsupported('to_graph changed the set of wires')
    for l in labs + extra:
        o = g.add_vertex(VertexType.BOUNDARY)
        g.add_edge((qm.prev_vertex(l), o))
        outs.append(o)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    return X.graph_amp_matrix(g)


def once(P, name, what, results, rp):
    """one named obligation per gate and representation: holds iff it holds on every explored path"""
    bad = [r for r in results if not r[0]]
    P.record('%s: %s (%d path%s)' % (name, what, len(results), 's' * (len(results) != 1)), not bad if results else None, 'exact-ring',
             detail=bad[0][1] if bad else 'no path', replay=rp)


def prove_gate(P, name):
    X.install()
    n, k, ctor, spec = SPEC[name]
    cls = cls_of(name)
    P.under_contract(*['%s.%s' % (cls.__name__, m) for m in ('__init__', 'to_graph', 'to_basic_gates', 'to_adjoint')])
    P.under_contract('Gate.graph_add_node', 'TargetMapper')
    labs = [G.Lab('abc'[i]) for i in range(n)]
    extra = [G.Lab('other')]

    def fresh():
        ps = [X.phase_sym(PARAM[i]) for i in range(k)]
        return ps, ctor(cls, list(labs), ps)

    def unit(ps):
        return X.on_qubits(spec(*ps), list(range(n)), n + 1)

    def graph_ob(path):
        ps, g = fresh()
        return X.proportional(wire(P, [g], labs, extra), unit(ps))

    def basic_ob(path):
        ps, g = fresh()
        return X.equal(wire(P, [g], labs, extra), wire(P, g.to_basic_gates(), labs, extra))

    def adj_ob(path):
        ps, g = fresh()
        a = g.to_adjoint()
        return X.proportional(wire(P, [g, a], labs, extra), X.eye(2 ** (n + 1)))

    def frame_ob(path):
        ps, g = fresh()
        before = {x: (list(y) if isinstance(y, list) else y) for x, y in g.__dict__.items()}
        wire(P, [g], labs, extra)
        g.to_basic_gates()
        g.to_adjoint()
        same = all(g.__dict__[x] is y or (isinstance(y, list) and len(y) == len(g.__dict__[x]) and all(p is q for p, q in zip(y, g.__dict__[x]))) or
                   (not isinstance(y, X.SymPhase) and g.__dict__[x] == y) for x, y in before.items()) and set(before) == set(g.__dict__)
        return same, 'attributes of the gate changed'

    for what, ob in (('diagram = defining unitary up to global phase, other wires untouched', graph_ob),
                     ('expansion into basic gates = diagram, exactly', basic_ob),
                     ('adjoint after gate = identity up to global phase', adj_ob),
                     ('converting, expanding, inverting leave the gate object unchanged', frame_ob)):
        res = [r for _, r in P.explore(ob)]
        once(P, name, what, res, lambda what=what: numeric_replay(name, what, n, P.task))


for _n in SPEC:
    S.proof('gate ' + _n, limit=300)(lambda P, _n=_n: prove_gate(P, _n))


@S.proof('split_phases', functions=['ZPhase.split_phases', 'XPhase.split_phases'])
def _(P):
    X.install()
    for name in ('ZPhase', 'XPhase'):
        def run(path):
            p = X.phase_sym('alpha')
            g = cls_of(name)(0, p)
            sp = g.split_phases()
            tag = '%s.split_phases path%s' % (name, ''.join(str(t[0]) for t in path.trace))
            m = X.eye(2)
            for h in sp:
                m = mat(circ([h], 1)).dot(m)
            ok, why = X.equal(m, mat(circ([g], 1)))
            P.record(tag, ok, 'exact-ring', detail=why, replay=lambda: numeric_replay(name, None, 1, 'split'))
        P.explore(run)


@S.bounded('gate contract on concrete parameters', quick=900, thorough=20000, bound='random parameters, all placements on at most 4 wires, fractions and floats', split=8,
           functions=['all gate classes with float, integer and unreduced parameters'])
def _(c):
    rng = c.rng
    names = list(SPEC)
    name = names[c.i % len(names)]
    n, k, ctor, spec = SPEC[name]
    place = rng.sample(range(4), n)
    kind = rng.randrange(4)
    if kind == 0:
        ps = [Fraction(rng.randrange(-16, 17), rng.choice([1, 2, 4])) for _ in range(k)]
    elif kind == 1:
        ps = [Fraction(rng.randrange(-50, 51), rng.randrange(1, 40)) for _ in range(k)]
    elif kind == 2:
        ps = [rng.randrange(-3, 5) for _ in range(k)]
    else:
        ps = [Fraction(rng.choice([0, 1, 2, 3, -1, Fraction(1, 2), Fraction(3, 2), Fraction(-1, 2), Fraction(1, 4), Fraction(7, 4)])) for _ in range(k)]
    c.note(gate=name, params=[str(p) for p in ps], placement=place)
    c.sig((name, tuple(map(str, ps)), tuple(place)))
    bad = gate_contract(name, ps, place)
    c.check(bad is None, bad, key=name)
