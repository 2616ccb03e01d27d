"""C16: phase-polynomial synthesis realises the given phase polynomial."""
import contextlib
import io
import random
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import gens, refsem

S = Suite('C16', 'proof',
          note='Contract of synthesis: the circuit returned maps |x> to e^{i pi f(x)} |A x> with the same f (up to a constant) and the same A as the circuit or polynomial given.',
          rule='bounded part: f compared on all 2^n inputs, A exactly; non-trivial = distinct inputs with at least one phase')


def semantics(gates, n):
    """(phase on every basis state, output parity matrix) of CNOT + CZ + diagonal phase gates, computed by simulation"""
    N = 1 << n
    bits = [np.array([(x >> q) & 1 for x in range(N)]) for q in range(n)]
    ph = [Fraction(0)] * N
    for g in gates:
        if g.name == 'CNOT':
            bits[g.target] = bits[g.target] ^ bits[g.control]
        elif g.name == 'SWAP':
            bits[g.target], bits[g.control] = bits[g.control], bits[g.target]
        elif g.name == 'CZ':
            b = bits[g.target] & bits[g.control]
            ph = [p + int(x) for p, x in zip(ph, b)]
        elif g.name == 'ParityPhase':
            b = np.zeros(N, int)
            for t in g.targets:
                b = b ^ bits[t]
            ph = [p + g.phase * int(x) for p, x in zip(ph, b)]
        elif hasattr(g, 'phase') and g.name in ('ZPhase', 'S', 'T', 'Z', 'Rz', 'RZ'):
            ph = [p + g.phase * int(x) for p, x in zip(ph, bits[g.target])]
        else:
            raise Skip()
    A = np.array([[bits[q][1 << j] for j in range(n)] for q in range(n)])
    return [(p - ph[0]) % 2 for p in ph], A


def same(c, got, want, what):
    c.check((got[1] == want[1]).all(), '%s has other output parities' % what, key=what + ' output parities')
    c.check(got[0] == want[0], '%s has another phase polynomial' % what, key=what + ' phases')


def cnot_phase_circuit(rng, n, kind='t', cz=True, size=None):
    from pyzx.circuit import Circuit
    from pyzx.circuit.gates import CNOT, CZ, ZPhase, S, T, Z
    c = Circuit(n)
    for _ in range(size if size is not None else rng.randint(1, 18)):
        r = rng.random()
        if r < 0.5 and n > 1:
            a, b = rng.sample(range(n), 2)
            c.add_gate(CZ(a, b) if cz and rng.random() < 0.25 else CNOT(a, b))
        else:
            q = rng.randrange(n)
            if kind == 't':
                g = rng.choice([T(q), T(q, adjoint=True), S(q), S(q, adjoint=True), Z(q), ZPhase(q, Fraction(rng.randrange(8), 4)), ZPhase(q, Fraction(-1, 4))])
            else:
                g = rng.choice([T(q), S(q, adjoint=True), Z(q), ZPhase(q, gens.phase(rng, 'mix'))])
            c.add_gate(g)
    return c


def describe(gates):
    return [str(g) for g in gates]


def eval_poly(p, n):
    """value in multiples of pi/4 of a parity polynomial on all inputs"""
    out = []
    for x in range(1 << n):
        out.append(sum(v * (sum((x >> i) & 1 for i in t) % 2) for t, v in p.terms.items()) % 8)
    return out


@S.bounded('todd_simp', quick=700, thorough=10000, split=3, bound='CNOT, CZ and T circuits of up to 5 qubits and 18 gates', functions=['todd_simp', 'todd_iter', 'do_todd_single', 'find_todd_match', 'xi', 'MultiLinearPoly', 'phase_gates_to_poly', 'parity_network'])
def _(c):
    from pyzx.todd import todd_simp
    n = c.rng.randint(1, 5)
    circ = cnot_phase_circuit(c.rng, n, size=c.rng.choice([None, None, 30]))
    random.seed(c.rng.randrange(2**31))
    gates = list(circ.gates)
    c.note(qubits=n, gates=describe(gates))
    want = semantics(gates, n)
    with contextlib.redirect_stdout(io.StringIO()):
        new, perm = todd_simp(gates, n)
    c.note(result=describe(new), permutation=perm)
    c.check(sorted(perm) == sorted(perm.values()) == list(range(n)), 'not a permutation', key='todd_simp permutation')
    got = semantics(new, n)
    got = (got[0], got[1][[perm[i] for i in range(n)]])
    same(c, got, want, 'todd_simp')
    if any(want[0]):
        c.sig((n, tuple(describe(gates))))


@S.bounded('todd matrices', quick=400, thorough=6000, split=2, bound='parity matrices of up to 6 rows and 12 columns', functions=['todd_iter', 'remove_trivial_cols', 'MultiLinearPoly', 'par_matrix_to_gates'])
def _(c):
    """the columns before and after differ by a Clifford phase polynomial, and the correction is that polynomial"""
    from pyzx.todd import todd_iter, MultiLinearPoly, par_matrix_to_gates
    from pyzx.linalg import Mat2
    rng = c.rng
    n, k = rng.randint(1, 6), rng.randint(1, 12)
    m = [[rng.randrange(2) for _ in range(k)] for _ in range(n)]
    random.seed(rng.randrange(2**31))
    c.note(matrix=m)
    M = Mat2([list(r) for r in m])
    m2 = todd_iter(M)
    c.check(M.data == m, 'todd_iter changed its argument', key='todd_iter argument')
    r = m2.data
    c.note(result=r)
    c.check(m2.cols() <= k, 'todd_iter made the matrix larger', key='todd_iter larger')
    p = MultiLinearPoly()
    p.add_par_matrix(Mat2(m), False)
    p.add_par_matrix(m2, True)
    corr = p.to_clifford()
    a = semantics(par_matrix_to_gates(Mat2(m)), n)
    b = semantics(list(par_matrix_to_gates(m2) if m2.cols() else []) + corr, n)
    same(c, b, a, 'todd_iter with its Clifford correction')
    c.check(all(g.name in ('CZ', 'S', 'Z', 'ZPhase') and (g.name == 'CZ' or g.phase % Fraction(1, 2) == 0) for g in corr), 'correction is not Clifford', key='correction not Clifford')
    c.sig(tuple(map(tuple, m)))


@S.bounded('phase polynomials', quick=500, thorough=6000, split=1, bound='CNOT, CZ and phase circuits of up to 5 qubits', functions=['phase_gates_to_poly', 'ParityPolynomial', 'ParityPolynomial.to_par_matrix'])
def _(c):
    from pyzx.todd import phase_gates_to_poly
    rng = c.rng
    n = rng.randint(1, 5)
    circ = cnot_phase_circuit(rng, n)
    c.note(gates=describe(circ.gates))
    want = semantics(circ.gates, n)
    p, out = phase_gates_to_poly(list(circ.gates), n)
    ev = eval_poly(p, n)
    c.check([Fraction(v, 4) % 2 for v in ev] == want[0], 'another phase polynomial', key='phase_gates_to_poly phases')
    c.check(([[int(j in o.par) for j in range(n)] for o in out] == want[1]).all() if n else True, 'other output parities', key='phase_gates_to_poly parities')
    m = p.to_par_matrix()
    cols = [[r[j] for r in m.data] for j in range(m.cols())]
    ev2 = [sum(sum(a * ((x >> i) & 1) for i, a in enumerate(col)) % 2 for col in cols) % 8 for x in range(1 << n)]
    c.check(ev2 == ev, 'parity matrix is not the polynomial', key='to_par_matrix')
    circ2 = cnot_phase_circuit(rng, n)
    p2, _ = phase_gates_to_poly(list(circ2.gates), n)
    s = p + p2
    c.check(eval_poly(s, n) == [(a + b) % 8 for a, b in zip(ev, eval_poly(p2, n))], 'sum of polynomials', key='ParityPolynomial sum')
    c.check(eval_poly(p, n) == ev, 'adding changed an argument', key='ParityPolynomial aliasing')
    c.sig(tuple(describe(circ.gates)))


@S.bounded('parity_network', quick=800, thorough=12000, split=2, bound='up to 6 qubits and 14 parities', functions=['parity_network'])
def _(c):
    from pyzx.parity_network import parity_network
    rng = c.rng
    n = rng.randint(1, 6)
    ps = [[rng.randrange(2) for _ in range(n)] for _ in range(rng.randint(0, 14))]
    ps = [p for p in ps if any(p)]
    if rng.random() < 0.5:
        ps = [list(x) for x in {tuple(p) for p in ps}]
    c.note(qubits=n, parities=ps)
    gates = parity_network(n, [list(p) for p in ps])
    m = np.eye(n, dtype=int)
    seen = {tuple(r) for r in m}
    for g in gates:
        c.check(g.name == 'CNOT', 'gate %s' % g, key='parity_network gate')
        m[g.target] ^= m[g.control]
        seen.add(tuple(m[g.target]))
    missing = [p for p in ps if tuple(p) not in seen]
    c.check(not missing, 'parities %s never occur' % missing[:2], key='parity missing')
    c.sig((n, tuple(map(tuple, ps))))


def route(c, n_max, arch=True):
    """one routing problem: circuit, architecture, options"""
    from props import c15
    rng = c.rng
    a = c15.arch(rng, rng.randint(1, n_max))
    n = a.n_qubits
    circ = cnot_phase_circuit(rng, n, 'any', cz=False, size=rng.randint(0, 20))
    c.note(architecture=c15.describe(a), gates=describe(circ.gates))
    np.random.seed(rng.randrange(2**31))
    random.seed(rng.randrange(2**31))
    return a, n, circ


@S.bounded('route_phase_poly', quick=500, thorough=8000, split=4, bound='up to 6 qubits, 20 gates, random connected architectures, every method and heuristic', functions=['route_phase_poly', 'PhasePoly', 'PhasePoly.fromCircuit', 'Ariannes_synth', 'rec_gray_synth', 'gray_synth', 'matroid_synth'])
def _(c):
    from pyzx.routing.phase_poly import route_phase_poly, RoutingMethod, RootHeuristic, SplitHeuristic, PhasePoly
    from pyzx.routing.cnot_mapper import ElimMode
    from props import c15
    rng = c.rng
    a, n, circ = route(c, 6)
    want = semantics(circ.gates, n)
    method = rng.choice(list(RoutingMethod))
    mode = rng.choice([ElimMode.STEINER_MODE, ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE])
    kw = dict(root_heuristic=rng.choice(list(RootHeuristic)), split_heuristic=rng.choice(list(SplitHeuristic)))
    if method == RoutingMethod.MEIJER:
        for o in ('zeroes_rec', 'neighbour_path', 'tie_break'):
            if rng.random() < 0.3:
                kw[o] = True
    c.note(method=str(method), mode=str(mode), options={k: str(v) for k, v in kw.items()})
    if method == RoutingMethod.MATROID and n > 5:
        raise Skip()
    arg = PhasePoly.fromCircuit(circ) if rng.random() < 0.4 else circ
    before = describe(circ.gates)
    with contextlib.redirect_stdout(io.StringIO()):
        if method == RoutingMethod.GRAY and rng.random() < 0.3:
            c.note(method='gray_synth')
            new = PhasePoly.fromCircuit(circ).gray_synth(mode, a)[0]
        else:
            new = route_phase_poly(arg, a, method, mode, **kw)
    c.note(result=describe(new.gates))
    c.check(describe(circ.gates) == before, 'routing changed the circuit given', key='routing changes its argument')
    same(c, semantics(new.gates, n), want, 'routing (%s)' % method)
    if mode == ElimMode.STEINER_MODE:
        ok = c15.adjacent(a)
        bad = [g for g in new.gates if g.name == 'CNOT' and frozenset((g.control, g.target)) not in ok]
        c.check(not bad, 'CNOT between qubits that are not adjacent: %s' % bad[:2], key='routing (%s) ignores the architecture' % method)
    if any(want[0]):
        c.sig((str(c15.describe(a)), tuple(before), str(method)))


@S.bounded('todd_on_graph', quick=160, thorough=2500, split=3, bound='reduced diagrams of circuits of up to 4 qubits', functions=['todd_on_graph'])
def _(c):
    import pyzx as zx
    from pyzx.todd import todd_on_graph
    rng = c.rng
    random.seed(rng.randrange(2**31))
    q = rng.randint(2, 4)
    g = zx.generate.CNOT_HAD_PHASE_circuit(q, rng.randint(10, 45), p_t=0.5).to_graph()
    zx.full_reduce(g)
    c.note(graph=gens.describe(g))
    m = refsem.graph_matrix(g)
    before = gens.snapshot(g)
    with contextlib.redirect_stdout(io.StringIO()) as o:
        todd_on_graph(g)
    c.check(refsem.close_up_to_scalar(m, refsem.graph_matrix(g)), 'todd_on_graph changes the linear map', key='todd_on_graph')
    if 'No phase gadgets' not in o.getvalue():
        c.sig(before)


from props import c16p  # noqa: E402
c16p.register(S)
