"""C06: circuit optimisers preserve the unitary up to global phase and never add T gates."""
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C06', 'proof',
          note='bounded part: random circuits through every optimiser and option, the unitary of the result compared with the reference unitary of the input up to global phase, T-counts compared',
          rule='bounded part: a random circuit with at least one gate; non-trivial = distinct (circuit, options)')

G1 = [('HAD', 1), ('ZPhase', 1), ('CNOT', 2), ('CZ', 2), ('NOT', 1), ('S', 1), ('T', 1), ('S*', 1), ('T*', 1), ('Z', 1)]
SETS = [gens.GATES_T, gens.GATES_CLIFF, G1, [('HAD', 1), ('T', 1), ('CNOT', 2)], [('HAD', 1), ('S', 1), ('CZ', 2), ('NOT', 1)], [('CNOT', 2), ('HAD', 1)], [('CNOT', 2), ('CZ', 2), ('S', 1), ('NOT', 1)],
        [('HAD', 1), ('HAD', 1), ('S', 1), ('CNOT', 2), ('CZ', 2), ('T', 1)]]


def circ(c, kind, n=(1, 4), depth=(1, 40)):
    rng = c.rng
    gates = rng.choice(SETS)
    if kind == 'all':
        gates = rng.choice([gates, gens.GATES_ALL, gens.GATES_BASIC])
    if kind in ('T', 'mix') and rng.random() < 0.15:
        a = gens.toffoli_circuit(rng, k=(1, 6))
        c.note(circuit=repr(a.gates))
        return a
    a = gens.rand_circuit(rng, n=n, depth=rng.choice([depth, (1, 12)]), gates=gates, phases=rng.choice(['mix', 'T', 'clifford']) if kind != 'T' else 'T')
    c.note(circuit=repr(a.gates))
    return a


def same(a, b):
    return refsem.close_up_to_phase(a, b)


def tc(a):
    """number of gates of the gate list whose phase is not Clifford, independent of Circuit.tcount"""
    return sum(1 for g in a.to_basic_gates().gates if hasattr(g, 'phase') and (2 * g.phase) % 1 != 0)


def judge(c, a, r, s, what):
    c.check(gens.gates_snapshot(a) == s, what + ' changed its argument')
    c.check(r.qubits == a.qubits, what + ': number of qubits')
    c.check(same(gens.circuit_matrix(a), gens.circuit_matrix(r)), what + ': unitary up to global phase', result=repr(r.gates))
    c.check(tc(r) <= tc(a), what + ': T-count grew', result=repr(r.gates))
    c.check(r.tcount() <= a.tcount(), what + ': T-count grew', result=repr(r.gates))


@S.bounded('basic_optimization', 1500, 20000, bound='circuits of at most 4 qubits and 40 basic gates', functions=['basic_optimization', 'Optimizer.parse_circuit', 'Optimizer.parse_forward', 'Optimizer.parse_gate', 'Optimizer.add_cz', 'Optimizer.add_cnot', 'Optimizer.topological_sort_gates'])
def basic(c):
    rng = c.rng
    from pyzx.optimize import basic_optimization
    a = circ(c, 'mix')
    a = a.to_basic_gates() if rng.random() < 0.2 else a
    s = gens.gates_snapshot(a)
    sw = rng.random() < 0.7
    c.note(do_swaps=sw)
    c.sig((s, sw))
    r = basic_optimization(a, do_swaps=sw, quiet=rng.random() < 0.8)
    judge(c, a, r, s, 'basic_optimization')
    if not sw:
        edges = {frozenset((g.control, g.target)) for g in a.gates if type(g).__name__ in ('CNOT', 'CZ')}
        c.check(all(frozenset((g.control, g.target)) in edges for g in r.gates if type(g).__name__ in ('CNOT', 'CZ')), 'without swaps two-qubit gates stay on connected qubits')


@S.bounded('structured', 4000, 40000, bound='circuits of 2 or 3 qubits and at most 14 gates over small gate sets', functions=['Optimizer.add_cz', 'Optimizer.add_cnot', 'Optimizer.topological_sort_gates'])
def structured(c):
    """short circuits on few qubits, so that gates meet their partners"""
    rng = c.rng
    from pyzx.optimize import basic_optimization
    a = gens.rand_circuit(rng, n=(2, 3), depth=(4, 14), gates=rng.choice(SETS))
    s = gens.gates_snapshot(a)
    c.note(circuit=repr(a.gates))
    c.sig(s)
    judge(c, a, basic_optimization(a, do_swaps=rng.random() < 0.8), s, 'basic_optimization')


@S.bounded('one pass', 12000, 100000, bound='one pass over at most 16 gates on 2 to 4 qubits', functions=['Optimizer.parse_forward', 'Optimizer.parse_gate', 'Optimizer.add_cz', 'Optimizer.add_cnot', 'Optimizer.topological_sort_gates'])
def one_pass(c):
    """a single forward pass, also with the rule that turns CZ into CNOT gates from the start"""
    rng = c.rng
    from pyzx.optimize import Optimizer
    from pyzx.circuit import Circuit
    n = rng.choice([2, 2, 3, 3, 4])
    gates = rng.choice([[('CNOT', 2), ('CZ', 2), ('ZPhase', 1)], [('CNOT', 2), ('CZ', 2), ('ZPhase', 1), ('HAD', 1)], [('CNOT', 2), ('CZ', 2), ('CNOT', 2), ('S', 1), ('CNOT', 2)], SETS[2], SETS[7]])
    a = gens.rand_circuit(rng, n=(n, n), depth=(3, 16), gates=gates)
    s = gens.gates_snapshot(a)
    o = Optimizer(a)
    o.minimize_czs, o.do_swaps = rng.random() < 0.7, rng.random() < 0.6
    c.note(circuit=repr(a.gates), minimize_czs=o.minimize_czs, do_swaps=o.do_swaps)
    c.sig((s, o.minimize_czs, o.do_swaps))
    r, corr = o.parse_forward()
    t = Circuit(n)
    t.gates = list(r.gates) + list(corr)
    judge(c, a, t, s, 'one pass of the optimiser')


@S.bounded('separate_correction', 400, 5000, bound='circuits of at most 4 qubits and 40 gates', functions=['Optimizer.parse_circuit'])
def separate(c):
    rng = c.rng
    from pyzx.optimize import Optimizer
    from pyzx.circuit import Circuit
    a = circ(c, 'mix')
    s = gens.gates_snapshot(a)
    c.sig(s)
    r, corr = Optimizer(a.copy()).parse_circuit(separate_correction=True, max_iterations=rng.choice([1000, 1, 2]), do_swaps=rng.random() < 0.8)
    c.check(all(type(g).__name__ in ('NOT', 'SWAP') for g in corr), 'corrections are NOT and SWAP gates')
    t = r.copy()
    for g in corr:
        t.add_gate(g)
    judge(c, a, t, s, 'parse_circuit with corrections')


@S.bounded('phase_block_optimize', 300, 4000, bound='Clifford+T circuits of at most 4 qubits and 40 gates', functions=['phase_block_optimize', 'greedy_consume_gates', 'todd_simp'], limit=60)
def phase_block(c):
    rng = c.rng
    from pyzx.optimize import phase_block_optimize
    a = circ(c, 'T')
    pre = rng.random() < 0.6
    if not pre or rng.random() < 0.3:
        a = a.to_basic_gates()
        if any(type(g).__name__ == 'NOT' for g in a.gates):
            pre = True
    s = gens.gates_snapshot(a)
    c.note(pre_optimize=pre)
    c.sig((s, pre))
    r = phase_block_optimize(a, pre_optimize=pre, quiet=rng.random() < 0.8)
    judge(c, a, r, s, 'phase_block_optimize')


@S.bounded('full_optimize', 250, 3000, bound='Clifford+T circuits of at most 4 qubits and 40 gates, with Toffoli-like gates', functions=['full_optimize'], limit=60)
def full(c):
    rng = c.rng
    from pyzx.optimize import full_optimize
    if rng.random() < 0.3:
        a = gens.rand_circuit(rng, n=(3, 4), depth=(1, 8), gates=gens.GATES_T + [('TOF', 3), ('CCZ', 3), ('SWAP', 2), ('CHAD', 2), ('CY', 2), ('CSWAP', 3)])
        c.note(circuit=repr(a.gates))
    else:
        a = circ(c, 'T')
    s = gens.gates_snapshot(a)
    c.sig(s)
    judge(c, a, full_optimize(a, quiet=rng.random() < 0.8), s, 'full_optimize')


@S.bounded('angles', 150, 2000, bound='circuits with finer angles than pi/4', functions=['phase_block_optimize', 'full_optimize'], limit=60)
def angles(c):
    """methods restricted to Clifford+T either refuse other angles or get them right"""
    rng = c.rng
    from pyzx.optimize import phase_block_optimize, full_optimize
    a = circ(c, 'mix', depth=(1, 20))
    s = gens.gates_snapshot(a)
    f = rng.choice([phase_block_optimize, full_optimize])
    c.note(f=f.__name__)
    c.sig((s, f.__name__))
    try:
        r = f(a)
    except TypeError:
        c.check(any((4 * g.phase) % 1 != 0 for g in a.gates if hasattr(g, 'phase')), 'refuses only angles it cannot handle')
        return
    judge(c, a, r, s, f.__name__)


@S.bounded('zx_pipeline', 250, 3000, bound='circuits of at most 4 qubits and 30 gates', limit=60, functions=['simplify.teleport_reduce', 'Circuit.from_graph', 'extract_circuit', 'full_reduce'])
def pipeline(c):
    """the optimisers advertised for circuits: phase teleportation and full reduction with extraction"""
    rng = c.rng
    from pyzx import simplify, extract
    from pyzx.circuit import Circuit
    from pyzx.optimize import basic_optimization
    a = gens.toffoli_circuit(rng, k=(1, 6)) if rng.random() < 0.3 else gens.rand_circuit(rng, n=(1, 4), depth=(1, 30), gates=rng.choice([gens.GATES_T, G1]))
    s = gens.gates_snapshot(a)
    c.note(circuit=repr(a.gates))
    c.sig(s)
    g = a.to_graph()
    if rng.random() < 0.5:
        h = simplify.teleport_reduce(g)
        r = Circuit.from_graph(h)
    else:
        simplify.full_reduce(g)
        r = extract.extract_circuit(g)
    judge(c, a, r, s, 'reduction of a circuit')
    judge(c, a, basic_optimization(r.to_basic_gates()), s, 'reduction of a circuit followed by basic optimisation')


@S.bounded('teleport', 1200, 20000, bound='circuits of at most 3 qubits and 40 gates', functions=['simplify.teleport_reduce', 'Simplifier.fuse_phases'])
def teleport(c):
    """many fusions of non-Clifford phases with signs"""
    rng = c.rng
    from pyzx import simplify
    sets = [[('NOT', 1), ('T', 1), ('T', 1), ('ZPhase', 1), ('T*', 1), ('S', 1)], gens.GATES_T, [('NOT', 1), ('T', 1), ('T*', 1), ('CNOT', 2)], [('NOT', 1), ('T', 1), ('T*', 1), ('CNOT', 2), ('HAD', 1)]]
    a = gens.toffoli_circuit(rng, k=(3, 8)) if rng.random() < 0.3 else gens.rand_circuit(rng, n=(1, 3), depth=(8, 40), gates=rng.choice(sets))
    s = gens.gates_snapshot(a)
    c.note(circuit=repr(a.gates))
    c.sig(s)
    from pyzx.circuit import Circuit
    judge(c, a, Circuit.from_graph(simplify.teleport_reduce(a.to_graph())), s, 'phase teleportation')


from props import c06p  # noqa: E402
c06p.register(S)
