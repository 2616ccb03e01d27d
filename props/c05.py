"""C05: circuit extraction returns a circuit for the same linear map, and succeeds after flow-preserving simplification."""
import itertools
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C05', 'proof',
          note='bounded part: random circuits simplified by random flow-preserving strategies and extracted with random options, the result compared with the reference semantics of the diagram; extraction helpers compared with independent linear algebra',
          rule='bounded part: a circuit with at least one gate, simplified and extracted; non-trivial = distinct (diagram, options)')

PHASES = ['mix', 'clifford', 'T', 'T']
SIMPS = ['interior_clifford_simp', 'clifford_simp', 'full_reduce', 'full_reduce', 'teleport_reduce', 'spider_simp', 'flow_2Q_simp', 'id_simp', 'phase_free_simp', 'pivot_simp', 'lcomp_simp']


def umat(a):
    return gens.circuit_matrix(a)


def swap_matrix(n, perm):
    """basis permutation sending wire i to wire perm[i]"""
    m = np.zeros((2 ** n, 2 ** n))
    for bits in itertools.product((0, 1), repeat=n):
        out = [0] * n
        for i, b in enumerate(bits):
            out[perm[i]] = b
        m[int(''.join(map(str, out)), 2), int(''.join(map(str, bits)), 2)] = 1
    return m


def matches(circ, m, up_to_perm):
    u = umat(circ)
    if u.shape != m.shape:
        return False
    if refsem.close_up_to_scalar(u, m):
        return True
    if not up_to_perm:
        return False
    n = circ.qubits
    return any(refsem.close_up_to_scalar(u @ swap_matrix(n, p), m) for p in itertools.permutations(range(n)))


def diagram(c, n=(1, 4), depth=(0, 25), gates=None, simps=None, backend=None):
    rng = c.rng
    from pyzx import simplify
    gates = gates or rng.choice([gens.GATES_T, gens.GATES_CLIFF, gens.GATES_BASIC])
    if rng.random() < 0.15:
        a = gens.toffoli_circuit(rng, k=(1, 4))
    else:
        a = gens.rand_circuit(rng, n=n, depth=depth, gates=gates, phases=rng.choice(PHASES))
    g = a.to_graph(backend=backend or rng.choice(['simple', 'simple', 'multigraph']))
    if hasattr(g, 'set_auto_simplify'):
        g.set_auto_simplify(True)
    names = []
    for _ in range(rng.choice([1, 1, 2])):
        s = rng.choice(simps or SIMPS)
        names.append(s)
        if s in ('lcomp_simp', 'pivot_simp', 'phase_free_simp', 'flow_2Q_simp'):
            if s == 'phase_free_simp':
                s = 'interior_clifford_simp'
            simplify.to_gh(g)
            simplify.spider_simp(g, quiet=True)
            simplify.to_graph_like(g) if s == 'flow_2Q_simp' else None
            if s == 'flow_2Q_simp':
                simplify.to_graph_like(g)
                if hasattr(simplify, 'flow_2Q_simp'):
                    simplify.flow_2Q_simp(g)
                continue
        if s == 'teleport_reduce':
            g = simplify.teleport_reduce(g)
        else:
            f = getattr(simplify, s)
            try:
                f(g, quiet=True)
            except TypeError:
                f(g)
    c.note(circuit=repr(a.gates), simplifications=names, diagram=gens.describe(g))
    return a, g, names


@S.bounded('extract_circuit', 500, 8000, bound='random circuits of at most 4 qubits and 25 gates, one or two simplifications, all option settings', limit=60,
           functions=['extract_circuit', 'clean_frontier', 'neighbors_of_frontier', 'remove_gadget', 'apply_cnots', 'graph_to_swaps'])
def extract(c):
    rng = c.rng
    from pyzx.extract import extract_circuit
    from pyzx import simplify
    a, g, names = diagram(c)
    if rng.random() < 0.3:
        simplify.full_reduce(g)
    simplify.to_graph_like(g)
    m = refsem.graph_matrix(g)
    ua = umat(a)
    c.check(refsem.close_up_to_scalar(m, ua), 'precondition: the simplified diagram denotes the circuit')
    kw = dict(optimize_czs=rng.random() < 0.5, optimize_cnots=rng.randrange(4), up_to_perm=rng.random() < 0.3, quiet=rng.random() < 0.8)
    c.note(options=kw)
    c.sig((gens.snapshot(g), kw))
    r = extract_circuit(g, **kw)
    c.check(r.qubits == a.qubits, 'number of qubits')
    c.check(matches(r, ua, kw['up_to_perm']), 'the extracted circuit denotes the diagram', result=repr(r.gates))


@S.bounded('extract_reduced', 400, 6000, bound='random circuits of at most 5 qubits and 60 gates, fully reduced', limit=60, functions=['extract_circuit', 'remove_gadget'])
def reduced(c):
    rng = c.rng
    from pyzx.extract import extract_circuit
    from pyzx import simplify
    a = gens.rand_circuit(rng, n=(2, 5), depth=(5, 60), gates=rng.choice([gens.GATES_T, gens.GATES_T, gens.GATES_CLIFF]))
    g = a.to_graph()
    simplify.full_reduce(g)
    if rng.random() < 0.5:
        g.normalize()
    ua = umat(a)
    kw = dict(optimize_czs=rng.random() < 0.7, optimize_cnots=rng.randrange(4), up_to_perm=rng.random() < 0.3)
    c.note(circuit=repr(a.gates), diagram=gens.describe(g), options=kw)
    c.sig((gens.snapshot(g), kw))
    r = extract_circuit(g.copy() if rng.random() < 0.5 else g, **kw)
    c.check(r.qubits == a.qubits and matches(r, ua, kw['up_to_perm']), 'the extracted circuit denotes the diagram', result=repr(r.gates))


def cz_circuit(rng, n):
    """circuits rich in CZ gates whose partners overlap"""
    from pyzx.circuit import Circuit
    a = Circuit(n)
    for _ in range(rng.randint(1, 3)):
        p = rng.choice([0.5, 0.8, 1.0])
        hub = rng.sample(range(n), 2)
        for i in range(n):
            for j in range(i + 1, n):
                if rng.random() < (p if rng.random() < 0.7 or i in hub or j in hub else 0.2):
                    a.add_gate('CZ', i, j)
        for q in range(n):
            if rng.random() < 0.4:
                a.add_gate(rng.choice(['HAD', 'S', 'T', 'NOT']), q)
    return a


@S.bounded('wide', 300, 3500, bound='circuits of 5 to 7 qubits with many overlapping CZ gates', limit=60, functions=['extract_circuit', 'clean_frontier', 'max_overlap', 'apply_cnots'])
def wide(c):
    rng = c.rng
    from pyzx.extract import extract_circuit
    from pyzx import simplify
    a = cz_circuit(rng, rng.randint(5, 7))
    g = a.to_graph()
    rng.choice([simplify.full_reduce, simplify.clifford_simp, simplify.interior_clifford_simp])(g)
    simplify.to_graph_like(g)
    kw = dict(optimize_czs=rng.random() < 0.8, optimize_cnots=rng.randrange(4))
    c.note(circuit=repr(a.gates), diagram=gens.describe(g), options=kw)
    c.sig((gens.snapshot(g), kw))
    r = extract_circuit(g, **kw)
    c.check(r.qubits == a.qubits and refsem.close_up_to_scalar(umat(r), umat(a)), 'the extracted circuit denotes the diagram', result=repr(r.gates))


@S.bounded('frontier', 250, 5000, bound='frontiers of at most 8 spiders', functions=['clean_frontier', 'max_overlap'])
def frontier(c):
    """the gates emitted for a frontier are its Hadamards, phases and CZs, and these leave the diagram"""
    rng = c.rng
    from pyzx import extract as ex
    from pyzx.circuit import Circuit
    from pyzx.graph import Graph
    n = rng.randint(1, 8)
    g = Graph(backend=rng.choice(['simple', 'multigraph']))
    vs = [g.add_vertex(1, k, 1, gens.phase(rng, 'mix') if rng.random() < 0.4 else 0) for k in range(n)]
    order = rng.sample(range(n), n)
    outs = {k: g.add_vertex(0, k, 2) for k in order}
    outs = [outs[k] for k in range(n)]
    g.set_outputs(tuple(outs))
    far = [g.add_vertex(1, k, 0, gens.phase(rng, 'mix')) for k in range(2)]
    had = [rng.random() < 0.3 for _ in range(n)]
    for k in range(n):
        g.add_edge((vs[k], outs[k]), 2 if had[k] else 1)
        for f in far:
            if rng.random() < 0.4:
                g.add_edge((vs[k], f), 2)
    p = rng.choice([0.3, 0.6, 0.9])
    cz = {(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < p}
    for i, j in cz:
        g.add_edge((vs[i], vs[j]), 2)
    phases = [g.phase(v) for v in vs]
    far_edges = sorted(tuple(sorted(g.edge_st(e))) for e in g.edges() if set(g.edge_st(e)) & set(far))
    opt = rng.random() < 0.8
    c.note(diagram=gens.describe(g), optimize_czs=opt)
    c.sig((gens.snapshot(g), opt))
    circ = Circuit(n)
    fr = rng.sample(vs, n)
    ex.clean_frontier(g, circ, fr, {v: k for k, v in enumerate(vs)}, opt)
    c.check(sorted(fr) == sorted(vs), 'the frontier stays')
    # emitted last to first: all Hadamards and phases of a wire precede its CZs in the list
    per = {k: [] for k in range(n)}
    seen2 = False
    rest = []
    for x in circ.gates:
        t = type(x).__name__
        if t in ('CZ', 'CNOT'):
            seen2 = True
            rest.append(x)
        else:
            c.check(not seen2, 'single-qubit gates come first')
            per[x.target].append((t, getattr(x, 'phase', None)))
    for k in range(n):
        want = ([('HAD', None)] if had[k] else []) + ([('ZPhase', phases[k])] if phases[k] else [])
        c.check(per[k] == want, 'Hadamard and phase of a frontier spider', wire=k, got=repr(per[k]))
    x = np.arange(2 ** n)
    bits = np.array([(x >> (n - 1 - q)) & 1 for q in range(n)])
    start, sign = bits.copy(), np.zeros(2 ** n, dtype=int)
    for y in reversed(rest):
        if type(y).__name__ == 'CNOT':
            bits[y.target] = bits[y.target] ^ bits[y.control]
        else:
            sign ^= bits[y.control] & bits[y.target]
    want = np.zeros(2 ** n, dtype=int)
    for i, j in cz:
        want ^= start[i] & start[j]
    c.check((bits == start).all() and (sign == want).all(), 'the CZ and CNOT gates emitted are the CZs of the frontier', gates=repr(rest))
    c.check(all(not g.phase(v) for v in vs) and all(g.edge_type(g.edge(vs[k], outs[k])) == 1 for k in range(n)) and
            sorted(tuple(sorted(g.edge_st(e))) for e in g.edges() if set(g.edge_st(e)) & set(far)) == far_edges and
            not any(g.connected(vs[i], vs[j]) for i in range(n) for j in range(i)), 'what was emitted leaves the diagram, the rest stays')


@S.bounded('lookahead', 120, 2500, bound='random circuits of at most 4 qubits and 30 gates', limit=100,
           functions=['lookahead_extract_base', 'lookahead_fast', 'lookahead_full', 'lookahead_extract', 'LookaheadNode', 'RootPicker'])
def lookahead(c):
    rng = c.rng
    from pyzx import extract as ex, simplify
    a = gens.rand_circuit(rng, n=(1, 4), depth=(0, 30), gates=rng.choice([gens.GATES_T, gens.GATES_CLIFF]))
    g = a.to_graph()
    rng.choice([simplify.full_reduce, simplify.clifford_simp, simplify.interior_clifford_simp])(g)
    simplify.to_graph_like(g)
    ua = umat(a)
    perm, dep = rng.random() < 0.3, rng.random() < 0.4
    how = rng.choice(['fast', 'base', 'base', 'base', 'extract', 'full'])
    kw = dict(optimize_for_depth=dep, up_to_perm=perm)
    if how == 'base':
        kw.update(steps=rng.choice([-1, 1, 3, 8]), depth_limit=rng.choice([-1, 1, 3, 7]), min_extract=rng.choice([0, 1, 5]), nodes_kept=rng.choice([1, 4]),
                  hard_limit=rng.choice([-1, -1, 0, 5, 12]), algorithms=rng.choice([None, [0], [0, 1], [0, 2], [0, 3], [0, 1, 2, 3]]), compare_basic=rng.random() < 0.5)
    c.note(circuit=repr(a.gates), diagram=gens.describe(g), how=how, options=kw)
    c.sig((gens.snapshot(g), how, sorted(kw.items(), key=str)))
    f = {'fast': ex.lookahead_fast, 'extract': ex.lookahead_extract, 'full': ex.lookahead_full, 'base': ex.lookahead_extract_base}[how]
    r = f(g, **kw)
    if r is None:
        c.check(how == 'base' and kw['hard_limit'] >= 0, 'extraction without a limit returns a circuit')
        return
    c.check(r.qubits == a.qubits and matches(r, ua, perm), 'the extracted circuit denotes the diagram', result=repr(r.gates))
    if how == 'base' and kw['hard_limit'] >= 0:
        b = r.to_basic_gates()
        d = b.depth() if dep else sum(type(x).__name__ in ('CNOT', 'CZ', 'XCX', 'SWAP') for x in b.gates)
        c.check(d < kw['hard_limit'] or d == 0, 'the result is below the requested limit', value=d)


def dense_circuit(rng, n, depth):
    """random circuits whose reduced diagrams have frontiers without an easy spider: many two-qubit gates, few wires"""
    from pyzx.circuit import Circuit
    a = Circuit(n)
    for _ in range(depth):
        k = rng.random()
        if k < 0.6:
            i, j = rng.sample(range(n), 2)
            a.add_gate(rng.choice(['CNOT', 'CNOT', 'CZ']), i, j)
        elif k < 0.8:
            a.add_gate('HAD', rng.randrange(n))
        else:
            a.add_gate(rng.choice(['T', 'S', 'T']), rng.randrange(n))
    return a


@S.bounded('extract dense', 500, 6000, bound='circuits of 5 to 9 qubits and 40 to 250 gates, fully reduced', limit=60, functions=['extract_circuit', 'apply_cnots', 'greedy_reduction'])
def dense(c):
    rng = c.rng
    from pyzx.extract import extract_circuit
    from pyzx import simplify
    n = rng.choice([5, 6, 6, 7, 7, 8, 8, 9])
    a = dense_circuit(rng, n, rng.randint(40, 250))
    g = a.to_graph()
    rng.choice([simplify.full_reduce, simplify.clifford_simp])(g)
    simplify.to_graph_like(g)
    kw = dict(optimize_czs=rng.random() < 0.7, optimize_cnots=rng.choice([0, 1, 2, 3, 3, 3, 3, 3]), up_to_perm=rng.random() < 0.2)
    c.note(circuit=repr(a.gates), options=kw)
    c.sig((gens.snapshot(g), kw))
    if n > 6:
        kw['up_to_perm'] = False
    r = extract_circuit(g, **kw)
    if n > 6:
        x = np.random.default_rng(1).normal(size=(2 ** n, 3))
        same = r.qubits == n and refsem.close_up_to_scalar(gens.circuit_images(r, x), gens.circuit_images(a, x))
    else:
        same = r.qubits == n and matches(r, umat(a), kw['up_to_perm'])
    c.check(same, 'the extracted circuit denotes the diagram', result=repr(r.gates))


@S.bounded('lookahead dense', 200, 3000, bound='circuits of 4 to 6 qubits and 30 to 120 gates', limit=100, functions=['lookahead_extract_base', 'LookaheadNode', 'RootPicker'])
def lookahead_dense(c):
    rng = c.rng
    from pyzx import extract as ex, simplify
    n = rng.randint(4, 6)
    a = dense_circuit(rng, n, rng.randint(30, 120))
    g = a.to_graph()
    rng.choice([simplify.full_reduce, simplify.clifford_simp])(g)
    simplify.to_graph_like(g)
    kw = dict(optimize_for_depth=rng.random() < 0.3, up_to_perm=rng.random() < 0.2, steps=rng.choice([1, 1, 2, 5]), depth_limit=rng.choice([1, 2, 4]), min_extract=rng.choice([0, 0, 1, 3]),
              nodes_kept=rng.choice([1, 2, 3]), algorithms=rng.choice([[0, 1], [0, 2], [0, 3], [0, 1, 2, 3]]), compare_basic=False)
    c.note(circuit=repr(a.gates), options=kw)
    c.sig((gens.snapshot(g), sorted(kw.items(), key=str)))
    ua = umat(a)
    r = ex.lookahead_extract_base(g, **kw)
    c.check(r is not None and r.qubits == n and matches(r, ua, kw['up_to_perm']), 'the extracted circuit denotes the diagram', result=repr(r and r.gates))


@S.bounded('extract_simple', 300, 4000, bound='random circuits of at most 4 qubits and 20 gates after spider fusion, identity removal and colour changes', limit=30, functions=['extract_simple', 'graph_to_swaps'])
def simple(c):
    rng = c.rng
    from pyzx.extract import extract_simple
    from pyzx import simplify
    a = gens.rand_circuit(rng, n=(1, 4), depth=(0, 20), gates=gens.GATES_BASIC + [('S', 1), ('T', 1), ('SWAP', 2)])
    g = a.to_graph(compress_rows=rng.random() < 0.5)
    for s in rng.sample(['spider_simp', 'id_simp', 'spider_simp'], rng.randint(0, 3)):
        getattr(simplify, s)(g, quiet=True)
    perm = rng.random() < 0.4
    ua = umat(a)
    c.note(circuit=repr(a.gates), diagram=gens.describe(g), up_to_perm=perm)
    c.sig((gens.snapshot(g), perm))
    r = extract_simple(g, up_to_perm=perm)
    c.check(r.qubits == a.qubits and matches(r, ua, perm), 'the extracted circuit denotes the diagram', result=repr(r.gates))


@S.bounded('non_unitary', 400, 6000, bound='random graph-like diagrams of at most 7 spiders with 1 to 3 inputs and outputs, most of them not unitary', limit=30,
           crash_ok=(Exception,), functions=['extract_circuit', 'extract_simple', 'extract_clifford_normal_form', 'graph_to_swaps'])
def non_unitary(c):
    """whatever the diagram: when a circuit is returned it is right"""
    rng = c.rng
    from pyzx import extract as ex, simplify
    n = rng.randint(1, 3)
    if rng.random() < 0.6:
        g = gens.graph_like(rng, nv=(n, 6), io=(n, n, n, n), phases=rng.choice(PHASES), density=rng.choice([0.3, 0.5, 0.8]))
    else:
        g = gens.rand_graph(rng, nv=(n, 6), io=(n, n, n, n), phases=rng.choice(PHASES))
        simplify.to_graph_like(g)
    if rng.random() < 0.5:
        simplify.full_reduce(g)
    m = refsem.graph_matrix(g)
    how = rng.choice(['extract', 'extract', 'simple', 'clifford', 'look'])
    c.note(diagram=gens.describe(g), how=how)
    if how == 'extract':
        r = ex.extract_circuit(g, optimize_cnots=rng.randrange(4), optimize_czs=rng.random() < 0.5)
    elif how == 'simple':
        r = ex.extract_simple(g, up_to_perm=False)
    elif how == 'clifford':
        r = ex.extract_clifford_normal_form(g)
    else:
        r = ex.lookahead_fast(g)
    c.sig((how, repr(c.data['diagram'])))
    if np.abs(m).max() < 1e-9:
        return      # zero diagram: no circuit denotes it, nothing to compare with
    c.check(matches(r, m, False), 'a circuit returned for an arbitrary diagram denotes it', result=repr(r.gates))


@S.bounded('clifford', 250, 4000, bound='random Clifford circuits of at most 4 qubits and 30 gates', limit=30, functions=['extract_clifford_normal_form'])
def clifford(c):
    rng = c.rng
    from pyzx.extract import extract_clifford_normal_form
    a = gens.rand_circuit(rng, n=(1, 4), depth=(0, 30), gates=gens.GATES_CLIFF, phases='clifford')
    g = a.to_graph()
    c.note(circuit=repr(a.gates))
    c.sig(gens.gates_snapshot(a))
    r = extract_clifford_normal_form(g)
    c.check(r.qubits == a.qubits and matches(r, umat(a), False), 'the extracted circuit denotes the diagram', result=repr(r.gates))
    # layers: Had Phase CZ CNOT Had CZ Phase Had
    kinds = [{'HAD': 'H', 'CZ': 'C', 'CNOT': 'N'}.get(type(x).__name__, 'P') for x in r.gates]
    st, order = 0, 'HPCNHCPH'
    for k in kinds:
        while st < len(order) and order[st] != k:
            st += 1
    c.check(st < len(order), 'the circuit has the layers Had-Phase-CZ-CNOT-Had-CZ-Phase-Had', kinds=''.join(kinds))


@S.bounded('swaps', 300, 3000, bound='permutations of at most 6 wires with Hadamard edges', functions=['graph_to_swaps', 'permutation_as_swaps'])
def swaps(c):
    rng = c.rng
    from pyzx.extract import graph_to_swaps, permutation_as_swaps
    from pyzx.graph import Graph
    n = rng.randint(1, 6)
    p = rng.sample(range(n), n)
    sw = permutation_as_swaps({i: p[i] for i in range(n)})
    # contract: prepending the swaps in order gives the circuit in which output q carries input p[q]
    pos = list(range(n))
    for t1, t2 in reversed(sw):
        pos[t1], pos[t2] = pos[t2], pos[t1]
    c.note(perm=p, swaps=sw)
    c.check(pos == p, 'the swaps realise the permutation')
    n = min(n, 4)
    p = rng.sample(range(n), n)
    g = Graph(backend=rng.choice(['simple', 'multigraph']))
    i = [g.add_vertex(0, k, 0) for k in range(n)]
    o = [g.add_vertex(0, k, 1) for k in range(n)]
    g.set_inputs(tuple(i)), g.set_outputs(tuple(o))
    for k in range(n):
        g.add_edge((o[k], i[p[k]]), rng.choice([1, 2]))
    m = refsem.graph_matrix(g)
    no = rng.random() < 0.4
    c.note(diagram=gens.describe(g), no_swaps=no)
    c.sig((p, gens.snapshot(g), no))
    r = graph_to_swaps(g, no)
    c.check(matches(r, m, no), 'wires and Hadamards are read as swaps and Hadamards', result=repr(r.gates))
    if no:
        c.check(all(type(x).__name__ == 'HAD' for x in r.gates), 'no swaps when none are asked for')


def rand_mat(rng, r, cc, d):
    return [[int(rng.random() < d) for _ in range(cc)] for _ in range(r)]


def apply_rows(M, ops):
    M = [list(r) for r in M]
    for a, b in ops:     # add row a to row b
        M[b] = [x ^ y for x, y in zip(M[a], M[b])]
    return M


def rank(M):
    M, r = [int(''.join(map(str, row)), 2) if row else 0 for row in M], 0
    M = list(M)
    while M:
        p = M.pop()
        if p:
            r += 1
            low = p & -p
            M = [x ^ p if x & low else x for x in M]
    return r


@S.bounded('reductions', 500, 6000, bound='matrices of at most 7 x 9', functions=['find_minimal_sums', 'greedy_reduction', 'greedy_reduction_flat', 'greedy_two_reduction', 'find_2_minimal_sums', 'flat_indices', 'xor_rows', 'column_optimal_swap', '_find_targets', 'max_overlap', 'remove_extra_cnots', 'filter_duplicate_cnots', 'compare_cnots', 'cnots_to_xor_list', 'bi_adj', 'connectivity_from_biadj'])
def reductions(c):
    rng = c.rng
    from pyzx import extract as ex
    from pyzx.linalg import Mat2
    from pyzx.circuit.gates import CNOT
    r, cc = rng.randint(1, 7), rng.randint(1, 9)
    M = rand_mat(rng, r, cc, rng.choice([0.2, 0.5, 0.8]))
    m = Mat2([list(x) for x in M])
    c.note(matrix=M)
    c.sig(M)
    w1 = any(sum(x) == 1 for x in M)

    def span_weight1():
        return any(sum(sum(M[i][k] for i in s) % 2 for k in range(cc)) == 1 for n in range(1, r + 1) for s in itertools.combinations(range(r), n))
    for rev in (False, True):
        s = ex.find_minimal_sums(m, rev)
        if s is None:
            c.check(not span_weight1(), 'a sum of rows with a single one is found when there is one')
        elif s == ():
            c.check(w1, 'the empty sum only when a row has a single one')
        else:
            c.check(len(set(s)) == len(s) and sum(sum(M[i][k] for i in s) % 2 for k in range(cc)) == 1, 'the sum of the rows found has a single one')
    for f in (ex.greedy_reduction, ex.greedy_reduction_flat):
        ops = f(m)
        c.check((ops is None) == (ex.find_minimal_sums(m) is None), f.__name__ + ' finds a reduction when there is one')
        if ops is not None:
            N = apply_rows(M, ops)
            c.check(all(a != b for a, b in ops) and any(sum(x) == 1 for x in N), f.__name__ + ' makes a row with a single one')
    t = ex.find_2_minimal_sums(m)
    if t is not None:
        c.check(t[0] != t[1] and all(sum(sum(M[i][k] for i in s) % 2 for k in range(cc)) == 1 for s in t), 'the two sums found have a single one each')
    if not w1:
        ops = ex.greedy_two_reduction(m)
        if ops is not None:
            N = apply_rows(M, ops)
            c.check(sum(1 for x in N if sum(x) == 1) >= 2, 'two rows with a single one each')
    idx = rng.sample(range(r), rng.randint(0, r))
    ops, last = ex.flat_indices(m, list(idx))
    if idx:
        N = apply_rows(M, ops)
        c.check(last in idx and N[last] == [sum(M[i][k] for i in idx) % 2 for k in range(cc)] and len(ops) == len(idx) - 1, 'the row reported holds the sum of the rows given')
    c.check(m.data == M, 'the reductions leave the matrix alone')
    # permutation of the columns
    if r <= cc:
        t = ex.column_optimal_swap(m)
        c.check(sorted(t) == list(range(cc)) and sorted(t.values()) == list(range(cc)) if r == cc else len(t) == len(set(t.values())) == cc, 'column_optimal_swap returns a permutation')
    # CNOT lists
    n = rng.randint(2, 6)
    cn = [CNOT(*rng.sample(range(n), 2)) for _ in range(rng.randint(0, 10))]
    ident = [[int(i == j) for j in range(n)] for i in range(n)]

    def par(l):
        return apply_rows(ident, [(x.control, x.target) for x in l])
    before = [(x.control, x.target) for x in cn]
    f = ex.filter_duplicate_cnots(list(cn))
    c.note(cnots=before)
    c.check(par(f) == par(cn) and len(f) <= len(cn) and all(type(x) is CNOT for x in f), 'cancelling CNOTs keeps the parity map')
    c.check([(x.control, x.target) for x in cn] == before, 'cancelling CNOTs leaves the list alone')
    cn2 = [CNOT(*rng.sample(range(n), 2)) for _ in range(rng.randint(0, 4))] if rng.random() < 0.5 else f
    c.check(ex.compare_cnots(cn, cn2, n) == (par(cn) == par(cn2)), 'two CNOT lists are equal exactly when their parity maps are')
    # removing CNOTs that do not help extraction
    M2 = rand_mat(rng, n, rng.randint(1, 7), rng.choice([0.3, 0.5]))
    out = ex.remove_extra_cnots(list(cn), Mat2([list(x) for x in M2]))

    def weight1(l):
        N = apply_rows(M2, [(x.target, x.control) for x in l])
        return sum(1 for x in N if sum(x) == 1)
    c.note(matrix2=M2, kept=[(x.control, x.target) for x in out])
    c.check(weight1(out) >= weight1(cn), 'dropping CNOTs keeps the number of extractable rows')
    # overlap of CZs
    k = rng.randint(2, 7)
    A = rand_mat(rng, k, k, 0.5)
    A = [[A[min(i, j)][max(i, j)] if i != j else 0 for j in range(k)] for i in range(k)]
    (i, j), common = ex.max_overlap(Mat2(A))
    best = max(sum(A[x][t] & A[y][t] for t in range(k)) for x in range(k) for y in range(x + 1, k))
    c.check(len(common) == best and (not common or (i != j and common == [t for t in range(k) if A[i][t] and A[j][t]])), 'the overlap of two CZ rows is the largest')


@S.bounded('biadjacency', 150, 1500, bound='graphs of at most 8 vertices', functions=['bi_adj', 'connectivity_from_biadj'])
def biadj(c):
    rng = c.rng
    from pyzx import extract as ex
    from pyzx.linalg import Mat2
    g = gens.graph_like(rng, nv=(2, 8), io=(0, 2, 0, 2), density=0.5)
    vs = [v for v in g.vertices() if g.type(v) == 1]
    rng.shuffle(vs)
    k = rng.randint(1, len(vs) - 1) if len(vs) > 1 else 0
    if not k:
        raise Skip()
    L, R = vs[:k], vs[k:][:rng.randint(1, 4)]
    adj = {frozenset(g.edge_st(e)) for e in g.edges()}
    m = ex.bi_adj(g, L, R)
    c.note(diagram=gens.describe(g), left=L, right=R)
    c.check(m.data == [[int(frozenset((v, w)) in adj) for v in L] for w in R], 'biadjacency matrix')
    N = rand_mat(rng, len(R), len(L), 0.5)
    c.sig((gens.snapshot(g), L, R, N))
    types = {frozenset(g.edge_st(e)): g.edge_type(e) for e in g.edges()}
    ex.connectivity_from_biadj(g, Mat2([list(x) for x in N]), L, R)
    now = {frozenset(g.edge_st(e)): g.edge_type(e) for e in g.edges()}
    for i, w in enumerate(R):
        for j, v in enumerate(L):
            c.check((frozenset((v, w)) in now) == bool(N[i][j]), 'edges follow the matrix')
    cross = {frozenset((v, w)) for v in L for w in R}
    c.check({k: v for k, v in now.items() if k not in cross} == {k: v for k, v in types.items() if k not in cross}, 'other edges are left alone')


from props import c05p  # noqa: E402
c05p.register(S)
