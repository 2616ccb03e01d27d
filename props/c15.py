"""C15: routed CNOT circuits respect the device and the parity map."""
import contextlib
import io
import numpy as np
from lib.harness import Suite, Skip
from lib import gens

S = Suite('C15', 'proof',
          note='Contract of architecture-aware elimination: requires a connected architecture with the default qubit placement and an invertible matrix M; ensures the matrix becomes the identity, the tracked row operations are CNOTs on edges of the architecture, and the CNOTs recorded in y multiply to M (to the permuted M for the permuting modes).',
          rule='bounded part: random matrices on random connected architectures, and on every named architecture; non-trivial = distinct (architecture, matrix) with at least one CNOT')


def arch(rng, n):
    from pyzx.routing.architecture import Architecture, create_architecture, create_line_architecture, create_circle_architecture, create_fully_connected_architecture
    k = rng.choice(['line', 'circle', 'full', 'random', 'random', 'tree', 'shuffled', 'dense', 'square', 'density'])
    if k == 'line':
        return create_line_architecture(n)
    if k == 'circle' and n > 2:
        return create_circle_architecture(n)
    if k == 'full':
        return create_fully_connected_architecture(n)
    if k == 'square':
        return create_architecture('square', n_qubits=4 if n < 7 else 9)
    if k == 'density' and n > 1:
        np.random.seed(rng.randrange(2**31))
        return create_architecture('dynamic_density', n_qubits=n, density_prob=rng.choice([0.1, 0.4]))
    m = np.zeros((n, n), int)
    order = list(range(n))
    if k in ('shuffled', 'dense'):
        rng.shuffle(order)
    for i in range(1, n):
        a, b = order[i], order[rng.randrange(i) if rng.random() < 0.7 else i - 1]
        m[a, b] = m[b, a] = 1
    if k != 'tree':
        for _ in range(rng.randint(0, n) if k != 'dense' else 3 * n):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b:
                m[a, b] = m[b, a] = 1
    return Architecture('random', coupling_matrix=m)


def rmat(rng, n, full=False):
    """a random invertible matrix"""
    m = np.eye(n, dtype=int)
    for _ in range(0 if n < 2 else 4 * n * n if full else rng.randint(0, 5 * n)):
        a, b = rng.sample(range(n), 2)
        m[b] ^= m[a]
    return m


def adjacent(a):
    return {frozenset(a.vertex2qubit(v) for v in a.graph.edge_st(e)) for e in a.graph.edges()}


def product(gates, n):
    m = np.eye(n, dtype=int)
    for g in gates:
        m[g.target] ^= m[g.control]
    return m


def describe(a):
    return dict(edges=[list(map(int, a.graph.edge_st(e))) for e in a.graph.edges()], placement=list(map(int, a.qubit_map)), order=list(map(int, a.reduce_order)))


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def on_edges(c, gates, a, what):
    if a is not None:
        ok = adjacent(a)
        bad = [g for g in gates if frozenset((g.control, g.target)) not in ok]
        c.check(not bad, '%s uses a CNOT between qubits that are not adjacent: %s' % (what, bad[:2]), key=what + ' ignores the architecture')
    c.check(all(g.name == 'CNOT' for g in gates), '%s made gates other than CNOT' % what, key=what + ' gates')


def eliminate(c, name, f, a, m, partial=False):
    from pyzx.linalg import Mat2
    from pyzx.routing.parity_maps import CNOT_tracker
    n = len(m)
    x, y = CNOT_tracker(n), CNOT_tracker(n)
    w = Mat2(m.tolist())
    full = not partial
    quiet(f, w, a, full_reduce=full, x=x, y=y)
    c.note(result=w.data, gates=[(g.control, g.target) for g in x.gates])
    r = np.array(w.data)
    on_edges(c, x.gates, a, name)
    on_edges(c, y.gates, a, name)
    c.check((product(x.gates, n) @ m % 2 == r).all(), '%s: recorded row operations do not lead to the result' % name, key=name + ' row operations')
    c.check((product(y.gates, n) @ r % 2 == m).all(), '%s: recorded circuit is not the matrix' % name, key=name + ' circuit')
    c.check((np.array(x.matrix.data) == product(x.gates, n)).all() and (np.array(y.matrix.data) == product(y.gates, n)).all(), '%s: tracked matrix is not that of the gates' % name, key='tracker matrix')
    if full:
        c.check((r == np.eye(n, dtype=int)).all(), '%s did not reduce the matrix to the identity' % name, key=name + ' incomplete')
    else:
        c.check((np.tril(r, -1) == 0).all(), '%s did not make the matrix upper triangular' % name, key=name + ' not triangular')
    return x


@S.bounded('recursive Steiner elimination', quick=1500, thorough=25000, split=3, bound='random connected architectures of up to 9 qubits, some of up to 18', functions=['rec_steiner_gauss', 'Architecture', 'rec_steiner_tree', 'floyd_warshall'])
def _(c):
    from pyzx.routing.steiner import rec_steiner_gauss
    a = arch(c.rng, c.rng.randint(1, 9) if c.rng.random() < 0.97 else c.rng.randint(10, 18))
    m = rmat(c.rng, a.n_qubits, c.rng.random() < 0.5)
    c.note(architecture=describe(a), matrix=m.tolist())
    if len(eliminate(c, 'rec_steiner_gauss', rec_steiner_gauss, a, m, c.rng.random() < 0.15).gates):
        c.sig((str(describe(a)), m.tobytes()))


@S.bounded('Steiner elimination', quick=1000, thorough=15000, split=2, bound='random connected architectures of up to 9 qubits, some of up to 18', functions=['steiner_gauss', 'steiner_tree'])
def _(c):
    from pyzx.routing.steiner import steiner_gauss
    a = arch(c.rng, c.rng.randint(1, 9) if c.rng.random() < 0.97 else c.rng.randint(10, 18))
    m = rmat(c.rng, a.n_qubits, c.rng.random() < 0.5)
    c.note(architecture=describe(a), matrix=m.tolist())
    adj = adjacent(a)
    line = all(frozenset((q, q + 1)) in adj for q in range(a.n_qubits - 1))
    try:
        x = eliminate(c, 'steiner_gauss', steiner_gauss, a, m, c.rng.random() < 0.15)
    except ValueError as e:  # documented: the qubits below a pivot must be connected by descending paths
        c.check('not connected' in str(e) and not line, 'steiner_gauss rejected %s' % e, key='steiner_gauss rejects a Hamiltonian path')
        raise Skip()
    if len(x.gates):
        c.sig((str(describe(a)), m.tobytes()))


@S.bounded('Steiner trees', quick=1500, thorough=25000, split=1, bound='random connected architectures of up to 9 qubits, random terminal sets', functions=['steiner_tree', 'pre_calc_distances', 'floyd_warshall'])
def _(c):
    """the contract steiner_gauss is proved against"""
    a = arch(c.rng, c.rng.randint(1, 9))
    n = a.n_qubits
    root, upper = c.rng.randrange(n), c.rng.random() < 0.5
    side = list(range(root + 1, n)) if upper else list(range(root))
    nodes = ([root] if c.rng.random() < 0.6 else []) + sorted(c.rng.sample(side, c.rng.randint(0, len(side))))
    c.note(architecture=describe(a), root=root, nodes=nodes, upper=upper)
    it = a.steiner_tree(root, nodes, upper)
    try:
        down = []
        while (e := next(it)) is not None:
            down.append(e)
    except ValueError as e:
        c.check('not connected' in str(e), 'steiner_tree rejected %s' % e, key='steiner_tree raises')
        raise Skip()
    up = []
    while (e := next(it)) is not None:
        up.append(e)
    c.note(edges=down)
    adj = adjacent(a)
    c.check(up == down[::-1], 'the way back %s is not the way down %s reversed' % (up, down), key='steiner_tree order')
    seen = {root}
    for p, q in down:
        c.check(frozenset((p, q)) in adj, 'tree edge %s is not in the architecture' % ((p, q),), key='steiner_tree edge')
        c.check(p in seen and q not in seen, 'edge %s does not extend the tree' % ((p, q),), key='steiner_tree tree')
        c.check(q > root and p >= root if upper else q < p <= root, 'edge %s is on the wrong side of the root %s' % ((p, q), root), key='steiner_tree side')
        seen.add(q)
    c.check(set(nodes) <= seen, 'terminals %s missing' % sorted(set(nodes) - seen), key='steiner_tree terminals')
    leaves = {q for _, q in down} - {p for p, _ in down}
    c.check(leaves <= set(nodes), 'leaves %s are not terminals' % sorted(leaves - set(nodes)), key='steiner_tree leaves')
    if down:
        c.sig((str(describe(a)), root, tuple(nodes), upper))


NAMED = ['ibm_qx2', 'ibm_qx3', 'ibm_qx4', 'ibm_qx5', 'ibm_q20_tokyo', 'rigetti_19q_acorn', 'rigetti_16q_aspen', 'rigetti_8q_agave', 'recursive_architecture', 'sycamore_like', 'ibmq_poughkeepsie', 'ibmq_singapore', 'ibmq_boeblingen', 'google_sycamore', 'ibm_rochester']
BIG = ('google_sycamore', 'ibm_rochester')


@S.bounded('named architectures', quick=39, thorough=300, split=4, limit=300, bound='every named architecture of up to 20 qubits (thorough: up to 53)', functions=['create_architecture', 'gauss'])
def _(c):
    from pyzx.routing.architecture import create_architecture
    from pyzx.routing.cnot_mapper import gauss, ElimMode
    names = [x for x in NAMED if x not in BIG]
    name = BIG[c.i % 2] if c.i >= 280 else names[c.i % len(names)]
    a = create_architecture(name)
    m = rmat(c.rng, a.n_qubits, True)
    c.note(architecture=name, matrix=m.tolist())
    eliminate(c, 'gauss(steiner) on ' + name, lambda w, a, **kw: gauss(ElimMode.STEINER_MODE, w, architecture=a, **kw), a, m)
    c.sig((name, m.tobytes()))


@S.bounded('elimination modes', quick=500, thorough=6000, split=3, bound='up to 5 qubits, small populations', functions=['gauss', 'permuted_gauss', 'FitnessFunction'])
def _(c):
    from pyzx.linalg import Mat2
    from pyzx.routing.cnot_mapper import gauss, permuted_gauss, ElimMode
    from pyzx.routing.parity_maps import CNOT_tracker
    rng = c.rng
    a = arch(rng, rng.randint(1, 5)) if rng.random() < 0.6 else None
    n = a.n_qubits if a is not None else rng.randint(1, 5)
    m = rmat(rng, n, rng.random() < 0.5)
    np.random.seed(rng.randrange(2**31))
    import random
    random.seed(rng.randrange(2**31))
    kind = rng.choice(['gauss', 'steiner', 'steiner', 'permuted', 'permuted', 'genetic'])
    c.note(architecture=a and describe(a), matrix=m.tolist(), kind=kind)
    eye = np.eye(n, dtype=int)
    if kind in ('gauss', 'steiner'):
        mode = ElimMode.STEINER_MODE if kind == 'steiner' else rng.choice([ElimMode.GAUSS_MODE, None])
        eliminate(c, 'gauss(%s)' % kind, lambda w, b, **kw: gauss(mode, w, architecture=b, **kw), a if kind == 'steiner' else None, m)
        return c.sig((kind, a and str(describe(a)), m.tobytes()))
    base = rng.choice([ElimMode.GAUSS_MODE, ElimMode.STEINER_MODE])
    w = Mat2(m.tolist())
    kw = dict(population_size=rng.randint(4, 8), n_iterations=2, full_reduce=True)
    if kind == 'permuted':
        row, col = rng.random() < 0.7, rng.random() < 0.7
        perm, circ, _rank = quiet(permuted_gauss, w, base, architecture=a, row=row, col=col, **kw)
        perm = list(map(int, perm))
        rp, cp = perm if row else list(range(n)), perm if col else list(range(n))
        c.check(list(circ.row_perm) == rp and list(circ.col_perm) == cp, 'reported permutations differ', key='permuted_gauss permutations')
    else:
        circ = CNOT_tracker(n)
        quiet(gauss, ElimMode.GENETIC_STEINER_MODE if base == ElimMode.STEINER_MODE else ElimMode.GENETIC_GAUSS_MODE, w, architecture=a, y=circ, **kw)
        rp, cp = list(map(int, circ.row_perm)), list(map(int, circ.col_perm))
    c.note(rows=rp, columns=cp)
    c.check(sorted(rp) == sorted(cp) == list(range(n)), 'not permutations', key='permutation')
    c.check((product(circ.gates, n) == m[rp][:, cp]).all(), '%s circuit is not the permuted matrix' % kind, key=kind + ' circuit')
    on_edges(c, circ.gates, a if base == ElimMode.STEINER_MODE else None, kind)
    c.check((np.array(w.data) == m).all(), 'permuting elimination changed its argument', key='argument changed')
    c.sig((kind, a and str(describe(a)), m.tobytes()))


@S.bounded('sequences of matrices', quick=120, thorough=1500, split=4, bound='up to 3 matrices of up to 4 qubits, small populations and swarms', functions=['sequential_gauss', 'StepFunction', 'ParticleSwarmOptimization', 'GeneticAlgorithm'])
def _(c):
    from pyzx.linalg import Mat2
    from pyzx.routing.cnot_mapper import sequential_gauss, ElimMode
    rng = c.rng
    a = arch(rng, rng.randint(2, 4)) if rng.random() < 0.7 else None
    n = a.n_qubits if a is not None else rng.randint(2, 4)
    ms = [rmat(rng, n) for _ in range(rng.randint(1, 3))]
    np.random.seed(rng.randrange(2**31))
    import random
    random.seed(rng.randrange(2**31))
    mode = rng.choice(list(ElimMode) + [None])
    kw = {}
    if mode in (ElimMode.GENETIC_GAUSS_MODE, ElimMode.GENETIC_STEINER_MODE, ElimMode.PSO_GAUSS_MODE, ElimMode.PSO_STEINER_MODE):
        kw = dict(population_size=5, n_iterations=2)
    if mode in (ElimMode.PSO_GAUSS_MODE, ElimMode.PSO_STEINER_MODE):
        kw.update(swarm_size=3, n_steps=2)
    ip, op = rng.random() < 0.5, rng.random() < 0.5
    c.note(architecture=a and describe(a), matrices=[m.tolist() for m in ms], mode=str(mode), input_perm=ip, output_perm=op)
    import multiprocessing
    multiprocessing.current_process()._config['daemon'] = False  # the swarm may start worker processes
    import pyzx.routing.machine_learning as ml
    if hasattr(ml, 'cpu_count'):
        ml.cpu_count = lambda: 1  # ... but does not need to
    circs, perms, score = quiet(sequential_gauss, [Mat2(m.tolist()) for m in ms], mode=mode, architecture=a, input_perm=ip, output_perm=op, **kw)
    perms = [list(map(int, p)) for p in perms]
    c.note(permutations=perms)
    c.check(len(circs) == len(ms) and len(perms) == len(ms) + 1, 'wrong number of results', key='sequential_gauss length')
    c.check(all(sorted(p) == list(range(n)) for p in perms), 'not permutations', key='sequential_gauss permutation')
    permuting = bool(kw)
    if not permuting or not ip:
        c.check(perms[0] == list(range(n)), 'input permutation although not allowed', key='sequential_gauss input permutation')
    if not permuting or not op:
        c.check(perms[-1] == list(range(n)), 'output permutation although not allowed', key='sequential_gauss output permutation')
    for i, (m, circ) in enumerate(zip(ms, circs)):
        c.check((product(circ.gates, n) == m[perms[i + 1]][:, perms[i]]).all(), 'circuit %d is not its matrix with the reported permutations' % i, key='sequential_gauss circuit (%s)' % mode)
        on_edges(c, circ.gates, a if mode is not None and 'steiner' in mode.value else None, 'sequential_gauss')
    c.sig((str(mode), a and str(describe(a)), b''.join(m.tobytes() for m in ms)))


@S.bounded('CNOT_tracker', quick=500, thorough=6000, split=1, bound='up to 6 qubits, 20 operations', functions=['CNOT_tracker'])
def _(c):
    from pyzx.routing.parity_maps import CNOT_tracker
    from pyzx.circuit import Circuit
    from pyzx.circuit.gates import CNOT
    rng = c.rng
    n = rng.randint(2, 6)
    t = CNOT_tracker(n)
    m = np.eye(n, dtype=int)
    ops = []
    for _ in range(rng.randint(1, 20)):
        a, b = rng.sample(range(n), 2)
        k = rng.choice(['row_add', 'col_add', 'add', 'add name'])
        ops.append((k, a, b))
        if k == 'row_add':
            t.row_add(a, b)
            m[b] ^= m[a]
        elif k == 'col_add':
            t.col_add(a, b)
            m[:, b] ^= m[:, a]
        elif k == 'add':
            t.add_gate(CNOT(a, b))
            m[b] ^= m[a]
        else:
            t.add_gate('CNOT', a, b)
            m[b] ^= m[a]
    c.note(ops=ops)
    c.check((product(t.gates, n) == m).all(), 'gates are not the operations tracked', key='tracker gates')
    c.check((np.array(t.matrix.data) == m).all(), 'matrix is not that of the operations tracked', key='tracker matrix')
    circ = Circuit(n)
    for g in t.gates:
        circ.add_gate(g)
    u = CNOT_tracker.from_circuit(circ)
    c.check((np.array(u.matrix.data) == m).all(), 'from_circuit has another matrix', key='tracker from_circuit')
    c.check(t.count_cnots() == len(t.gates), 'count_cnots', key='count_cnots')
    c.sig(tuple(ops))


from props import c15p  # noqa: E402
c15p.register(S)
