"""C21: stabiliser decompositions sum to the original diagram."""
from fractions import Fraction
import itertools
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C21', 'proof',
          note='Contract of replace_magic_states(g, pick): g unchanged, the maps of the terms add up to that of g (scalars included) and each term has fewer T-like phases. Contracts of SumGraph.to_tensor/to_matrix/full_reduce/reduce_scalar/post_select/inner_product_with_random_state, find_stabilizer_decomp (sum equal, all terms Clifford, at most max_terms_needed) and calculate_path_sum (the number denoted).',
          rule='bounded part: reference semantics of every term, summed; non-trivial = distinct diagram and choice')


def tlike(g):
    return [v for v in g.vertices() if g.type(v) == 1 and Fraction(g.phase(v)).denominator == 4]


def glike(rng, closed=False, big=False):
    import pyzx as zx
    r = rng.random()
    io = (0, 0, 0, 0) if closed else rng.choice([(0, 0, 0, 2), (0, 1, 0, 2), (0, 0, 0, 0)])
    if r < 0.6:
        g = gens.graph_like(rng, nv=(1, 9 if big else 7), io=io, phases=rng.choice(['T', 'T', 'clifford']), backend=rng.choice(['simple', 'simple', 'multigraph']), gadgets=0.0 if rng.random() < 0.5 else 0.5)
        for v in g.vertices():
            if g.type(v) == 1 and Fraction(g.phase(v)).denominator not in (1, 2, 4):
                g.set_phase(v, rng.choice(gens.T8))
        if rng.random() < 0.5:
            for v in g.vertices():
                if g.type(v) == 1 and rng.random() < 0.6:
                    g.set_phase(v, rng.choice(gens.T8[1::2]))
    else:
        c = gens.rand_circuit(rng, (1, 3), (2, 40), gens.GATES_T)
        g = c.to_graph()
        n = c.qubits
        g.apply_state(''.join(rng.choice('01+-') for _ in range(n)))
        if closed:
            g.apply_effect(''.join(rng.choice('01+-') for _ in range(n)))
        zx.to_graph_like(g)
    return g


def total(terms, like):
    t = np.zeros(like.shape, dtype=complex)
    for h in terms:
        t = t + refsem.graph_tensor(h)
    return t


@S.bounded('replace_magic_states', quick=600, thorough=10000, split=4, limit=250, bound='graph-like diagrams of up to 14 spiders with quarter-turn phases, chosen by degree or at random',
           functions=['replace_magic_states', 'replace_B60', 'replace_B66', 'replace_E6', 'replace_O6', 'replace_K6', 'replace_phi1', 'replace_phi2', 'replace_2_S', 'replace_2_N', 'replace_1_0', 'replace_1_1'])
def _(c):
    from pyzx.simulate import replace_magic_states
    import random
    rng = c.rng
    g = glike(rng, big=rng.random() < 0.5)
    if not tlike(g):
        raise Skip()
    pick = rng.choice([False, False, True, rng.randrange(1000)])
    random.seed(rng.randrange(10 ** 6))
    c.note(diagram=gens.describe(g), pick=pick)
    m = refsem.graph_tensor(g)
    s = gens.snapshot(g)
    k = len(tlike(g))
    r = replace_magic_states(g, pick)
    c.check(gens.snapshot(g) == s, 'the diagram was changed', key='replace changes the diagram')
    c.check(refsem.close(total(r.graphs, m), m, 1e-7), 'the terms do not add up to the diagram', key='replace sum')
    c.check(all(len(tlike(h)) < k for h in r.graphs), 'a term has as many magic states as before', key='replace progress')
    c.check(all(h is not h2 for h, h2 in itertools.combinations(r.graphs, 2)) and all(h is not g for h in r.graphs), 'terms share a diagram', key='replace aliasing')
    c.check(all(len(h.inputs()) == len(g.inputs()) and len(h.outputs()) == len(g.outputs()) for h in r.graphs), 'interface changed', key='replace interface')
    t = r.to_tensor()
    c.check(refsem.close(t, m, 1e-7), 'the tensor of the sum is wrong', key='SumGraph tensor')
    c.check(refsem.close(r.to_matrix(), m.reshape(2 ** len(g.outputs()), -1), 1e-7), 'the matrix of the sum is wrong', key='SumGraph matrix')
    if rng.random() < 0.5:
        r.full_reduce()
        c.check(refsem.close(total(r.graphs, m), m, 1e-6), 'reducing the terms changes the sum', key='SumGraph full_reduce')
    c.sig((s, str(pick)))


@S.bounded('six spiders', quick=80, thorough=600, exhaustive=False, bound='every numbering and choice of 1 to 7 T-like spiders with a wire each, any odd quarter turns', functions=['replace_magic_states'])
def _(c):
    from pyzx.simulate import replace_magic_states
    from pyzx.utils import VertexType, EdgeType
    import random
    rng = c.rng
    n = c.i % 7 + 1
    g = gens.new_graph('simple')
    vs = [g.add_vertex(VertexType.Z, i, 1, phase=rng.choice(gens.T8[1::2])) for i in range(n)]
    outs = [g.add_vertex(VertexType.BOUNDARY, i, 2) for i in range(n)]
    for v, o in zip(vs, outs):
        g.add_edge((v, o), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    for a, b in itertools.combinations(vs, 2):
        if rng.random() < 0.3:
            g.add_edge((a, b), EdgeType.HADAMARD)
    g.set_outputs(tuple(outs))
    random.seed(rng.randrange(10 ** 6))
    c.note(diagram=gens.describe(g))
    m = refsem.graph_tensor(g)
    pick = rng.random() < 0.5
    r = replace_magic_states(g, pick)
    c.check(refsem.close(total(r.graphs, m), m, 1e-7), 'the terms do not add up to the diagram', key='replace sum')
    c.sig(gens.snapshot(g))


@S.bounded('find_stabilizer_decomp', quick=150, thorough=2500, split=4, limit=300, bound='closed graph-like diagrams of up to 14 spiders', functions=['find_stabilizer_decomp', 'replace_magic_states', 'reduce_scalar', 'max_terms_needed'])
def _(c):
    from pyzx.simulate import find_stabilizer_decomp, max_terms_needed
    import random
    rng = c.rng
    g = glike(rng, closed=True)
    if g.num_vertices() == 0 or len(tlike(g)) > 9:
        raise Skip()
    random.seed(rng.randrange(10 ** 6))
    c.note(diagram=gens.describe(g))
    m = refsem.graph_tensor(g)
    s = gens.snapshot(g)
    lim = max_terms_needed(g)
    r = find_stabilizer_decomp(g)
    c.check(not tlike(g) or gens.snapshot(g) == s, 'the diagram was changed', key='decomp changes the diagram')
    c.check(refsem.close(total(r, m), m, 1e-6), 'the terms do not add up to the diagram', key='decomp sum')
    c.check(all(Fraction(h.phase(v)).denominator <= 2 for h in r for v in h.vertices()), 'a term is not Clifford', key='decomp not Clifford')
    c.check(len(r) <= max(lim, 1), '%d terms, %d promised' % (len(r), lim), key='decomp terms')
    c.sig((s,))


@S.bounded('path sums', quick=800, thorough=12000, split=4, limit=250, bound='closed diagrams after full_reduce, up to 8 variables', functions=['calculate_path_sum'])
def _(c):
    from pyzx.simulate import calculate_path_sum
    import pyzx as zx
    rng = c.rng
    g = glike(rng, closed=True, big=True)
    how = rng.choice(['full_reduce', 'full_reduce', 'reduce_scalar'])
    (zx.full_reduce if how == 'full_reduce' else zx.simplify.reduce_scalar)(g)
    if g.num_vertices() > 12:
        raise Skip()
    c.note(diagram=gens.describe(g), how=how)
    m = refsem.graph_tensor(g)
    s = gens.snapshot(g)
    v = calculate_path_sum(g)
    c.check(gens.snapshot(g) == s, 'the diagram was changed', key='path sum changes the diagram')
    c.check(abs(v - m) <= 1e-7 * max(1, abs(m)), 'path sum %s, expected %s' % (v, m), key='path sum value')
    c.sig((s,))


EFF = {'0': [1, 0], '1': [0, 1], '+': [2 ** -.5, 2 ** -.5], '-': [2 ** -.5, -2 ** -.5]}


@S.bounded('post_select', quick=600, thorough=8000, split=2, bound='sums of up to 3 diagrams with up to 4 outputs, wires included, any effects', functions=['SumGraph.post_select'])
def _(c):
    from pyzx.simulate import SumGraph
    rng = c.rng
    no = rng.randint(1, 4)
    ni = rng.randint(0, 2)
    gs = [gens.rand_graph(rng, types=(1,) if rng.random() < 0.5 else (1, 2), nv=(1, 5), io=(ni, ni, no, no)) for _ in range(rng.randint(1, 3))]
    sel = {q: rng.choice('01+-') for q in rng.sample(range(no), rng.randint(0, no))}
    c.note(terms=[gens.describe(g) for g in gs], select={str(k): v for k, v in sel.items()})
    m = sum(refsem.graph_tensor(g) for g in gs)
    s = [gens.snapshot(g) for g in gs]
    r = SumGraph(gs).post_select(sel)
    c.check([gens.snapshot(g) for g in gs] == s, 'post-selection changed a term', key='post_select changes')
    for q in sorted(sel, reverse=True):
        m = np.tensordot(m, np.array(EFF[sel[q]], dtype=complex), axes=(q, 0))
    c.check(refsem.close(total(r.graphs, np.array(m)), m, 1e-7), 'not the post-selected map', key='post_select map')
    c.sig((tuple(map(str, s)), str(sel)))


@S.bounded('random inner products', quick=250, thorough=3000, split=2, bound='sums of up to 3 Clifford states on up to 3 qubits; the value must be the inner product with one of the equatorial stabiliser effects', functions=['SumGraph.inner_product_with_random_state'])
def _(c):
    from pyzx.simulate import SumGraph
    import pyzx as zx
    import random
    rng = c.rng
    q = rng.randint(0, 3)
    gs = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.5 and q:
            g = gens.rand_circuit(rng, (q, q), (0, 10), gens.GATES_CLIFF).to_graph()
            g.apply_state(''.join(rng.choice('01+-') for _ in range(q)))
            if rng.random() < 0.7:
                zx.full_reduce(g)
        else:
            g = gens.rand_graph(rng, types=(1, 2), nv=(1, 5), io=(0, 0, q, q), phases='clifford')
            if rng.random() < 0.7:
                zx.full_reduce(g)
        gs.append(g)
    c.note(terms=[gens.describe(g) for g in gs])
    m = sum(refsem.graph_tensor(g) for g in gs)
    random.seed(rng.randrange(10 ** 6))
    s = [gens.snapshot(g) for g in gs]
    v = SumGraph(gs).inner_product_with_random_state()
    c.check([gens.snapshot(g) for g in gs] == s, 'a term was changed', key='inner product changes')
    m = np.asarray(m).reshape(-1)
    pairs = list(itertools.combinations(range(q), 2))
    xs = list(itertools.product([0, 1], repeat=q))
    best = None
    for ph in itertools.product(range(4), repeat=q):
        for cz in itertools.product([0, 1], repeat=len(pairs)):
            e = np.array([1j ** sum(p * x for p, x in zip(ph, xx)) * (-1) ** sum(k * xx[a] * xx[b] for k, (a, b) in zip(cz, pairs)) for xx in xs])
            d = abs(e @ m - v)
            best = d if best is None else min(best, d)
    c.check(best < 1e-7 * max(1, abs(m).max()), 'the value %s is no inner product with an equatorial state' % v, key='inner product value')
    c.sig((tuple(map(str, s)),))


@S.bounded('norms and samples', quick=24, thorough=200, split=4, limit=250, bound='computational basis states on up to 3 qubits, where norm estimation and sampling are exact', functions=['SumGraph.estimate_norm', 'SumGraph.sample'])
def _(c):
    from pyzx.simulate import SumGraph
    import pyzx as zx
    import random
    rng = c.rng
    q = rng.randint(1, 3)
    circ = gens.rand_circuit(rng, (q, q), (0, 6), [('NOT', 1), ('Z', 1), ('CNOT', 2), ('SWAP', 2), ('CZ', 2), ('S', 1)])
    g = circ.to_graph()
    st = ''.join(rng.choice('01') for _ in range(q))
    g.apply_state(st)
    if rng.random() < 0.5:
        zx.full_reduce(g)
    m = refsem.graph_tensor(g).reshape(-1)
    k = int(np.argmax(abs(m)))
    bits = [int(b) for b in bin(k)[2:].zfill(q)]
    random.seed(rng.randrange(10 ** 6))
    c.note(gates=[str(x) for x in circ.gates], state=st)
    gsum = SumGraph([g])
    nrm = gsum.estimate_norm(0.5)
    c.check(abs(nrm - float((abs(m) ** 2).sum())) < 1e-7, 'norm of a basis state estimated as %s' % nrm, key='estimate_norm')
    qs = rng.sample(range(q), rng.randint(1, q))
    ps = {x: str(bits[x]) for x in range(q) if x not in qs and rng.random() < 0.5}
    r = gsum.sample(qs, post_selected=ps or None, amount=2, epsilon=0.5)
    want = [(x, bits[x]) for x in qs]
    c.check(len(r) == 2 and all(list(map(tuple, o)) == want for o in r), 'sampled %s, the state is %s' % (r, bits), key='sample')
    c.sig((st, tuple(qs), c.i))


from props import c21p  # noqa: E402
c21p.register(S)
