"""C24: search congruences preserve the linear map up to a nonzero scalar."""
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C24', 'proof',
          note='Contract of lc_cong, lc_cong2 (any spider for which is_lc_vertex), pivot_cong (any edge for which is_pivot_edge) and unfuse (any spider) on a graph-like diagram: ensures the map is a nonzero multiple of the old one and the interface is the same. Contract of anneal and GeneticOptimizer.evolve: the argument is unchanged, the result denotes the same map up to a nonzero scalar; every mutant is a diagram and circuit with that map.',
          rule='bounded part: random graph-like diagrams, each admissible subject; non-trivial = distinct diagram and subject')


def diagram(rng, phases='mix', io=(0, 2, 0, 2)):
    """graph-like: Z spiders joined by Hadamard edges, every boundary on a spider of its own choice"""
    import pyzx as zx
    r = rng.random()
    if r < 0.65:
        return gens.graph_like(rng, nv=(2, 8), io=io, phases=phases, density=rng.choice([0.3, 0.5, 0.8]), backend=rng.choice(['simple', 'simple', 'multigraph']))
    g = gens.rand_circuit(rng, (1, 4), (1, 25), rng.choice([gens.GATES_T, gens.GATES_BASIC, gens.GATES_CLIFF])).to_graph()
    if r < 0.75:
        zx.to_graph_like(g)
    elif r < 0.85:
        zx.simplify.interior_clifford_simp(g)
    else:
        zx.full_reduce(g)
    return g


def gl(g):
    return all(g.type(v) in (0, 1) for v in g.vertices()) and all(g.edge_type(e) == 2 or 0 in (g.type(g.edge_st(e)[0]), g.type(g.edge_st(e)[1])) for e in g.edges())


def judge(c, g, m, ins, outs, what, s, sub):
    c.check(tuple(g.inputs()) == ins and tuple(g.outputs()) == outs, '%s changed the interface' % what, key='interface %s' % what)
    c.check(refsem.close_up_to_scalar(refsem.graph_matrix(g), m, 1e-8), '%s at %s changes the map' % (what, sub), key='map %s' % what)
    c.sig((s, what, str(sub)))


def task(name, doc):
    @S.bounded(name, quick=1200, thorough=20000, split=2, limit=250, bound='graph-like diagrams of up to about 14 vertices, ' + doc, functions=[name, 'toggle_edge', 'toggle_subset_connectivity'])
    def _(c):
        from pyzx.local_search import congruences as K
        rng = c.rng
        g = diagram(rng)
        if not gl(g):
            raise Skip()
        m = refsem.graph_matrix(g)
        ins, outs = tuple(g.inputs()), tuple(g.outputs())
        s = gens.snapshot(g)
        zero = abs(m).max() < 1e-9
        c.note(diagram=gens.describe(g), backend=type(g).__name__)
        if name in ('lc_cong', 'lc_cong2'):
            vs = [v for v in g.vertices() if K.is_lc_vertex(g, v)]
            c.check(all(g.type(v) == 1 and g.vertex_degree(v) >= 2 and all(g.type(w) == 1 for w in g.neighbors(v)) for v in vs), 'subject is no interior spider', key='is_lc_vertex')
            if not vs or zero:
                raise Skip()
            sub = rng.choice(vs)
            c.note(subject=sub)
            getattr(K, name)(g, sub)
        elif name == 'pivot_cong':
            es = [e for e in g.edges() if K.is_pivot_edge(g, e)]
            c.check(all(g.type(x) == 1 for e in es for x in g.edge_st(e)), 'subject is no edge between spiders', key='is_pivot_edge')
            if not es or zero:
                raise Skip()
            sub = g.edge_st(rng.choice(es))
            if rng.random() < 0.5:
                sub = sub[::-1]
            c.note(subject=sub)
            K.pivot_cong(g, *sub)
        else:
            vs = [v for v in g.vertices() if g.type(v) == 1]
            if not vs or zero:
                raise Skip()
            sub = rng.choice(vs)
            c.note(subject=sub)
            w = K.unfuse(g, sub)
            c.check(g.type(w) == 1 and all(g.type(b) != 0 for b in g.neighbors(sub)) and g.phase(sub) == 0, 'boundaries or phase stay behind', key='unfuse')
        judge(c, g, m, ins, outs, name, s, sub)


for _n, _d in [('lc_cong', 'every admissible spider'), ('lc_cong2', 'every admissible spider'), ('pivot_cong', 'every edge between spiders, both orders'), ('unfuse', 'every spider')]:
    task(_n, _d)


@S.bounded('random moves', quick=600, thorough=8000, split=2, limit=250, bound='up to 6 random moves in a row', functions=['apply_rand_lc', 'apply_rand_pivot'])
def _(c):
    from pyzx.local_search import congruences as K
    rng = c.rng
    g = diagram(rng)
    if not gl(g):
        raise Skip()
    m = refsem.graph_matrix(g)
    if abs(m).max() < 1e-9:
        raise Skip()
    ins, outs = tuple(g.inputs()), tuple(g.outputs())
    s = gens.snapshot(g)
    np.random.seed(rng.randrange(2 ** 31))
    moves = [rng.choice(['lc', 'pivot']) for _ in range(rng.randint(1, 6))]
    c.note(diagram=gens.describe(g), moves=moves)
    for k in moves:
        if g.num_vertices() > 24 or max(g.vertex_degree(v) for v in g.vertices()) > 14:
            break
        (K.apply_rand_lc if k == 'lc' else K.apply_rand_pivot)(g)
        c.check(gl(g), 'no longer graph-like', key='graph-like')
    try:
        judge(c, g, m, ins, outs, 'random moves', s, moves)
    except MemoryError:
        raise Skip()


def cmap(c):
    return gens.circuit_matrix(c)


@S.bounded('anneal', quick=40, thorough=600, split=4, limit=300, bound='circuits of up to 4 qubits and 20 gates, up to 15 iterations, any temperature', functions=['anneal', 'g_wgc'])
def _(c):
    import pyzx as zx
    import random
    from pyzx.local_search.simulated_annealing import anneal
    rng = c.rng
    circ = gens.rand_circuit(rng, (1, 4), (0, 20), rng.choice([gens.GATES_T, gens.GATES_CLIFF, gens.GATES_BASIC]))
    g = circ.to_graph()
    pre = rng.choice(['full_reduce', 'full_reduce', 'interior_clifford_simp', 'to_graph_like'])
    {'full_reduce': zx.full_reduce, 'interior_clifford_simp': zx.simplify.interior_clifford_simp, 'to_graph_like': zx.to_graph_like}[pre](g)
    m = refsem.graph_matrix(g)
    s = gens.snapshot(g)
    random.seed(rng.randrange(2 ** 31))
    np.random.seed(rng.randrange(2 ** 31))
    kw = dict(iters=rng.randint(0, 15), temp=rng.choice([0, 1, 25]), full_reduce_prob=rng.choice([0, 0.1, 0.5]), reset_prob=rng.choice([0, 0.5]), quiet=True)
    c.note(gates=[str(x) for x in circ.gates], pre=pre, options=kw)
    r, scores = anneal(g, **kw)
    c.check(gens.snapshot(g) == s, 'the argument was changed', key='anneal changes its argument')
    c.check(refsem.close_up_to_scalar(refsem.graph_matrix(r), m, 1e-8), 'annealing changes the map', key='map anneal')
    c.check(len(scores) == kw['iters'] and all(a >= b for a, b in zip(scores, scores[1:])), 'best scores are not monotone', key='anneal scores')
    c.sig((s, str(kw)))


@S.bounded('genetic', quick=24, thorough=300, split=4, limit=300, bound='circuits of up to 4 qubits and 20 gates, up to 4 mutants and 4 generations', functions=['GeneticOptimizer.evolve', 'rand_pivot', 'rand_lc', 'wgc'])
def _(c):
    import random
    from pyzx.local_search.genetic import GeneticOptimizer
    rng = c.rng
    circ = gens.rand_circuit(rng, (1, 4), (0, 20), rng.choice([gens.GATES_T, gens.GATES_CLIFF, gens.GATES_BASIC]))
    g = circ.to_graph()
    if rng.random() < 0.5:
        import pyzx as zx
        zx.full_reduce(g)
    m = refsem.graph_matrix(g)
    s = gens.snapshot(g)
    random.seed(rng.randrange(2 ** 31))
    np.random.seed(rng.randrange(2 ** 31))
    k, n = rng.randint(2, 4), rng.randint(0, 4)
    c.note(gates=[str(x) for x in circ.gates], mutants=k, generations=n)
    o = GeneticOptimizer()
    r = o.evolve(g, k, n)
    c.check(gens.snapshot(g) == s, 'the argument was changed', key='evolve changes its argument')
    c.check(refsem.close_up_to_scalar(refsem.graph_matrix(r), m, 1e-8), 'evolution changes the map', key='map evolve')
    for x in o.mutants:
        c.check(refsem.close_up_to_scalar(refsem.graph_matrix(x.g_curr), m, 1e-8), 'the diagram of a mutant has another map', key='map mutant diagram')
        c.check(refsem.close_up_to_scalar(gens.circuit_matrix(x.c_curr), m, 1e-8), 'the circuit of a mutant has another map', key='map mutant circuit')
    c.sig((s, k, n))


from props import c24p  # noqa: E402
c24p.register(S)
