"""C09: adding parallel edges and self-loops preserves the linear map."""
import itertools
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C09', 'proof',
          note='Contract of add_edge / add_edge_table: linear map of the result = linear map of the diagram in which all those edges are drawn (a sum over the '
               'endpoint legs with one factor per parallel edge).',
          rule='bounded part: a context diagram, a vertex pair and a sequence of edges; non-trivial = distinct (diagram, edges)')


def drawn(g, extra):
    """linear map of g with the extra edges drawn as wires: every extra edge goes through a fresh identity Z-H-Z / Z-Z chain, so nothing is parallel"""
    from pyzx.utils import VertexType, EdgeType
    h = g.copy()
    tab = dict(zip(sorted(g.vertices()), sorted(h.vertices()))) if False else dict(zip(list(g.vertices()), list(h.vertices())))
    sc = 0
    for (s, t), et in extra:
        a, b = h.add_vertex(VertexType.Z), h.add_vertex(VertexType.Z)
        h.add_edge((tab[s], a), EdgeType.SIMPLE)
        h.add_edge((a, b), et)
        h.add_edge((b, tab[t]), EdgeType.SIMPLE)
    return refsem.graph_matrix(h)


def make(rng, types, backend=None, n=2, hbox=False):
    from pyzx.utils import VertexType as VT, EdgeType as ET
    g = gens.new_graph(backend)
    vs = []
    for i, ty in enumerate(types):
        v = g.add_vertex(VT(ty), phase=gens.phase(rng, 'mix'))
        if ty == VT.Z_BOX:
            from pyzx.utils import set_z_box_label
            g.set_phase(v, 0)
            if rng.random() < 0.8:
                set_z_box_label(g, v, rng.choice([0.5, 2, -1, 1 + 0.5j, 3, 0]))
        vs.append(v)
    ins, outs = [], []
    for v in vs:
        for _ in range(rng.choice([1, 1, 2])):
            b = g.add_vertex(VT.BOUNDARY)
            g.add_edge((b, v), rng.choice([ET.SIMPLE, ET.HADAMARD]))
            (ins if rng.random() < 0.5 else outs).append(b)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    gens.rand_scalar(g, rng)
    return g, vs


PAIRS = [(a, b) for a in (1, 2, 4) for b in (1, 2, 4)]
Z_BOX = 4


def zt():
    from pyzx.utils import VertexType
    return {1: VertexType.Z, 2: VertexType.X, 4: VertexType.Z_BOX}


SEQS = [s for k in (1, 2, 3) for s in itertools.product((1, 2), repeat=k)]
ALL = [(p, s, b, api) for p in PAIRS for s in SEQS for b in ('simple', 'multigraph') for api in ('add_edge', 'add_edges', 'table')]


def rename(desc):
    return desc


@S.bounded('all type pairs, all sequences of up to three edges', quick=len(ALL), thorough=len(ALL), bound='two spiders with one or two legs each, up to 3 parallel edges, exhaustive in types, colours, order, backend and API', split=8, exhaustive=True,
           functions=['GraphS.add_edge', 'GraphS.add_edges', 'Multigraph.add_edge', 'BaseGraph.add_edge_table'])
def _(c):
    from pyzx.utils import EdgeType as ET
    rng = c.rng
    (a, b), seq, backend, api = ALL[c.i]
    T = zt()
    g, (v, w) = make(rng, (T[a], T[b]), backend)
    if rng.random() < 0.5:
        v, w = w, v
    c.note(diagram=gens.describe(g), types=(a, b), edges=list(seq), backend=backend, api=api)
    c.sig(ALL[c.i])
    ref = drawn(g, [((v, w), ET(e)) for e in seq])
    nv, ins, outs = g.num_vertices(), g.inputs(), g.outputs()
    if api == 'table':
        g.add_edge_table({(v, w): [seq.count(1), seq.count(2)]})
    elif api == 'add_edge':
        for e in seq:
            g.add_edge((v, w) if rng.random() < 0.5 else (w, v), ET(e))
    else:
        for e in seq:
            g.add_edges([(v, w)], ET(e))
    c.check(refsem.close(refsem.graph_matrix(g), ref), '%s: parallel edges %s between types %s,%s do not have their linear map' % (api, seq, a, b), key='parallel %s %s' % (backend, api))
    c.check(g.num_vertices() == nv and g.inputs() == ins and g.outputs() == outs, 'vertices or interface changed', key='frame')
    if api == 'add_edge' and backend == 'simple':
        c.check(len(list(g.edges(v, w))) <= 1, 'more than one edge kept', key='reduced')


LOOPS = [(t, s, b, api) for t in (1, 2, 4) for s in SEQS for b in ('simple', 'multigraph') for api in ('add_edge', 'add_edges', 'table')]


@S.bounded('self-loops', quick=len(LOOPS), thorough=len(LOOPS), bound='one spider with up to two legs, up to 3 self-loops, exhaustive in type, colours, backend and API', split=4, exhaustive=True,
           functions=['GraphS.add_edge', 'Multigraph.add_edge'])
def _(c):
    from pyzx.utils import EdgeType as ET
    rng = c.rng
    t, seq, backend, api = LOOPS[c.i]
    g, (v,) = make(rng, (zt()[t],), backend)
    c.note(diagram=gens.describe(g), type=t, loops=list(seq), backend=backend, api=api)
    c.sig(LOOPS[c.i])
    ref = drawn(g, [((v, v), ET(e)) for e in seq])
    if api == 'table':
        g.add_edge_table({(v, v): [seq.count(1), seq.count(2)]})
    elif api == 'add_edge':
        for e in seq:
            g.add_edge((v, v), ET(e))
    else:
        for e in seq:
            g.add_edges([(v, v)], ET(e))
    c.check(refsem.close(refsem.graph_matrix(g), ref), '%s: self-loops %s on type %s do not have their linear map' % (api, seq, t), key='loop %s %s' % (backend, api))
    c.check(v not in g.neighbors(v) and all(g.edge_s(e) != g.edge_t(e) for e in g.edges()), 'a self-loop remains', key='loop remains')


@S.bounded('edge tables on random diagrams', quick=800, thorough=15000, bound='up to 6 spiders, multiplicities up to 6 per colour', split=8, functions=['BaseGraph.add_edge_table', 'rules.apply_rule'])
def _(c):
    rng = c.rng
    from pyzx.utils import EdgeType as ET
    g = gens.rand_graph(rng, nv=(1, 5), io=(0, 2, 0, 2), maxdeg=4, density=0.35, backend=rng.choice(['simple', 'multigraph']))
    vs = [v for v in g.vertices() if g.type(v) in (1, 2)]
    tab, extra = {}, []
    budget = 10
    for _ in range(rng.randint(1, 4)):
        s, t = rng.choice(vs), rng.choice(vs)
        from pyzx.graph.base import upair
        k = upair(s, t)
        if k in tab:
            continue
        m = [rng.choice([0, 0, 1, 2, 3, 4, 5, 6]), rng.choice([0, 0, 1, 2, 3, 4, 5, 6])]
        while sum(m) > budget:
            m[rng.randrange(2)] = 0
        budget -= sum(m)
        tab[k] = m
        extra += [(k, ET.SIMPLE)] * m[0] + [(k, ET.HADAMARD)] * m[1]
    c.note(diagram=gens.describe(g), table={str(k): v for k, v in tab.items()})
    c.sig((gens.describe(g), sorted(tab.items())))
    ref = drawn(g, extra)
    keep = {k: list(v) for k, v in tab.items()}
    nv = g.num_vertices()
    g.add_edge_table(tab)
    c.check(refsem.close(refsem.graph_matrix(g), ref), 'edge table does not have its linear map', key='table')
    c.check(g.num_vertices() == nv and tab == keep, 'frame', key='table frame')


from props import c09p  # noqa: E402
c09p.register(S)
