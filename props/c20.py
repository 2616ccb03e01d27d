"""C20: rewriting of diagrams with H-boxes preserves the linear map."""
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C20', 'proof',
          note='Contract of each matcher/rule pair of hrules.py applied as simplify.simp applies it, and of each procedure of hsimplify.py: ensures graph_matrix(g) = graph_matrix(old(g)), scalar included, interface unchanged; the conversions reach their documented form. A result that the backend cannot hold (parallel edges that do not simplify) is rejected with a ValueError.',
          rule='bounded part: diagrams with planted patterns of each rule, judged by the reference semantics; non-trivial = distinct diagram changed by the rewrite')


def base(rng, backend):
    return gens.new_graph(backend)


def loose(g, rng):
    """some multigraphs keep their parallel edges"""
    if type(g).__name__ == 'Multigraph' and rng.random() < 0.3:
        g.set_auto_simplify(False)


def boundaries(g, rng, vs, lim=3):
    from pyzx.utils import VertexType, EdgeType
    ins, outs = [], []
    for _ in range(rng.randint(0, lim)):
        b = g.add_vertex(VertexType.BOUNDARY, rng.randrange(4), rng.randrange(6))
        g.add_edge((b, rng.choice(vs)), EdgeType.SIMPLE if rng.random() < 0.75 else EdgeType.HADAMARD)
        (ins if rng.random() < 0.4 else outs).append(b)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))


def hphase(rng):
    return 1 if rng.random() < 0.6 else rng.choice([0, Fraction(1, 2), Fraction(1, 4), Fraction(3, 2), Fraction(7, 4), Fraction(1, 3)])


def zphase(rng):
    return rng.choice([0, 0, 0, 1, 1, Fraction(1, 2), Fraction(1, 4), Fraction(5, 4), Fraction(2, 7)])


def hyper(rng, backend, nots=0.25, dup=0.5, had=0.0, zp=0.3, singles=0.2, nz=(1, 5), nh=(0, 4)):
    """white spiders and H-boxes on subsets of them, some legs through NOTs, repeated H-boxes"""
    from pyzx.utils import VertexType, EdgeType
    g = base(rng, backend)
    loose(g, rng)
    vs = []
    for i in range(rng.randint(*nz)):
        v = g.add_vertex(VertexType.Z, i, rng.randrange(5))
        if rng.random() < zp:
            g.set_phase(v, zphase(rng))
        vs.append(v)
    done = []
    for _ in range(rng.randint(*nh)):
        if done and rng.random() < dup:
            ws, ph = rng.choice(done)
            if rng.random() < 0.6:
                ph = hphase(rng)
        else:
            ws = rng.sample(vs, rng.randint(0, min(3, len(vs))))
            ph = hphase(rng)
        done.append((ws, ph))
        h = g.add_vertex(VertexType.H_BOX, -1, rng.randrange(5))
        g.set_phase(h, ph)
        for w in ws:
            if rng.random() < nots:
                kind = rng.random() < 0.5
                n = g.add_vertex(VertexType.X if kind else VertexType.Z, -2, 2, phase=1 if rng.random() < 0.9 else Fraction(1, 2))
                e = EdgeType.SIMPLE if kind else EdgeType.HADAMARD
                g.add_edge((h, n), e if rng.random() < 0.95 else EdgeType.HADAMARD)
                g.add_edge((n, w), e if rng.random() < 0.9 else EdgeType.SIMPLE)
                if rng.random() < 0.2 and not g.connected(h, w):
                    g.add_edge((h, w), EdgeType.SIMPLE)
            else:
                g.add_edge((h, w), EdgeType.HADAMARD if rng.random() < had else EdgeType.SIMPLE)
        if rng.random() < singles:
            for _ in range(rng.randint(1, 2)):
                s = g.add_vertex(rng.choice([VertexType.Z, VertexType.Z, VertexType.X, VertexType.H_BOX]), -3, 1)
                g.set_phase(s, rng.choice([0, 0, 1, Fraction(1, 4)]))
                g.add_edge((s, h), EdgeType.SIMPLE if rng.random() < 0.75 else EdgeType.HADAMARD)
    for i in range(len(vs)):
        for j in range(i):
            if rng.random() < 0.15:
                g.add_edge((vs[i], vs[j]), EdgeType.HADAMARD)
    boundaries(g, rng, vs)
    gens.rand_scalar(g, rng)
    return g


def mixed(rng, backend, types=(1, 2, 3, 3), nv=(1, 7), density=None):
    """anything over Z, X and H-boxes, leaves with phase 0 or pi included"""
    from pyzx.utils import VertexType, EdgeType
    g = base(rng, backend)
    loose(g, rng)
    vs = []
    density = density or rng.choice([0.25, 0.4, 0.6])
    for i in range(rng.randint(*nv)):
        ty = rng.choice(types)
        v = g.add_vertex(VertexType(ty), i % 3, i)
        g.set_phase(v, hphase(rng) if ty == 3 else zphase(rng))
        vs.append(v)
    et = lambda: rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD])
    for i in range(len(vs)):
        for j in range(i):
            if rng.random() < density and max(g.vertex_degree(vs[i]), g.vertex_degree(vs[j])) < 4:
                g.add_edge((vs[i], vs[j]), et())
    for _ in range(rng.randint(0, 2)):
        s = g.add_vertex(VertexType(rng.choice([1, 2, 3])), 0, 0, phase=rng.choice([0, 1, 1, Fraction(1, 2)]))
        g.add_edge((s, rng.choice(vs)), et())
    boundaries(g, rng, vs)
    gens.rand_scalar(g, rng)
    return g


def circuit(rng, backend):
    """hypergraph-friendly circuits with Toffoli gates as H-boxes"""
    from pyzx.utils import VertexType, EdgeType
    g = base(rng, backend)
    loose(g, rng)
    n = rng.randint(2, 4)
    ins = [g.add_vertex(VertexType.BOUNDARY, i, 0) for i in range(n)]
    cur = list(ins)
    last = {i: EdgeType.SIMPLE for i in range(n)}

    def spider(q, r, ty=VertexType.Z, ph=0):
        v = g.add_vertex(ty, q, r, phase=ph)
        g.add_edge((cur[q], v), last[q])
        cur[q], last[q] = v, EdgeType.SIMPLE
        return v
    for r in range(1, rng.randint(1, 6)):
        k = rng.random()
        if k < 0.3:
            q = rng.randrange(n)
            last[q] = EdgeType.HADAMARD if last[q] == EdgeType.SIMPLE else EdgeType.SIMPLE
        elif k < 0.45:
            spider(rng.randrange(n), r, rng.choice([VertexType.Z, VertexType.X]), zphase(rng))
        elif k < 0.6:
            a, b = rng.sample(range(n), 2)
            g.add_edge((spider(a, r), spider(b, r, VertexType.X)), EdgeType.SIMPLE)
            g.scalar.add_power(1)
        else:
            qs = rng.sample(range(n), rng.randint(2, min(3, n)))
            h = g.add_vertex(VertexType.H_BOX, n, r)
            g.set_phase(h, hphase(rng))
            for q in qs:
                g.add_edge((h, spider(q, r)), EdgeType.SIMPLE)
    outs = [g.add_vertex(VertexType.BOUNDARY, i, 9) for i in range(n)]
    for i in range(n):
        g.add_edge((cur[i], outs[i]), last[i])
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    return g


def hadpairs(rng, backend):
    """Hadamard gates as H-boxes in series, in parallel and on boundaries"""
    from pyzx.utils import VertexType, EdgeType
    g = base(rng, backend)
    loose(g, rng)
    vs = [g.add_vertex(VertexType(rng.choice([1, 1, 2, 3])), i, 0, phase=rng.choice([0, 1, Fraction(1, 4)])) for i in range(rng.randint(1, 4))]
    et = lambda: rng.choice([EdgeType.SIMPLE, EdgeType.SIMPLE, EdgeType.HADAMARD])
    for _ in range(rng.randint(1, 5)):
        h = g.add_vertex(VertexType.H_BOX, 0, 0)
        g.set_phase(h, 1 if rng.random() < 0.8 else hphase(rng))
        ws = rng.sample(vs, min(len(vs), rng.choice([1, 2, 2, 2, 3])))
        for w in ws:
            g.add_edge((h, w), et())
        if rng.random() < 0.3:
            vs.append(h)
    for i in range(len(vs)):
        for j in range(i):
            if rng.random() < 0.2 and not g.connected(vs[i], vs[j]):
                g.add_edge((vs[i], vs[j]), et())
    boundaries(g, rng, vs)
    gens.rand_scalar(g, rng)
    return g


BACK = ['simple', 'simple', 'multigraph']


def draw(rng):
    b = rng.choice(BACK)
    r = rng.random()
    if r < 0.3:
        return hyper(rng, b)
    if r < 0.4:
        return hyper(rng, b, nots=0.6, dup=0.9, zp=0, singles=0.5)
    if r < 0.5:
        return hyper(rng, b, had=0.3)
    if r < 0.75:
        return mixed(rng, b)
    if r < 0.87:
        return circuit(rng, b)
    return hadpairs(rng, b)


def judge(c, g, m, what, s0, ins, outs):
    c.check(tuple(g.inputs()) == ins and tuple(g.outputs()) == outs, '%s changed the interface' % what, key='interface %s' % what)
    try:
        m2 = refsem.graph_matrix(g)
    except ValueError as e:
        c.check(False, '%s leaves no well-formed diagram: %s' % (what, e), key='malformed %s' % what)
        return
    c.check(refsem.close(m, m2, 1e-7), '%s does not preserve the linear map' % what, key='map %s' % what)
    s = gens.snapshot(g)
    if s != s0:
        c.sig((s0, what))


def rejected(e):
    return 'unreducible' in str(e) or 'unknown edge_type or vertex types' in str(e)


def apply(g, match, rule, matchf=None):
    m = match(g) if matchf is None else match(g, matchf)
    if not m:
        raise Skip()
    if rule.__name__ in ('zero_hbox', 'hpivot'):
        rule(g, m)
        return m
    etab, rem_v, rem_e, iso = rule(g, m)
    g.add_edge_table(etab)
    g.remove_edges(rem_e)
    g.remove_vertices(rem_v)
    if iso:
        g.remove_isolated_vertices()
    return m


RULES = ['match_hadamards hadamard_to_h_edge', 'match_connected_hboxes fuse_hboxes', 'match_copy apply_copy', 'match_hbox_parallel_not hbox_parallel_not_remove',
         'match_par_hbox par_hbox', 'match_par_hbox_intro par_hbox_intro', 'match_hpivot hpivot', 'match_zero_hbox zero_hbox']


def drawfor(rng, i):
    b = rng.choice(BACK)
    r = rng.random()
    if r < 0.4:
        return draw(rng)
    if i == 0:
        return hadpairs(rng, b)
    if i == 1:
        return mixed(rng, b, types=(3, 3, 1), nv=(2, 5), density=0.5)
    if i == 2:
        return mixed(rng, b)
    if i == 3:
        return hyper(rng, b, nots=0.5, dup=0.3, singles=0.1)
    if i in (4, 5):
        return hyper(rng, b, nots=0.4, dup=0.9, zp=0.1, singles=0.4)
    return hyper(rng, b, nots=0, zp=0, singles=0.1)


def rule_task(i, names):
    mn, rn = names.split()

    @S.bounded(rn, quick=1500, thorough=30000, split=2, limit=250, bound='diagrams of up to about 12 vertices over Z, X and H-boxes with planted patterns', functions=[mn, rn])
    def _(c):
        from pyzx import hrules
        rng = c.rng
        g = drawfor(rng, i)
        if rn in ('hpivot', 'zero_hbox'):  # documented to act on hypergraph form
            from pyzx import hsimplify
            try:
                hsimplify.to_hypergraph_form(g)
            except ValueError as e:
                if not rejected(e):
                    raise
                raise Skip()
        c.note(diagram=gens.describe(g), backend=type(g).__name__)
        m = refsem.graph_matrix(g)
        s0, ins, outs = gens.snapshot(g), tuple(g.inputs()), tuple(g.outputs())
        f = None
        if rn not in ('zero_hbox',) and rng.random() < 0.25:
            keep = set(v for v in g.vertices() if rng.random() < 0.7)
            f = (lambda e: g.edge_st(e)[0] in keep) if rn == 'fuse_hboxes' else (lambda v: v in keep)
        try:
            ms = apply(g, getattr(hrules, mn), getattr(hrules, rn), f)
        except ValueError as e:
            if not rejected(e):
                raise
            raise Skip()
        c.note(matches=str(ms))
        judge(c, g, m, rn, s0, ins, outs)


for _i, _n in enumerate(RULES):
    rule_task(_i, _n)


STRATS = ['hadamard_simp', 'to_hypergraph_form', 'from_hypergraph_form', 'par_hbox_simp', 'par_hbox_intro_simp', 'copy_simp', 'hspider_simp', 'hbox_parallel_not_remove_simp', 'hpivot_simp', 'zh_simp']


def shape(c, g, name):
    """the documented forms of the conversions"""
    from pyzx.utils import VertexType, EdgeType
    if name != 'to_hypergraph_form':
        return
    for v in g.vertices():
        c.check(g.type(v) != VertexType.X, 'X spider left', key='hypergraph form')
        c.check(g.type(v) != VertexType.Z or g.phase(v) == 0, 'phase left on a white spider', key='hypergraph form')
    for e in g.edges():
        s, t = g.edge_st(e)
        c.check(not (g.type(s) == g.type(t) == VertexType.H_BOX), 'two H-boxes are joined', key='hypergraph form')
        c.check(g.edge_type(e) == EdgeType.SIMPLE or VertexType.BOUNDARY in (g.type(s), g.type(t)), 'interior Hadamard edge left', key='hypergraph form')


def strat_task(name):
    @S.bounded(name, quick=600, thorough=10000, split=2, limit=300, bound='diagrams of up to about 12 vertices over Z, X and H-boxes with planted patterns', functions=[name])
    def _(c):
        from pyzx import hsimplify
        rng = c.rng
        g = draw(rng)
        if name in ('hpivot_simp', 'zh_simp') and not getattr(g, '_auto_simplify', True):
            raise Skip()  # these use the graph-like rules of C01, whose diagrams have no parallel edges
        c.note(diagram=gens.describe(g), backend=type(g).__name__)
        m = refsem.graph_matrix(g)
        s0, ins, outs = gens.snapshot(g), tuple(g.inputs()), tuple(g.outputs())
        f = getattr(hsimplify, name)
        try:
            f(g) if name.endswith('form') else f(g, quiet=True)
        except ValueError as e:
            if not rejected(e):
                raise
            raise Skip()
        judge(c, g, m, name, s0, ins, outs)
        shape(c, g, name)


for _n in STRATS:
    strat_task(_n)

from props import c20p  # noqa: E402
c20p.register(S)
