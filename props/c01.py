"""C01: every ZX rewrite rule preserves the linear map exactly."""
from fractions import Fraction
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C01', 'proof',
          note='bounded part: every rule on random diagrams, the linear map compared exactly with the reference semantics',
          rule='bounded part: a random diagram on which the rule reports at least one match; non-trivial = distinct diagram with a match')


def outcome(g, rewrite, m):
    from pyzx import rules
    rules.apply_rule(g, rewrite, m)


def soundness(c, make, match, rewrite, tries=12, rewriter=None, after=None):
    rng = c.rng
    for _ in range(tries):
        g = make(rng)
        desc = gens.describe(g)
        ins, outs = tuple(g.inputs()), tuple(g.outputs())
        before = refsem.graph_matrix(g)
        m = match(g, rng)
        if not m:
            c.check(refsem.close(before, refsem.graph_matrix(g)), 'looking for matches changed the linear map although none was reported', diagram=desc)
            continue
        c.sig(desc)
        c.note(diagram=desc, matches=repr(m)[:500])
        if rewriter:
            rewriter(g, m)
        else:
            outcome(g, rewrite, m)
        c.check(tuple(g.inputs()) == ins and tuple(g.outputs()) == outs, 'the interface changed')
        after_ = refsem.graph_matrix(g)
        c.check(refsem.close(before, after_), 'the linear map changed%s' % ('' if not refsem.close_up_to_scalar(before, after_) else ' (by a scalar factor)'), key='linear map changed')
        if after:
            after(c, g)
        return
    raise Skip()


def zx(rng, **kw):
    r = rng.random()
    if r < 0.5:
        return gens.rand_graph(rng, **kw)
    return gens.graph_like(rng, **{k: v for k, v in kw.items() if k in ('nv', 'io', 'phases', 'backend', 'density')})


def zx_pauli(rng):
    return gens.rand_graph(rng, phases='pauli', density=0.35, had=0.25) if rng.random() < 0.5 else gens.rand_graph(rng, phases='clifford', density=0.5, had=0.7, types=(1, 1, 1, 2))


def zxh(rng):
    return gens.rand_graph(rng, types=(1, 2, 3), density=0.4)


def gl(rng, phases=None):
    return gens.graph_like(rng, phases=phases or rng.choice(['clifford', 'mix', 'T', 'pauli']), nv=(2, 7))


def bip(rng):
    """bipartite phase-free diagrams for bialgebra"""
    from pyzx.utils import VertexType, EdgeType
    g = gens.new_graph()
    zs = [g.add_vertex(VertexType.Z) for _ in range(rng.randint(1, 4))]
    xs = [g.add_vertex(VertexType.X) for _ in range(rng.randint(1, 4))]
    for z in zs:
        for x in xs:
            if rng.random() < 0.7:
                g.add_edge((z, x), EdgeType.HADAMARD if rng.random() < 0.1 else EdgeType.SIMPLE)
    ins, outs = [], []
    for _ in range(rng.randint(0, 4)):
        b = g.add_vertex(VertexType.BOUNDARY)
        g.add_edge((b, rng.choice(zs + xs)))
        (ins if rng.random() < 0.5 else outs).append(b)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    gens.rand_scalar(g, rng)
    return g


def flt(match):
    """exercise the optional filter and limit arguments as well"""
    def run(g, rng):
        r = rng.random()
        if r < 0.7 or match.__name__ in ('match_spider', 'match_bialg', 'match_ids', 'match_lcomp', 'match_pivot', 'match_gadgets_phasepoly'):
            return match(g)
        if r < 0.85:
            vs = set(v for v in g.vertices() if rng.random() < 0.7)
            return match(g, lambda x: (x in vs) if x in set(g.vertices()) else all(y in vs for y in g.edge_st(x)))
        try:
            return match(g, num=1)
        except TypeError:
            return match(g)
    return run


def copies(rng):
    from pyzx.utils import VertexType, EdgeType
    g = gl(rng, rng.choice(['pauli', 'mix', 'mix']))
    vs = [v for v in g.vertices() if g.type(v) == VertexType.Z]
    for _ in range(rng.randint(1, 3)):
        s = g.add_vertex(VertexType.Z, phase=rng.choice([0, 1]))
        g.add_edge((s, rng.choice(vs)), EdgeType.HADAMARD)
    return g


def gadgets(rng):
    from pyzx.utils import VertexType, EdgeType
    g = gens.graph_like(rng, nv=(1, 5), gadgets=0)
    vs = [v for v in g.vertices() if g.type(v) == VertexType.Z]
    sets = [rng.sample(vs, rng.randint(0, min(3, len(vs)))) for _ in range(2)]
    for _ in range(rng.randint(1, 4)):
        hub = g.add_vertex(VertexType.Z, phase=rng.choice([0, 0, 1]))
        leaf = g.add_vertex(VertexType.Z, phase=gens.phase(rng, 'mix'))
        g.add_edge((hub, leaf), EdgeType.HADAMARD)
        for w in rng.choice(sets):
            g.add_edge((hub, w), EdgeType.HADAMARD)
    return g


def suppl(rng):
    from pyzx.utils import VertexType, EdgeType
    g = gens.graph_like(rng, nv=(1, 5), gadgets=0, phases='clifford')
    vs = [v for v in g.vertices() if g.type(v) == VertexType.Z]
    for _ in range(rng.randint(1, 2)):
        a = gens.phase(rng, 'mix')
        v = g.add_vertex(VertexType.Z)
        g.set_phase(v, a)
        w = g.add_vertex(VertexType.Z)
        g.set_phase(w, rng.choice([a + 1, 1 - a, -a, a]))
        if rng.random() < 0.5:
            g.add_edge((v, w), EdgeType.HADAMARD)
        for n in rng.sample(vs, rng.randint(0, min(3, len(vs)))):
            g.add_edge((v, n), EdgeType.HADAMARD)
            g.add_edge((w, n), EdgeType.HADAMARD)
    return g


def phasepoly(rng):
    from pyzx.utils import VertexType, EdgeType
    import itertools
    g = gens.new_graph()
    n = rng.randint(4, 5)
    ins = [g.add_vertex(VertexType.BOUNDARY, i, 0) for i in range(n)]
    vs = [g.add_vertex(VertexType.Z, i, 1) for i in range(n)]
    outs = [g.add_vertex(VertexType.BOUNDARY, i, 3) for i in range(n)]
    for i in range(n):
        g.add_edge((ins[i], vs[i]))
        g.add_edge((vs[i], outs[i]))
        if rng.random() < 0.8:
            g.set_phase(vs[i], gens.phase(rng, 'T'))
    subs = [s for k in (2, 3, 4) for s in itertools.combinations(vs[:4] if rng.random() < 0.7 else vs, k)]
    rng.shuffle(subs)
    for s in subs[:rng.randint(5, 11)]:
        hub = g.add_vertex(VertexType.Z, phase=rng.choice([0, 0, 0, 1]))
        leaf = g.add_vertex(VertexType.Z, phase=Fraction(rng.choice([1, 3, 5, 7]), 4))
        g.add_edge((hub, leaf), EdgeType.HADAMARD)
        for w in s:
            g.add_edge((hub, w), EdgeType.HADAMARD)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    return g


def reg(name, make, matchname, rewritename, quick=160, thorough=6000, rewriter=None):
    @S.bounded(name, quick=quick, thorough=thorough, bound='random diagrams with at most 7 spiders plus gadgets and at most 4 boundaries', functions=['rules.' + matchname, 'rules.' + rewritename])
    def _(c):
        from pyzx import rules
        soundness(c, make, flt(getattr(rules, matchname)), getattr(rules, rewritename), rewriter=(lambda g, m: getattr(rules, rewritename)(g, m)) if rewriter else None)


reg('spider', zx, 'match_spider_parallel', 'spider')
reg('spider1', zx, 'match_spider', 'spider', quick=60)
reg('bialg', lambda rng: bip(rng) if rng.random() < 0.9 else zx_pauli(rng), 'match_bialg_parallel', 'bialg')
reg('bialg1', bip, 'match_bialg', 'bialg', quick=60)
reg('pivot', lambda rng: gl(rng, rng.choice(['pauli', 'clifford'])) if rng.random() < 0.8 else zx_pauli(rng), 'match_pivot_parallel', 'pivot', quick=240)
reg('pivot1', lambda rng: gl(rng, 'pauli'), 'match_pivot', 'pivot', quick=60)
reg('lcomp', lambda rng: gl(rng, 'clifford') if rng.random() < 0.8 else zx_pauli(rng), 'match_lcomp_parallel', 'lcomp', quick=240)
reg('lcomp1', lambda rng: gl(rng, 'clifford'), 'match_lcomp', 'lcomp', quick=60)
reg('pivot gadget', gl, 'match_pivot_gadget', 'pivot', quick=240)
reg('pivot boundary', gl, 'match_pivot_boundary', 'pivot', quick=240)
reg('ids', zx_pauli, 'match_ids_parallel', 'remove_ids')
reg('ids1', zx_pauli, 'match_ids', 'remove_ids', quick=60)
reg('phase gadgets', lambda rng: gadgets(rng) if rng.random() < 0.7 else gl(rng), 'match_phase_gadgets', 'merge_phase_gadgets', quick=240)
reg('supplementarity', lambda rng: suppl(rng) if rng.random() < 0.8 else gl(rng), 'match_supplementarity', 'apply_supplementarity', quick=240)
reg('copy', lambda rng: copies(rng) if rng.random() < 0.8 else gl(rng), 'match_copy', 'apply_copy', quick=240)
reg('phase polynomial', phasepoly, 'match_gadgets_phasepoly', 'apply_gadget_phasepoly', quick=60, rewriter=True)
reg('z to z-box', zx, 'match_z_to_z_box_parallel', 'z_to_z_box', quick=60)


@S.bounded('z-box spider fusion', quick=80, thorough=3000, bound='as spider, with Z-boxes', functions=['rules.spider', 'rules.z_to_z_box'])
def _(c):
    from pyzx import rules
    from pyzx.utils import VertexType, set_z_box_label

    def make(rng):
        g = gens.rand_graph(rng, types=(1, 1, 1, 2), had=0.3)
        for v in list(g.vertices()):
            if g.type(v) == VertexType.Z and rng.random() < 0.5:
                g.set_type(v, VertexType.Z_BOX)
                g.set_phase(v, 0)
                set_z_box_label(g, v, rng.choice([0.5, -2, 1 + 1j, 3]))
        return g
    soundness(c, make, flt(rules.match_spider_parallel), rules.spider)


@S.bounded('unspider', quick=80, thorough=3000, bound='random diagrams with at most 7 spiders', functions=['rules.unspider'])
def _(c):
    from pyzx import rules
    from pyzx.utils import VertexType

    def match(g, rng):
        vs = [v for v in g.vertices() if g.type(v) in (VertexType.Z, VertexType.X)]
        v = rng.choice(vs)
        ns = list(g.neighbors(v))
        m = [v, rng.sample(ns, rng.randint(0, len(ns)))]
        if rng.random() < 0.5:
            m.append(gens.phase(rng, 'mix'))
        return m
    soundness(c, zx, match, None, rewriter=lambda g, m: rules.unspider(g, m))


@S.bounded('w fusion', quick=60, thorough=2000, bound='random trees of W nodes', functions=['rules.match_w_fusion_parallel', 'rules.w_fusion'])
def _(c):
    from pyzx import rules
    from pyzx.utils import VertexType, EdgeType

    def make(rng):
        g = gens.new_graph()
        ws = []
        ins, outs = [], []

        def w():
            i = g.add_vertex(VertexType.W_INPUT)
            o = g.add_vertex(VertexType.W_OUTPUT)
            g.add_edge((i, o), EdgeType.W_IO)
            ws.append((i, o))
            return i, o
        w()
        b = g.add_vertex(VertexType.BOUNDARY)
        g.add_edge((b, ws[0][0]))
        ins.append(b)
        for _ in range(rng.randint(1, 3)):
            par = rng.choice(ws)
            i, o = w()
            g.add_edge((par[1], i), EdgeType.SIMPLE if rng.random() < 0.9 else EdgeType.HADAMARD)
        for i, o in ws:
            for _ in range(rng.randint(1, 2)):
                b = g.add_vertex(VertexType.BOUNDARY)
                g.add_edge((o, b), EdgeType.SIMPLE if rng.random() < 0.7 else EdgeType.HADAMARD)
                outs.append(b)
        g.set_inputs(tuple(ins))
        g.set_outputs(tuple(outs))
        return g
    soundness(c, make, lambda g, rng: rules.match_w_fusion_parallel(g) if rng.random() < 0.7 else rules.match_w_fusion(g), rules.w_fusion)


from props import c01p  # noqa: E402
c01p.register(S)
