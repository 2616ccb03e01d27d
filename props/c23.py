"""C23: interactive single-step rules are sound and their checks are pure."""
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import gens, refsem

S = Suite('C23', 'proof',
          note='Contract per rule: check(g, site) leaves g unchanged; if it accepts, rule(g, site) returns True and keeps [[g]] exactly; otherwise rule(g, site) returns False and leaves g unchanged.',
          rule='bounded part: random diagrams and sites, biased towards sites where the rule applies; non-trivial = distinct (diagram, rule, site) where the rule was accepted')

ONE = ['color_change', 'copy_X', 'copy_Z', 'pi_commute_X', 'pi_commute_Z', 'remove_id']
TWO = ['strong_comp', 'fuse']


def diagram(rng, backend):
    from pyzx.utils import VertexType, EdgeType, set_z_box_label
    types = rng.choice([(1, 2), (1, 2), (1, 2, 3), (1, 2, 6), (1, 2, 3, 6)])
    r = rng.random()
    g = gens.new_graph(backend)
    if backend == 'multigraph':
        g.set_auto_simplify(rng.random() < 0.3)
    n = rng.randint(1, 6)
    vs = []
    for i in range(n):
        ty = VertexType(rng.choice(types))
        v = g.add_vertex(ty, rng.randrange(4), rng.randrange(6))
        if ty == VertexType.Z_BOX:
            set_z_box_label(g, v, rng.choice([1, 1, 2, Fraction(1, 3), 1 + 2j, -1, 0.5]))
        elif ty == VertexType.H_BOX:
            g.set_phase(v, rng.choice([1, 1, 0, Fraction(1, 2)]))
        else:
            g.set_phase(v, rng.choice([0, 0, 1, 1, gens.phase(rng, 'mix'), gens.phase(rng, 'mix')]))
        vs.append(v)
    p = rng.choice([0.25, 0.45, 0.7])
    for i in range(n):
        for j in range(i):
            if rng.random() < p:
                for _ in range(rng.choice([1, 1, 1, 2]) if backend == 'multigraph' else 1):
                    g.add_edge((vs[i], vs[j]), EdgeType.HADAMARD if rng.random() < 0.4 else EdgeType.SIMPLE)
        if backend == 'multigraph' and rng.random() < 0.08:
            g.add_edge((vs[i], vs[i]), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    ins, outs = [], []
    for l in (ins, outs):
        for _ in range(rng.randint(0, 2)):
            b = g.add_vertex(VertexType.BOUNDARY, 0, -1)
            g.add_edge((b, rng.choice(vs)), EdgeType.HADAMARD if rng.random() < 0.3 else EdgeType.SIMPLE)
            l.append(b)
    if rng.random() < 0.15:
        a, b = g.add_vertex(VertexType.BOUNDARY), g.add_vertex(VertexType.BOUNDARY)
        g.add_edge((a, b), rng.choice([EdgeType.HADAMARD, EdgeType.SIMPLE]))
        ins.append(a)
        outs.append(b)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    gens.rand_scalar(g, rng)
    return g


def wdiagram(rng):
    """W nodes joined by plain edges"""
    from pyzx.utils import VertexType, EdgeType
    g = gens.new_graph()
    ws = []
    for _ in range(rng.randint(1, 3)):
        i, o = g.add_vertex(VertexType.W_INPUT, rng.randrange(3), rng.randrange(5)), g.add_vertex(VertexType.W_OUTPUT, rng.randrange(3), rng.randrange(5))
        g.add_edge((i, o), EdgeType.W_IO)
        ws.append((i, o))
    free = [w[0] for w in ws]
    for k, (i, o) in enumerate(ws):
        for i2, o2 in ws[:k]:
            r = rng.random()
            if r < 0.3 and i in free:
                g.add_edge((i, o2))
                free.remove(i)
            elif r < 0.6 and i2 in free:
                g.add_edge((i2, o))
                free.remove(i2)
            elif r < 0.7:
                g.add_edge((o, o2), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    ins, outs = [], []
    for f in free:
        b = g.add_vertex(VertexType.BOUNDARY)
        g.add_edge((b, f), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
        ins.append(b)
    for i, o in ws:
        for _ in range(rng.randint(0, 2)):
            b = g.add_vertex(rng.choice([VertexType.BOUNDARY, VertexType.BOUNDARY, VertexType.Z]))
            g.add_edge((b, o), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
            if g.type(b) == VertexType.BOUNDARY:
                outs.append(b)
            else:
                g.set_phase(b, gens.phase(rng))
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    return g, [x for w in ws for x in w]


def try_rule(c, g, name, site):
    from pyzx import basicrules as B
    snap = gens.snapshot(g)
    ok = getattr(B, 'check_' + name)(g, *site)
    c.check(gens.snapshot(g) == snap, 'check_%s changed the diagram' % name, key='check_%s is not pure' % name)
    m = refsem.graph_matrix(g) if ok else None
    try:
        r = getattr(B, name)(g, *site)
    except ValueError as e:
        if 'unreducible' in str(e):  # the result needs a parallel edge the backend documents it cannot hold
            raise Skip()
        raise
    c.check(bool(r) == bool(ok), '%s returned %s but its check %s' % (name, r, ok), key=name + ' disagrees with its check')
    if not ok:
        c.check(gens.snapshot(g) == snap, '%s rejected but changed the diagram' % name, key=name + ' changes on reject')
        return False
    c.check(gens.snapshot(g) != snap or name.startswith('pi_commute'), '%s accepted but changed nothing' % name, key=name + ' does nothing')
    return m


def judge(c, g, name, m, snap):
    m2 = refsem.graph_matrix(g)
    c.check(refsem.close(m, m2), '%s does not preserve the linear map%s' % (name, ' (only up to a scalar)' if refsem.close_up_to_scalar(m, m2) else ''), key=name + ' unsound')


def one_rule(name):
    @S.bounded(name, quick=1200, thorough=20000, split=2, bound='diagrams of up to 6 inner vertices (Z, X, H-boxes, Z-boxes), both backends, every site', functions=['check_' + name, name])
    def _(c):
        backend = c.rng.choice(['simple', 'simple', 'multigraph'])
        import copy
        g = diagram(c.rng, backend)
        vs = list(g.vertices())
        if not name in TWO:
            sites = [(v,) for v in vs]
        else:
            sites = [g.edge_st(e) for e in g.edges()] + [tuple(c.rng.sample(vs, 2)) for _ in range(2) if len(vs) > 1]
            sites += [(b, a) for a, b in sites]
            sites = [s for s in sites if s[0] != s[1]]
        if not sites:
            raise Skip()
        c.rng.shuffle(sites)
        c.note(graph=gens.describe(g), backend=backend, rule=name)
        hit = False
        for site in sites[:6]:
            h = copy.deepcopy(g)
            c.note(site=site)
            m = try_rule(c, h, name, site)
            if m is not False:
                judge(c, h, name, m, None)
                hit = True
        if hit:
            c.sig((gens.snapshot(g), name, backend))


for _n in ONE + TWO:
    one_rule(_n)


@S.bounded('fuse W nodes', quick=500, thorough=8000, split=2, bound='diagrams of up to 3 W nodes', functions=['check_fuse', 'fuse', 'check_fuse_w', 'fuse_w'])
def _(c):
    import copy
    g, ws = wdiagram(c.rng)
    c.note(graph=gens.describe(g))
    sites = [(a, b) for a in ws for b in ws if a != b]
    c.rng.shuffle(sites)
    hit = False
    for site in sites[:5]:
        h = copy.deepcopy(g)
        c.note(site=site)
        m = try_rule(c, h, 'fuse', site)
        if m is not False:
            judge(c, h, 'fuse', m, None)
            hit = True
    if hit:
        c.sig(gens.snapshot(g))


@S.bounded('color_change_diagram', quick=600, thorough=8000, split=2, bound='diagrams of up to 6 inner vertices', functions=['color_change_diagram'])
def _(c):
    from pyzx.basicrules import color_change_diagram
    g = diagram(c.rng, c.rng.choice(['simple', 'multigraph']))
    c.note(graph=gens.describe(g))
    c.sig(gens.snapshot(g))
    m = refsem.graph_matrix(g)
    H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    def power(k):
        r = np.eye(1)
        for _ in range(k):
            r = np.kron(r, H)
        return r
    color_change_diagram(g)
    c.check(refsem.close(power(g.num_outputs()) @ m @ power(g.num_inputs()), refsem.graph_matrix(g)), 'not the diagram with Hadamards on every input and output', key='color_change_diagram')


from props import c23p  # noqa: E402
c23p.register(S)
