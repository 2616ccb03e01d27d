"""C11: saving a diagram and loading it back is lossless."""
import json
from fractions import Fraction
from lib.harness import Suite, Skip
from lib import gens, refsem

S = Suite('C11', 'exploration',
          note='Contract: reader(writer(g)) is isomorphic to g with every attribute kept (json: vertices identified by a tag stored as vertex data; '
               'tikz: by position, scalars and input/output marks are not part of that format).',
          rule='bounded part: random diagrams with random attributes; non-trivial = distinct diagram')


def ph(rng, ty):
    r = rng.random()
    if r < 0.15:
        return 0
    if r < 0.25:
        return 1
    if r < 0.5:
        return Fraction(rng.randrange(0, 8), 4)
    if r < 0.75:
        d = rng.randrange(1, 300)
        return Fraction(rng.randrange(0, 2 * d), d)
    d = rng.randrange(1, 10 ** rng.randrange(1, 12))
    return Fraction(rng.randrange(0, 2 * d), d)


NAMES = ['a', 'b', 'theta', 'x1', 'e', 'j', 'nan', 'inf', 'y_2', 'E3', 'alpha', 'pi2']


def mkpoly(g, rng):
    from pyzx.symbolic import Poly, Term, new_var, new_const
    p = new_const(Fraction(rng.randrange(0, 8), 4)) if rng.random() < 0.5 else new_const(Fraction(0))
    for _ in range(rng.randint(1, 3)):
        m = new_const(Fraction(rng.randrange(1, 8), rng.choice([1, 2, 4, 5, 7, 300])))
        for _ in range(rng.randint(1, 2)):
            n = rng.choice(NAMES)
            g.variable_types.setdefault(n, rng.random() < 0.5)
            m = m * new_var(n, g.variable_types)
        p = p + m
    return p


def mkgraph(rng, backend=None, sym=0.2, w=True, zbox=True, ground=True, places=3, distinct=False, io=True, nv=(1, 7), nio=(0, 3), density=0.4):
    from pyzx.utils import VertexType, EdgeType, set_z_box_label
    g = gens.new_graph(backend)
    n = rng.randint(*nv)
    vs = []
    used = set()

    def pos():
        while True:
            r = rng.random()
            if r < 0.5:
                p = (rng.randrange(-3, 9), rng.randrange(-3, 9))
            else:
                p = (round(rng.uniform(-5, 9), places), round(rng.uniform(-5, 9), places))
            if p not in used or not distinct:
                used.add(p)
                return p
    types = [1, 2, 1, 2, 3] + ([6] if zbox else []) + ([4] if w else [])
    for _ in range(n):
        ty = VertexType(rng.choice(types))
        q, r = pos()
        v = g.add_vertex(ty, q, r)
        if ty == VertexType.Z_BOX:
            z = rng.random()
            set_z_box_label(g, v, complex(rng.uniform(-2, 2), rng.uniform(-2, 2)) if z < 0.4 else rng.choice([1, 0, Fraction(1, 3), Fraction(2), Fraction(7, 1000), 2j, complex(3), Fraction(-5, 3)]))
        elif ty == VertexType.W_INPUT:
            q, r = pos()
            o = g.add_vertex(VertexType.W_OUTPUT, q, r)
            g.add_edge((v, o), EdgeType.W_IO)
            vs.append(o)
        else:
            g.set_phase(v, mkpoly(g, rng) if rng.random() < sym and ty != VertexType.H_BOX else ph(rng, ty))
            if ground and ty == VertexType.Z and rng.random() < 0.08:
                g.set_ground(v)
        vs.append(v)
    def room(x):
        return g.type(x) != VertexType.W_INPUT or g.vertex_degree(x) < 2
    for i in range(len(vs)):
        for k in range(i):
            if rng.random() < density and not g.connected(vs[i], vs[k]) and room(vs[i]) and room(vs[k]):
                g.add_edge((vs[i], vs[k]), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    ins, outs = [], []
    for l in (ins, outs):
        for _ in range(rng.randint(*nio)):
            q, r = pos()
            c = [v for v in vs if room(v)]
            if not c:
                continue
            b = g.add_vertex(VertexType.BOUNDARY, q, r)
            g.add_edge((b, rng.choice(c)), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
            l.append(b)
    rng.shuffle(ins)
    rng.shuffle(outs)
    if io:
        g.set_inputs(tuple(ins))
        g.set_outputs(tuple(outs))
    gens.rand_scalar(g, rng)
    return g, ins, outs


def view(g, key):
    ident = {v: key(v) for v in g.vertices()}
    out = {}
    for v in g.vertices():
        q, r = g.qubit(v), g.row(v)
        d = {k: g.vdata(v, k) for k in g.vdata_keys(v) if k not in ('name', 'tag')}
        if g.type(v) == 6:
            d['label'] = g.vdata(v, 'label', 1)
        out[ident[v]] = (int(g.type(v)), g.phase(v), q, r, bool(g.is_ground(v)), d)
    es = sorted((tuple(sorted((repr(ident[g.edge_s(e)]), repr(ident[g.edge_t(e)])))), int(g.edge_type(e))) for e in g.edges())
    return out, es, [ident[v] for v in g.inputs()], [ident[v] for v in g.outputs()]


def compare(c, a, b, what, pos_tol=0):
    va, ea, ia, oa = a
    vb, eb, ib, ob = b
    c.check(set(va) == set(vb), what + ': vertices differ', key=what + ' vertices')
    for k in va:
        for n, x, y in zip(('type', 'phase', 'qubit', 'row', 'ground', 'data'), va[k], vb[k]):
            ok = x == y
            if n in ('qubit', 'row') and pos_tol:
                ok = abs(x - y) <= pos_tol
            c.check(ok, '%s: %s of vertex %r is %r instead of %r' % (what, n, k, y, x), key=what + ' ' + n)
    c.check(ea == eb, '%s: edges differ: %s instead of %s' % (what, eb, ea), key=what + ' edges')
    c.check(ia == ib and oa == ob, what + ': inputs or outputs differ', key=what + ' io')


@S.bounded('json round trip keeps every attribute', quick=4000, thorough=60000, split=4,
           bound='diagrams of up to 20 vertices of all types, denominators up to 10^11, symbolic phases, coordinates with up to three decimals',
           functions=['graph_to_json', 'json_to_graph', 'string_to_phase', 'phase_to_s', 'BaseGraph.to_json', 'BaseGraph.from_json'])
def _(c):
    from pyzx.graph import Graph
    g, _, _ = mkgraph(c.rng)
    for i, v in enumerate(list(g.vertices())):
        g.set_vdata(v, 'tag', 't%d' % i)
        if c.rng.random() < 0.15:
            g.set_vdata(v, c.rng.choice(['note', 'x', 'col']), c.rng.choice(['hello', 3, 2.5, True, [1, 2], '1', 'j', 'nan', '3+4j', 0, None, 1j]))
        if c.rng.random() < 0.1:
            g.set_vdata(v, 'name', c.rng.choice(['v%d' % c.rng.randrange(30), 'b%d' % c.rng.randrange(9), 'q', '7', 'e3']) + ('x%d' % i if c.rng.random() < 0.3 else ''))
    names = [g.vdata(v, 'name') for v in g.vertices() if g.vdata(v, 'name')]
    if len(set(names)) != len(names):
        raise Skip()
    snap = gens.snapshot(g)
    c.note(graph=gens.describe(g))
    c.sig(snap)
    js = g.to_json()
    c.check(gens.snapshot(g) == snap, 'writing changed the diagram', key='json write mutates')
    h = Graph.from_json(js)
    compare(c, view(g, lambda v: g.vdata(v, 'tag')), view(h, lambda v: h.vdata(v, 'tag')), 'json')
    sa, sb = g.scalar, h.scalar
    c.check(abs(refsem.scalar_value(sa) - refsem.scalar_value(sb)) < 1e-9, 'json: scalar differs', key='json scalar')
    c.check({k: bool(v) for k, v in h.variable_types.items()} == {k: bool(v) for k, v in g.variable_types.items()}, 'json: variable types differ', key='json variable types')
    h2 = Graph.from_json(h.to_json())
    compare(c, view(h, lambda v: h.vdata(v, 'tag')), view(h2, lambda v: h2.vdata(v, 'tag')), 'json again')
    h3 = Graph.from_json(g.to_json(include_scalar=False))
    c.check(refsem.scalar_value(h3.scalar) == 1, 'scalar written although not asked for', key='json include_scalar')


@S.bounded('large diagrams survive json', quick=60, thorough=1000, split=4, bound='diagrams of 30 to 150 vertices with 9 to 25 inputs and outputs',
           functions=['graph_to_json', 'json_to_graph'])
def _(c):
    from pyzx.graph.jsonparser import json_to_graph
    g, _, _ = mkgraph(c.rng, nv=(15, 100), nio=(9, 25), density=0.08)
    vs = list(g.vertices())
    for i, v in enumerate(vs):
        g.set_vdata(v, 'tag', 't%d' % i)
    for v in c.rng.sample(vs, 5):   # some vertices are named, perhaps like the names chosen for the others
        g.set_vdata(v, 'name', c.rng.choice(['v%d', 'b%d']) % v)
    snap = gens.snapshot(g)
    c.note(graph=gens.describe(g))
    c.sig(snap)
    b = c.rng.choice(['simple', 'multigraph'])
    h = json_to_graph(g.to_json(), b)
    compare(c, view(g, lambda v: g.vdata(v, 'tag')), view(h, lambda v: h.vdata(v, 'tag')), 'json')
    c.check(abs(refsem.scalar_value(g.scalar) - refsem.scalar_value(h.scalar)) < 1e-9, 'json: scalar differs', key='json scalar')


@S.bounded('json round trip denotes the same map on every backend', quick=2000, thorough=30000, split=4, bound='diagrams of up to 11 vertices with rational phases',
           functions=['graph_to_json', 'json_to_graph', 'GraphS', 'Multigraph'])
def _(c):
    import pyzx
    from pyzx.graph.jsonparser import json_to_graph
    from pyzx.utils import VertexType, EdgeType
    b1, b2 = c.rng.choice(['simple', 'multigraph']), c.rng.choice(['simple', 'multigraph'])
    g, _, _ = mkgraph(c.rng, backend=b1, sym=0, ground=False)
    if b1 == 'multigraph':
        g.set_auto_simplify(False)
        zs = [v for v in g.vertices() if g.type(v) in (1, 2)]
        for _ in range(c.rng.randint(0, 3)):
            if len(zs) > 1:
                g.add_edge(tuple(c.rng.sample(zs, 2)), c.rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    c.note(graph=gens.describe(g), backends=(b1, b2))
    c.sig((gens.snapshot(g), b1, b2))
    if g.num_vertices() > 16 or max(g.vertex_degree(v) for v in g.vertices()) > 9:
        raise Skip()
    m = refsem.graph_matrix(g)
    h = json_to_graph(g.to_json(), b2)
    c.check(refsem.close(m, refsem.graph_matrix(h)), 'loaded diagram denotes another map', key='json map %s to %s' % (b1, b2))


@S.bounded('circuits survive json through their diagram', quick=150, thorough=2000, split=4, bound='circuits of up to 4 qubits and 12 gates', functions=['graph_to_json', 'json_to_graph'])
def _(c):
    from pyzx.graph import Graph
    circ = gens.rand_circuit(c.rng, gates=gens.GATES_ALL)
    c.note(circuit=str(circ.gates))
    c.sig(gens.gates_snapshot(circ))
    g = circ.to_graph(zh=c.rng.random() < 0.5)
    h = Graph.from_json(g.to_json())
    c.check(refsem.close(refsem.graph_matrix(g), refsem.graph_matrix(h)), 'loaded circuit diagram denotes another map', key='json circuit')


@S.bounded('tikz round trip', quick=4000, thorough=60000, split=4,
           bound='diagrams of up to 17 vertices at distinct positions with two decimals, rational phases, no grounds',
           functions=['to_tikz', '_to_tikz', 'tikz_to_graph', 'BaseGraph.to_tikz', 'BaseGraph.from_tikz'])
def _(c):
    from pyzx.graph import Graph
    from pyzx.utils import VertexType, EdgeType
    g, ins, outs = mkgraph(c.rng, sym=0, ground=False, places=2, distinct=True)
    key = lambda G: (lambda v: (round(float(G.qubit(v)), 2) + 0.0, round(float(G.row(v)), 2) + 0.0))
    if len(set(map(key(g), g.vertices()))) < g.num_vertices() or max([g.vertex_degree(v) for v in g.vertices()]) > 9 or g.num_vertices() > 16:
        raise Skip()
    # the midpoint of a Hadamard wire at a boundary gets a node of its own
    mids = [(round((g.qubit(a) + g.qubit(b)) / 2, 2) + 0.0, round((g.row(a) + g.row(b)) / 2, 2) + 0.0) for a, b in (g.edge_st(e) for e in g.edges() if g.edge_type(e) == EdgeType.HADAMARD)
            if VertexType.BOUNDARY in (g.type(a), g.type(b))]
    c.note(graph=gens.describe(g))
    snap = gens.snapshot(g)
    c.sig(snap)
    t = g.to_tikz()
    c.check(gens.snapshot(g) == snap, 'writing changed the diagram', key='tikz write mutates')
    h = Graph.from_tikz(t, warn_overlap=False, fuse_overlap=False)
    pk = key(g)
    ref = {pk(v): v for v in g.vertices()}
    new = {}
    extra = []
    for v in h.vertices():
        k = key(h)(v)
        if k in ref and ref[k] not in new and h.type(v) == g.type(ref[k]):
            new[ref[k]] = v
        else:
            extra.append(v)
    c.check(len(new) == g.num_vertices(), 'tikz: vertices lost', key='tikz vertices')
    c.check(all(h.type(v) == VertexType.H_BOX for v in extra) and len(extra) == len(mids), 'tikz: unexpected vertices', key='tikz extra vertices')
    for v, w in new.items():
        if g.type(v) == VertexType.Z_BOX:
            c.check(complex(g.vdata(v, 'label', 1)) == complex(h.vdata(w, 'label', 1)), 'tikz: label %r became %r' % (g.vdata(v, 'label', 1), h.vdata(w, 'label', 1)), key='tikz label')
        else:
            c.check(g.phase(v) == h.phase(w), 'tikz: phase %r became %r' % (g.phase(v), h.phase(w)), key='tikz phase')
    h.set_inputs(tuple(new[v] for v in g.inputs()))
    h.set_outputs(tuple(new[v] for v in g.outputs()))
    h.scalar = g.scalar.copy()
    c.check(refsem.close(refsem.graph_matrix(g) * 2 ** (len(extra) / 2), refsem.graph_matrix(h)), 'tikz: another map', key='tikz map')
