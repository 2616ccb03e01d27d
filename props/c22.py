"""C22: applying a recorded diagram difference reproduces the target diagram."""
import copy
from fractions import Fraction
from lib.harness import Suite, Skip
from lib import gens, refsem

S = Suite('C22', 'proof',
          note='Contract: view(apply(diff(a, b), a)) == view(b), where view lists vertices, types, phases, positions, labels and the edge multiset; '
               'apply(from_json(to_json(d)), a) likewise; a, b and d are unchanged.',
          rule='bounded part: pairs of random diagrams on overlapping vertex names, mostly one obtained from the other by a random edit history; non-trivial = distinct pair')


def ph(g, rng, sym):
    if sym and rng.random() < 0.2:
        from pyzx.symbolic import new_var, new_const
        n = rng.choice(['a', 'b', 'j', 'e', 'E3'])
        g.variable_types.setdefault(n, rng.random() < 0.5)
        return new_var(n, g.variable_types) * Fraction(rng.randrange(1, 9), rng.choice([1, 2, 7, 300])) + new_const(Fraction(rng.randrange(0, 8), 4))
    d = rng.choice([1, 2, 4, 4, 7, 16, 257, 99991])
    return Fraction(rng.randrange(0, 2 * d), d)


def vertex(g, rng, sym):
    from pyzx.utils import VertexType, set_z_box_label
    ty = VertexType(rng.choice([0, 1, 1, 1, 2, 2, 3, 6]))
    v = g.add_vertex(ty, rng.randrange(-3, 9), rng.choice([rng.randrange(9), round(rng.uniform(-4, 9), 4)]))
    if ty == VertexType.Z_BOX:
        if rng.random() < 0.8:
            set_z_box_label(g, v, rng.choice([1, 0, 2j, complex(1.5, -2), Fraction(1, 3), Fraction(7, 1000)]))
    elif ty != VertexType.BOUNDARY:
        g.set_phase(v, ph(g, rng, sym))
    if rng.random() < 0.1:
        g.set_vdata(v, 'note', rng.choice(['x', '1', 3, None]))
    return v


def fill(g, rng, sym, n):
    from pyzx.utils import EdgeType
    vs = [vertex(g, rng, sym) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if rng.random() < 0.4:
                for _ in range(rng.choice([1, 1, 2, 3]) if multi(g) else 1):
                    g.add_edge((vs[i], vs[j]), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))


def multi(g):
    return type(g).__name__ == 'Multigraph'


def edit(g, rng, sym):
    from pyzx.utils import EdgeType, VertexType, set_z_box_label
    vs, es = list(g.vertices()), list(g.edges())
    r = rng.randrange(9)
    if r == 0:
        v = vertex(g, rng, sym)
        for w in rng.sample(vs, min(len(vs), rng.randrange(3))):
            g.add_edge((v, w), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    elif r == 1 and vs:
        g.remove_vertex(rng.choice(vs))
    elif r == 2 and es:
        g.remove_edge(rng.choice(es))
    elif r == 3 and len(vs) > 1:
        a, b = rng.sample(vs, 2)
        if multi(g) or not g.connected(a, b):
            g.add_edge((a, b), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    elif r == 4 and es:
        e = rng.choice(es)
        g.set_edge_type(e, rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    elif r == 5 and vs:
        g.set_phase(rng.choice(vs), ph(g, rng, sym))
    elif r == 6 and vs:
        g.set_position(rng.choice(vs), rng.randrange(9), rng.randrange(9))
    elif r == 7 and vs:
        v = rng.choice(vs)
        g.set_type(v, VertexType(rng.choice([0, 1, 2, 3, 6])))
    elif r == 8 and vs:
        v = rng.choice(vs)
        if g.type(v) == VertexType.Z_BOX:
            set_z_box_label(g, v, rng.choice([1, 3j, Fraction(1, 5)]))
        elif rng.random() < 0.3:
            g.clear_vdata(v) if hasattr(g, 'clear_vdata') else g.set_vdata(v, 'z', 0)
        else:
            g.set_vdata(v, 'note', rng.choice(['y', 7]))


def view(g):
    vs = {v: (int(g.type(v)), g.phase(v), g.qubit(v), g.row(v), {k: g.vdata(v, k) for k in g.vdata_keys(v)}) for v in g.vertices()}
    es = sorted((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in g.edges())
    return vs, es


def same(a, b, ren=None):
    """None or the first disagreement; new vertices may be renamed by ren"""
    (va, ea), (vb, eb) = a, b
    if set(va) != set(vb):
        return 'vertices %s instead of %s' % (sorted(vb), sorted(va))
    for v in va:
        for n, x, y in zip(('type', 'phase', 'qubit', 'row', 'data'), va[v], vb[v]):
            if not x == y:
                return '%s of vertex %s is %r instead of %r' % (n, v, y, x)
    if ea != eb:
        return 'edges %s instead of %s' % (eb, ea)


def pair(c):
    rng = c.rng
    backend = rng.choice(['simple', 'simple', 'multigraph'])
    sym = rng.random() < 0.4
    auto = rng.random() < 0.4      # parallel edges are combined as they are added, not when types change later

    def new():
        g = gens.new_graph(backend)
        if backend == 'multigraph':
            g.set_auto_simplify(auto)
        return g
    a = new()
    fill(a, rng, sym, rng.randint(0, 7))
    if rng.random() < 0.75:
        b = copy.deepcopy(a)
        for _ in range(rng.randint(0, 10)):
            edit(b, rng, sym)
        if rng.random() < 0.3:
            a, b = b, a
    else:
        b = new()
        fill(b, rng, sym, rng.randint(0, 7))
    return a, b


def large_pair(c):
    rng = c.rng
    backend = rng.choice(['simple', 'multigraph'])
    a = gens.new_graph(backend)
    if backend == 'multigraph':
        a.set_auto_simplify(rng.random() < 0.3)
    fill(a, rng, rng.random() < 0.3, rng.randint(20, 80))
    b = copy.deepcopy(a)
    for _ in range(rng.randint(10, 60)):
        edit(b, rng, False)
    return (b, a) if rng.random() < 0.3 else (a, b)


@S.bounded('differences of large diagrams', quick=100, thorough=1500, split=4, bound='pairs of diagrams of 20 to 100 vertices, 10 to 60 edits, both backends',
           functions=['GraphDiff.calculate_diff', 'GraphDiff.apply_diff', 'GraphDiff.to_json', 'GraphDiff.from_json'])
def _(c):
    apply_and_compare(c, *large_pair(c))


@S.bounded('diff then apply gives the target', quick=6000, thorough=80000, split=4, bound='pairs of diagrams of up to 15 vertices, up to 10 edits, both backends, rational and symbolic phases',
           functions=['GraphDiff.calculate_diff', 'GraphDiff.apply_diff', 'GraphDiff.to_json', 'GraphDiff.from_json'])
def _(c):
    apply_and_compare(c, *pair(c))


def apply_and_compare(c, a, b):
    from pyzx.graph.diff import GraphDiff
    va, vb = view(a), view(b)
    ra, rb = repr(va), repr(vb)
    c.note(a=gens.describe(a), b=gens.describe(b), backend=type(a).__name__)
    c.sig((ra, rb))
    d = GraphDiff(a, b)
    js = d.to_json() if c.rng.random() < 0.6 else None
    r = d.apply_diff(a)
    msg = same(vb, view(r))
    c.check(msg is None, 'apply: %s' % msg, key='apply')
    c.check(repr(view(a)) == ra and repr(view(b)) == rb, 'diff or apply changed an operand', key='operands')
    if js is not None:
        d2 = GraphDiff.from_json(js)
        r2 = d2.apply_diff(a)
        msg = same(vb, view(r2))
        c.check(msg is None, 'apply after saving and loading: %s' % msg, key='json')
    # the result shares no state with the target or the difference
    for v in list(r.vertices()):
        r.set_vdata(v, 'probe', 1)
    msg = same(vb, view(d.apply_diff(a)))
    c.check(msg is None, 'second application differs: %s' % msg, key='apply twice')
    c.check(repr(view(b)) == rb and repr(view(a)) == ra, 'changing the result changed an operand', key='aliasing')
    if len(list(r.vertices())) <= 9 and all(hasattr(r.phase(v), 'denominator') for v in r.vertices()):
        pass


from props import c22p  # noqa: E402
c22p.register(S)
