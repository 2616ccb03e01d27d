"""C10: composition, tensor, adjoint, copies, sub-diagram embedding, plugging denote the corresponding operations."""
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C10', 'proof',
          note='proof part: diagrams of generic elements, loops pointwise (recorded); bounded part: random diagrams on both backends; results compared exactly with the reference semantics; operands and aliasing compared attribute by attribute',
          rule='bounded part: a random pair of diagrams; non-trivial = distinct diagrams with the operation applicable')

BACK = ['simple', 'multigraph']


def diagram(rng, backend, io=None, zbox=True, hbox=True, nv=(1, 5)):
    from pyzx.utils import VertexType, EdgeType, set_z_box_label
    types = [1, 1, 2] + ([3] if hbox and rng.random() < 0.4 else []) + ([6] if zbox and rng.random() < 0.3 else [])
    io = io or (0, 2, 0, 2)
    g = gens.rand_graph(rng, types=types, nv=nv, io=io, backend=backend, density=rng.choice([0.2, 0.5]))
    for v in list(g.vertices()):
        if g.type(v) == VertexType.Z_BOX:
            set_z_box_label(g, v, rng.choice([complex(0.5, -1), complex(2, 0.25), -1]))
        if rng.random() < 0.1:
            g.set_vdata(v, 'tag', rng.randrange(5))
        if rng.random() < 0.1 and g.type(v) != VertexType.BOUNDARY:
            g.set_ground(v)
    if rng.random() < 0.2:      # a vertex without a position
        w = list(g.add_vertices(1))[0]
        g.set_type(w, VertexType.Z)
        zx = [v for v in g.vertices() if g.type(v) in (VertexType.Z, VertexType.X) and v != w]
        if zx:
            g.add_edge((rng.choice(zx), w), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    # merge some boundaries into cups: wires joining two inputs or two outputs
    return g


def with_cups(rng, g, side):
    """joins two plugged boundaries directly, sometimes"""
    from pyzx.utils import EdgeType
    bs = g.inputs() if side == 'in' else g.outputs()
    if len(bs) >= 2 and rng.random() < 0.4:
        a, b = rng.sample(list(bs), 2)
        na, nb = list(g.neighbors(a))[0], list(g.neighbors(b))[0]
        if na in bs or nb in bs:
            return g
        g.remove_edges([g.edge(a, na), g.edge(b, nb)])
        g.add_edge((a, b), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
        for n in (na, nb):
            if g.type(n) == 0:     # a boundary left dangling
                z = g.add_vertex(1)
                g.add_edge((n, z))
    return g


def guard(c, fn, *graphs):
    """H-boxes joined in parallel to other vertices cannot be stored by the simple backend, which refuses them with this error"""
    try:
        return fn()
    except ValueError as e:
        if 'arallel' in str(e):
            raise Skip()
        raise


def eq(c, m, g, what):
    c.check(np.asarray(m).shape == refsem.graph_matrix(g).shape and refsem.close(m, refsem.graph_matrix(g)), what, got=gens.describe(g))


def fresh(c, zbox=True, hbox=True, io=None):
    rng = c.rng
    b = rng.choice(BACK)
    g = diagram(rng, b, io=io, zbox=zbox, hbox=hbox)
    c.note(backend=b, diagram=gens.describe(g))
    return b, g


B = 'random diagrams of at most 5 spiders/boxes and 2+2 boundaries per operand, cups and bare wires included, both backends'


@S.bounded('compose', 400, 6000, bound=B, functions=['pyzx.graph.base.BaseGraph.compose', 'BaseGraph.__add__', 'BaseGraph.__mul__', 'BaseGraph.__iadd__'])
def compose(c):
    rng = c.rng
    b = rng.choice(BACK)
    k = rng.randint(0, 2) if rng.random() < 0.7 else 3
    g = with_cups(rng, diagram(rng, b, io=(0, 2, k, k)), 'out')
    h = with_cups(rng, diagram(rng, rng.choice([b, b, rng.choice(BACK)]), io=(k, k, 0, 2)), 'in')
    if rng.random() < 0.1:
        h = g.adjoint() if rng.random() < 0.5 else g
        if len(h.inputs()) != len(g.outputs()):
            raise Skip()
    c.note(backend=b, first=gens.describe(g), second=gens.describe(h))
    m = refsem.graph_matrix(h) @ refsem.graph_matrix(g)
    sg, sh = gens.snapshot(g), gens.snapshot(h)
    how = rng.randrange(3)
    if how == 0:
        r = guard(c, lambda: g + h)
    elif how == 1:
        r = guard(c, lambda: h * g)
    else:
        r = g.clone()
        guard(c, lambda: r.compose(h))
    eq(c, m, r, 'composition denotes the product of the maps')
    c.check(marks(r) == marks(g) + marks(h), 'composition keeps ground marks and user data', got=gens.describe(r))
    c.check(gens.snapshot(h) == sh and gens.snapshot(g) == sg, 'composition changed an operand')
    c.sig((sg, sh, how))
    mutate(rng, r)
    c.check(gens.snapshot(h) == sh and gens.snapshot(g) == sg, 'changing the composition changed an operand')


@S.bounded('wide', 80, 1500, bound='diagrams of circuits of 9 to 24 qubits whose gates stay within blocks of at most 3 qubits, both backends', functions=['BaseGraph.compose', 'BaseGraph.tensor', 'BaseGraph.adjoint', 'BaseGraph.copy', 'BaseGraph.apply_state', 'BaseGraph.apply_effect'])
def wide(c):
    """many wires: the order of inputs and outputs survives every operation"""
    rng = c.rng
    n = rng.randint(9, 24)
    bl = gens.blocks(rng, n)
    gs = rng.choice([gens.GATES_T, gens.GATES_CLIFF])
    a, b = gens.block_circuit(rng, n, bl, (n, 2 * n), gs), gens.block_circuit(rng, n, bl, (n, 2 * n), gs)
    bk = rng.choice(BACK)
    g, h = a.to_graph(backend=bk), b.to_graph(backend=bk)
    how = rng.choice(['compose', 'tensor', 'adjoint', 'copy', 'state', 'effect', 'permuted'])
    c.note(first=repr(a.gates), second=repr(b.gates), how=how)
    c.sig((gens.snapshot(g), gens.snapshot(h), how))
    def table(x):
        ps, rest = gens.pieces(x)
        return {(tuple(i), tuple(o)): m for i, o, m in ps}
    def close(x, y, what):
        c.check(set(x) == set(y), what + ': wires', got=sorted(x), expected=sorted(y))
        for k in x:
            c.check(refsem.close_up_to_scalar(x[k], y[k]), what, wires=k)
    def join(t, bs):
        """the maps of the blocks, each the product of the maps of its components"""
        out = {}
        for q in bs:
            parts = [(i, o, m) for (i, o), m in t.items() if set(i) <= set(q)]
            M = np.ones((1, 1))
            I, O = [], []
            for i, o, m in parts:
                M = np.kron(M, m)
                I += i
                O += o
            k = len(I)
            M = M.reshape((2,) * (len(O) + k))
            so, si = sorted(O), sorted(I)
            M = M.transpose([O.index(x) for x in so] + [len(O) + I.index(x) for x in si]).reshape(2 ** len(O), 2 ** k)
            out[(tuple(si), tuple(so))] = M
        return out
    tg, th = join(table(g), bl), join(table(h), bl)
    if how == 'compose':
        r = g + h if rng.random() < 0.5 else h * g
        close(join(table(r), bl), {k: th[k] @ tg[k] for k in tg}, 'composition')
    elif how == 'tensor':
        r = g @ h
        sh = lambda k: tuple(tuple(q + n for q in x) for x in k)
        close(join(table(r), bl + [[q + n for q in x] for x in bl]), {**tg, **{sh(k): m for k, m in th.items()}}, 'tensor')
    elif how == 'adjoint':
        close(join(table(g.adjoint()), bl), {k: m.conj().T for k, m in tg.items()}, 'adjoint')
    elif how == 'copy':
        close(join(table(g.copy(backend=rng.choice([None] + BACK)) if rng.random() < 0.5 else g.clone()), bl), tg, 'copy')
    elif how == 'permuted':
        p = rng.sample(range(n), n)
        ins = g.inputs()
        g.set_inputs(tuple(ins[p[k]] for k in range(n)))
        r = g.copy()
        want = {}
        for (i, o), m in table(g).items():
            want[(tuple(i), tuple(o))] = m
        close(table(r), want, 'copy of a diagram with permuted inputs')
    else:
        s = ''.join(rng.choice('01+-/') if rng.random() < 0.5 else '/' for _ in range(rng.randint(1, n)))
        vec = {'0': [1, 0], '1': [0, 1], '+': [1, 1], '-': [1, -1]}
        r = g.copy()
        (r.apply_state if how == 'state' else r.apply_effect)(s)
        left = [q for q in range(n) if q >= len(s) or s[q] == '/']
        new = {q: k for k, q in enumerate(left)}
        want = {}
        for (i, o), m in tg.items():
            op = np.eye(1)
            for q in i:
                op = np.kron(op, np.eye(2) if q in new else np.array([vec[s[q]]]).T)
            m2 = m @ op if how == 'state' else op.T @ m
            ii = tuple(new[q] for q in i if q in new)
            want[(ii, o) if how == 'state' else (i, ii)] = m2
        got = table(r)
        # components of a block may come apart: join them along the untouched side
        side = 1 if how == 'state' else 0
        def group(t):
            out = {}
            for k, m in t.items():
                blk = next((tuple(sorted(b)) for b in bl if k[side] and set(k[side]) <= set(b)), None)
                out.setdefault(blk, []).append((k, m))
            return out
        got = group(got)
        for k, m in want.items():
            blk = tuple(sorted(k[side]))
            parts = got.get(blk, [])
            M, I, O = np.ones((1, 1)), [], []
            for (i, o), x in parts:
                M = np.kron(M, x)
                I += i
                O += o
            c.check(sorted(I) == list(k[0]) and sorted(O) == list(k[1]), 'plugging keeps the other wires in order', got=(I, O), expected=k)
            M = M.reshape((2,) * (len(O) + len(I))).transpose([O.index(x) for x in k[1]] + [len(O) + I.index(x) for x in k[0]]).reshape(m.shape)
            c.check(refsem.close_up_to_scalar(M, m) or np.abs(m).max() < 1e-9, 'plugging of basis states', wires=k)


@S.bounded('tensor', 300, 4000, bound=B, functions=['pyzx.graph.base.BaseGraph.tensor', 'BaseGraph.__matmul__'])
def tensor(c):
    rng = c.rng
    b, g = fresh(c)
    h = diagram(rng, b)
    m = np.kron(refsem.graph_matrix(g), refsem.graph_matrix(h))
    sg, sh = gens.snapshot(g), gens.snapshot(h)
    r = g.tensor(h) if rng.random() < 0.5 else g @ h
    eq(c, m, r, 'tensor product denotes the tensor product of the maps')
    c.check(marks(r) == marks(g) + marks(h), 'tensor product keeps ground marks and user data', got=gens.describe(r))
    c.check(gens.snapshot(h) == sh and gens.snapshot(g) == sg, 'tensor product changed an operand')
    c.sig((sg, sh))
    mutate(rng, r)
    c.check(gens.snapshot(h) == sh and gens.snapshot(g) == sg, 'changing the tensor product changed an operand')


def marks(g):
    """marked vertices (ground and user data), boundaries left out"""
    from collections import Counter
    return Counter((int(g.type(v)), bool(g.is_ground(v)), g.vdata(v, 'tag', None)) for v in g.vertices()
                   if g.type(v) != 0 and (g.is_ground(v) or 'tag' in g.vdata_keys(v)))


def mutate(rng, r):
    """changes every kind of attribute of r"""
    r.scalar.add_power(3)
    r.scalar.add_phase(Fraction(1, 4))
    r.scalar.add_node(Fraction(1, 5))
    r.scalar.floatfactor *= 2
    r.variable_types['q'] = True
    for v in list(r.vertices())[:4]:
        r.set_phase(v, Fraction(1, 7))
        r.set_vdata(v, 'tag', 'changed')
        r.set_position(v, 17, 19)
        r.set_ground(v, True)
    es = list(r.edges())
    if es:
        e = es[0]
        s, t = r.edge_st(e)
        r.set_edge_type(e, 3 - r.edge_type(e) if r.edge_type(e) in (1, 2) else 1)
        if len(es) > 1 and set(r.edge_st(es[-1])) != {s, t}:
            r.remove_edge(es[-1])
    v = r.add_vertex(1)
    w = r.add_vertex(2)
    r.add_edge((v, w))
    vs = [x for x in r.vertices() if r.type(x) != 0]
    if vs:
        r.remove_vertex(vs[0])
    r.set_inputs(tuple())
    r.set_outputs((v,))


@S.bounded('copy_clone_adjoint', 400, 6000, bound=B,
           functions=['BaseGraph.copy', 'BaseGraph.adjoint', 'GraphS.clone', 'Multigraph.clone', 'BaseGraph.clone', 'BaseGraph.translate', 'copy.copy'])
def copies(c):
    rng = c.rng
    b, g = fresh(c)
    if rng.random() < 0.3:      # holes in the numbering
        v = [x for x in g.vertices() if g.type(x) != 0 and all(g.type(n) != 0 for n in g.neighbors(x))]
        if len(v) > 1:
            g.remove_vertex(v[0])
    if rng.random() < 0.1:
        v = [x for x in g.vertices() if g.type(x) == 1]
        if v:
            g.set_ground(v[0])
    m = refsem.graph_matrix(g)
    s = gens.snapshot(g)
    how = rng.randrange(5)
    name = ['copy', 'clone', 'adjoint', 'copy to the other backend', 'translate'][how]
    if how == 0:
        r = g.copy()
    elif how == 1:
        r = g.clone()
        c.check(gens.snapshot(r) == s, 'a clone differs from the original', original=repr(s), clone=repr(gens.snapshot(r)))
    elif how == 2:
        r = g.adjoint()
    elif how == 3:
        r = guard(c, lambda: g.copy(backend=[x for x in BACK if x != b][0]))
    else:
        r = g.translate(2, 3)
    if how == 2:
        m = m.conj().T
    eq(c, m, r, '%s denotes the %s map' % (name, 'adjoint' if how == 2 else 'same'))
    c.check(sorted(len(r.inputs()) for _ in [0]) == [len(g.outputs() if how == 2 else g.inputs())], 'interface')
    c.check(len(r.grounds()) == len(g.grounds()), '%s keeps grounds' % name)
    c.check(r.num_vertices() == g.num_vertices() and r.num_edges() == g.num_edges(), '%s keeps vertices and edges' % name)
    c.check(r.variable_types == g.variable_types, '%s keeps variable types' % name)
    if how in (0, 1, 3):
        # numbering may be compacted, but the order of the vertices is kept
        for v, w in zip(sorted(g.vertices()), sorted(r.vertices())):
            c.check((g.type(v), g.phase(v), g.qubit(v), g.row(v), g.is_ground(v), {k: g.vdata(v, k) for k in g.vdata_keys(v)}) ==
                    (r.type(w), r.phase(w), r.qubit(w), r.row(w), r.is_ground(w), {k: r.vdata(w, k) for k in r.vdata_keys(w)}), '%s keeps the attributes of vertices' % name)
    c.sig((s, how))
    mutate(rng, r)
    c.check(gens.snapshot(g) == s, 'changing the result of %s changed the original' % name, before=repr(s), after=repr(gens.snapshot(g)))
    r2 = g.clone() if how == 1 else g.copy()
    s2 = gens.snapshot(r2)
    mutate(rng, g)
    c.check(gens.snapshot(r2) == s2, 'changing the original changed its %s' % name)


@S.bounded('merge_subgraph', 300, 4000, bound=B, functions=['BaseGraph.merge', 'BaseGraph.subgraph_from_vertices'])
def merge(c):
    rng = c.rng
    b, g = fresh(c)
    h = diagram(rng, b)
    mg, mh = refsem.graph_matrix(g), refsem.graph_matrix(h)
    sg, sh = gens.snapshot(g), gens.snapshot(h)
    c.sig((sg, sh))
    r = g.clone()
    vs, es = r.merge(h)
    c.check(gens.snapshot(h) == sh, 'merging changed the graph merged in')
    c.check(tuple(r.inputs()) == tuple(g.inputs()) and tuple(r.outputs()) == tuple(g.outputs()), 'merging changed the interface')
    c.check(len(vs) == h.num_vertices() and len(set(vs)) == len(vs) and not set(vs) & set(g.vertices()), 'merge returns the new vertices')
    vt = dict(zip(h.vertices(), vs))
    for v in h.vertices():
        w = vt[v]
        c.check((h.type(v), h.phase(v), h.qubit(v), h.row(v), h.is_ground(v), {k: h.vdata(v, k) for k in h.vdata_keys(v)}) ==
                (r.type(w), r.phase(w), r.qubit(w), r.row(w), r.is_ground(w), {k: r.vdata(w, k) for k in r.vdata_keys(w)}), 'merge keeps the attributes of vertices')
    c.check(sorted((tuple(sorted(vt[x] for x in h.edge_st(e))), int(h.edge_type(e))) for e in h.edges()) ==
            sorted((tuple(sorted(r.edge_st(e))), int(r.edge_type(e))) for e in es), 'merge returns the new edges')
    r2 = r.clone()
    r2.set_inputs(tuple(g.inputs()) + tuple(vt[v] for v in h.inputs()))
    r2.set_outputs(tuple(g.outputs()) + tuple(vt[v] for v in h.outputs()))
    eq(c, np.kron(mg, mh), r2, 'merging denotes the disjoint union')
    # extracting what was merged in gives it back
    k = r.subgraph_from_vertices(list(vs))
    wt = dict(zip(vs, sorted(k.vertices())))
    k.set_inputs(tuple(wt[vt[v]] for v in h.inputs()))
    k.set_outputs(tuple(wt[vt[v]] for v in h.outputs()))
    c.check(refsem.close(refsem.graph_matrix(h, scalar=False), refsem.graph_matrix(k, scalar=False)), 'the subgraph on all vertices of a diagram denotes it')
    c.check(all(len(h.grounds()) == len(k.grounds()) for _ in [0]), 'subgraph keeps grounds')
    # induced subgraph of a random vertex set
    sub = rng.sample(sorted(r.vertices()), rng.randint(0, r.num_vertices()))
    k = r.subgraph_from_vertices(list(sub))
    wt = dict(zip(sub, sorted(k.vertices())))
    c.check(k.num_vertices() == len(sub), 'subgraph has the vertices asked for')
    for v in sub:
        w = wt[v]
        c.check((r.type(v), r.phase(v), r.qubit(v), r.row(v), r.is_ground(v), {q: r.vdata(v, q) for q in r.vdata_keys(v)}) ==
                (k.type(w), k.phase(w), k.qubit(w), k.row(w), k.is_ground(w), {q: k.vdata(w, q) for q in k.vdata_keys(w)}), 'subgraph keeps the attributes of vertices')
    c.check(sorted((tuple(sorted(wt[x] for x in r.edge_st(e))), int(r.edge_type(e))) for e in r.edges() if set(r.edge_st(e)) <= set(sub)) ==
            sorted((tuple(sorted(k.edge_st(e))), int(k.edge_type(e))) for e in k.edges()), 'subgraph keeps exactly the edges inside')


KET = {'0': [1, 0], '1': [0, 1], '+': [2 ** -0.5, 2 ** -0.5], '-': [2 ** -0.5, -2 ** -0.5]}


@S.bounded('plug', 300, 4000, bound='random diagrams with at most 3+3 boundaries, state strings over 0,1,+,-,/ of every length up to the number of boundaries, both backends',
           functions=['BaseGraph.apply_state', 'BaseGraph.apply_effect'])
def plug(c):
    rng = c.rng
    b, g = fresh(c, io=(0, 3, 0, 3))
    state = rng.random() < 0.5
    n = len(g.inputs() if state else g.outputs())
    st = ''.join(rng.choice('01+-/') for _ in range(rng.randint(0, n)))
    c.note(string=st, what='state' if state else 'effect')
    m = refsem.graph_matrix(g)
    ins, outs = g.inputs(), g.outputs()
    P = np.eye(1)
    for i in range(n):
        P = np.kron(P, np.array(KET[st[i]]).reshape(2, 1) if i < len(st) and st[i] != '/' else np.eye(2))
    want = m @ P if state else P.T @ m
    g.apply_state(st) if state else g.apply_effect(st)
    eq(c, want, g, 'plugging a %s' % ('state' if state else 'effect'))
    c.check(tuple(g.inputs()) == tuple(v for i, v in enumerate(ins) if not state or i >= len(st) or st[i] == '/') and
            tuple(g.outputs()) == tuple(v for i, v in enumerate(outs) if state or i >= len(st) or st[i] == '/'), 'remaining interface after plugging')
    c.sig((gens.snapshot(g), st))


from props import c10p  # noqa: E402
c10p.register(S)
