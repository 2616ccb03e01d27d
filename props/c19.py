"""C19: tensor and matrix evaluation is the standard semantics of the diagram."""
from fractions import Fraction
import itertools
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C19', 'proof',
          note='Contract of tensorfy(g, preserve_scalar): the contraction of the defining tensors of the vertices along the edges (identity or Hadamard), outputs before inputs in interface order, times the scalar (dropped up to a nonzero factor without preserve_scalar); g unchanged. Contracts of the generator tensors, pop_and_shift, tensor_to_matrix, compose_tensors, adjoint.',
          rule='bounded part: the reference contraction of lib/refsem.py; non-trivial = distinct diagram')


def layout(rng, g, mode):
    """places the vertices anywhere; in mode 2 all in one place; in mode 0 the library defaults remain"""
    for v in g.vertices():
        if mode == 1:
            g.set_position(v, rng.randint(-3, 6), rng.randint(-3, 6))
        elif mode == 2:
            g.set_position(v, 0, 0)
        elif mode == 3:
            g.set_position(v, rng.random() * 3, rng.choice([0.5, 0.25, 1, -1.5]))


def any_diagram(rng, maxv=7):
    """a diagram over every vertex and edge type, both backends, any numbering; multigraphs keep parallel edges and loops"""
    from pyzx.utils import VertexType, EdgeType
    multi = rng.random() < 0.4
    g = gens.new_graph('multigraph' if multi else 'simple')
    if multi and rng.random() < 0.7:
        g.set_auto_simplify(False)
    auto = not multi or g._auto_simplify
    if rng.random() < 0.5:  # gaps in the numbering
        g.remove_vertices(g.add_vertices(rng.randint(1, 3)))
    ni, no, n = rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, maxv)
    order = ['i'] * ni + ['o'] * no + ['v'] * n
    rng.shuffle(order)
    ins, outs, vs = [], [], []
    types = rng.choice([(1, 2), (1, 2, 3), (1, 2, 6), (1, 2, 3, 4, 6), (3,), (1, 4, 6)])
    bare = rng.random() < 0.15
    for k in order:
        if bare:
            v = g.add_vertices(1)[0]
        else:
            v = g.add_vertex(VertexType.BOUNDARY, rng.randrange(4), rng.randrange(8))
        if k == 'i':
            ins.append(v)
        elif k == 'o':
            outs.append(v)
        else:
            ty = rng.choice(types)
            if ty == 4:
                w = g.add_vertex(VertexType.W_OUTPUT, 0, rng.randrange(8))
                g.set_type(v, VertexType.W_INPUT)
                g.add_edge((v, w), EdgeType.W_IO)
                vs += [v, w]
            else:
                g.set_type(v, VertexType(ty))
                if ty == 6:
                    g.set_vdata(v, 'label', rng.choice([0, 1, 2, -0.5, 1j, 0.6 + 0.8j, -1]))
                else:
                    g.set_phase(v, gens.phase(rng, 'mix'))
                vs.append(v)
    win = {v: 1 for v in vs if g.type(v) == VertexType.W_INPUT}
    et = lambda: rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD])

    def room(v):
        return g.vertex_degree(v) < 5 and not (g.type(v) == VertexType.W_INPUT and not win[v])

    def join(a, b, t):
        for x in (a, b):
            if x in win:
                win[x] -= 1
        g.add_edge((a, b), t)
    for a, b in itertools.combinations(vs, 2):
        if rng.random() < 0.45 and room(a) and room(b) and not g.connected(a, b):
            join(a, b, et())
    if not auto:
        zx = [v for v in vs if v not in win]
        for _ in range(rng.randint(0, 3)):
            if zx:
                a = rng.choice(zx)
                b = rng.choice(zx)
                if room(a) and room(b):
                    for _ in range(rng.randint(1, 2)):
                        g.add_edge((a, b), et())
    bs = ins + outs
    rng.shuffle(bs)
    while bs:
        b = bs.pop()
        if bs and rng.random() < 0.2:
            g.add_edge((b, bs.pop()), et())
            continue
        ok = [v for v in vs if room(v) and not g.connected(b, v)]
        if not ok:
            z = g.add_vertex(VertexType.Z, 0, rng.randrange(8))
            vs.append(z)
            ok = [z]
        join(b, rng.choice(ok), et())
    for v in win:
        if win[v]:
            z = g.add_vertex(VertexType.Z, 0, rng.randrange(8), phase=Fraction(1, 4))
            g.add_edge((v, z), et())
    rng.shuffle(ins)
    rng.shuffle(outs)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    gens.rand_scalar(g, rng)
    return g


def judge(c, g, what):
    from pyzx.tensor import tensorfy
    ref = refsem.graph_tensor(g)
    s = gens.snapshot(g)
    t = g.to_tensor()
    c.check(np.shape(t) == ref.shape, '%s: shape %s, expected %s' % (what, np.shape(t), ref.shape), key='tensor shape')
    c.check(refsem.close(t, ref, 1e-8), '%s: the tensor is not the contraction of the diagram' % what, key='tensor value')
    m = g.to_matrix()
    c.check(refsem.close(m, ref.reshape(2 ** len(g.outputs()), 2 ** len(g.inputs())), 1e-8), '%s: matrix is not outputs by inputs' % what, key='matrix value')
    u = g.to_tensor(preserve_scalar=False)
    r0 = refsem.graph_tensor(g, scalar=False)
    if abs(r0).max() > 1e-6:
        c.check(refsem.close_up_to_scalar(u, r0, 1e-8), '%s: without scalar not proportional' % what, key='tensor without scalar')
    c.check(gens.snapshot(g) == s, 'evaluation changed the diagram', key='evaluation changes the diagram')
    c.sig((s,))
    return ref


@S.bounded('diagrams', quick=2500, thorough=40000, split=4, limit=250, bound='up to 7 vertices plus wires, every vertex type, parallel edges and self-loops on multigraphs, any positions and numbering',
           functions=['tensorfy', 'pop_and_shift', 'Z_to_tensor', 'X_to_tensor', 'H_to_tensor', 'W_to_tensor', 'Z_box_to_tensor', 'tensor_to_matrix'])
def _(c):
    rng = c.rng
    g = any_diagram(rng)
    mode = rng.randrange(4)
    layout(rng, g, mode)
    c.note(diagram=gens.describe(g), rows=[(v, g.row(v)) for v in g.vertices()])
    ref = judge(c, g, 'diagram')
    layout(rng, g, rng.choice([1, 2, 3]))
    c.note(rows2=[(v, g.row(v)) for v in g.vertices()])
    c.check(refsem.close(g.to_tensor(), ref, 1e-8), 'the value depends on the positions', key='tensor position')


@S.bounded('many rows', quick=60, thorough=600, limit=120, bound='one or two wires and up to 60 rows whose partial contractions are between 1e-12 and 1e12', functions=['tensorfy'])
def _(c):
    import pyzx as zx
    from pyzx.utils import VertexType as VT
    rng = c.rng
    g = zx.Graph(backend=rng.choice(['simple', 'multigraph']))
    small = rng.random() < 0.7
    rows = rng.randint(12, 60)
    prev, outs, power = None, [], 0
    if rng.random() < 0.5:
        prev = g.add_vertex(VT.BOUNDARY, 0, 0)
        g.set_inputs((prev,))
    for r in range(1, rows):
        if prev is not None:
            v = g.add_vertex(rng.choice([VT.Z, VT.X]), 0, r, phase=Fraction(rng.randrange(8), 4))
            g.add_edge((prev, v), rng.choice([1, 2]))
            prev = v
        if prev is None or rng.random() < 0.5:
            g.add_vertex(rng.choice([VT.Z, VT.X]), 1, r, phase=Fraction(7, 8) if small else Fraction(1, 8))
            power += 1
    if prev is not None:
        o = g.add_vertex(VT.BOUNDARY, 0, rows)
        g.add_edge((prev, o))
        g.set_outputs((o,))
    g.scalar.add_power(rng.randint(0, 3 * power) if small else -rng.randint(0, 2 * power))
    c.note(rows=rows, diagram=gens.describe(g))
    want = refsem.graph_tensor(g)
    s = abs(want).max()
    c.sig((gens.snapshot(g),))
    c.check(np.allclose(g.to_tensor() / s, want / s, atol=1e-8), 'value of a diagram of %d rows' % rows, key='many rows')
    u = g.to_tensor(preserve_scalar=False)
    c.check(refsem.close_up_to_scalar(u / abs(u).max(), want / s, 1e-8), 'value of a diagram of %d rows without scalar' % rows, key='many rows')


@S.bounded('renamed', quick=1000, thorough=15000, split=2, limit=250, bound='a copy with other vertex numbers, other backend and reordered interface', functions=['tensorfy', 'copy'])
def _(c):
    rng = c.rng
    g = any_diagram(rng, 6)
    ref = refsem.graph_tensor(g)
    h = gens.new_graph('multigraph')
    h.set_auto_simplify(False)
    vs = list(g.vertices())
    rng.shuffle(vs)
    m = {}
    for v in vs:
        m[v] = h.add_vertex(g.type(v), rng.randint(0, 3), rng.randint(0, 3))
        h.set_phase(m[v], g.phase(v))
        for k in g.vdata_keys(v):
            h.set_vdata(m[v], k, g.vdata(v, k))
    es = [(g.edge_st(e), g.edge_type(e)) for e in g.edges()]
    rng.shuffle(es)
    for (s, t), ty in es:
        h.add_edge((m[s], m[t]) if rng.random() < 0.5 else (m[t], m[s]), ty)
    pi, po = list(range(g.num_inputs())), list(range(g.num_outputs()))
    rng.shuffle(pi)
    rng.shuffle(po)
    h.set_inputs(tuple(m[g.inputs()[i]] for i in pi))
    h.set_outputs(tuple(m[g.outputs()[i]] for i in po))
    h.scalar = g.scalar.copy()
    c.note(diagram=gens.describe(g), renaming={str(k): v for k, v in m.items()}, inputs=pi, outputs=po)
    want = np.transpose(ref, po + [len(po) + i for i in pi])
    c.check(refsem.close(h.to_tensor(), want, 1e-8), 'the value depends on names, backend or edge order', key='tensor renaming')
    c.sig(gens.snapshot(g))


@S.bounded('circuits', quick=600, thorough=8000, split=2, bound='circuits of up to 4 qubits and 14 gates', functions=['Circuit.to_tensor', 'Circuit.to_matrix', 'compose_tensors', 'adjoint'])
def _(c):
    from pyzx.tensor import compose_tensors, adjoint, tensor_to_matrix
    rng = c.rng
    n = rng.randint(1, 4)
    a = gens.rand_circuit(rng, (n, n), (0, 12), gens.GATES_ALL)
    b = gens.rand_circuit(rng, (n, n), (0, 6), gens.GATES_T)
    c.note(a=[str(g) for g in a.gates], b=[str(g) for g in b.gates], n=n)
    ma, mb = gens.circuit_matrix(a), gens.circuit_matrix(b)
    s = gens.gates_snapshot(a)
    c.check(refsem.close_up_to_phase(a.to_matrix(), ma), 'circuit matrix is wrong', key='circuit matrix')
    ma, mb = refsem.graph_matrix(a.to_graph()), refsem.graph_matrix(b.to_graph())
    ta, tb = a.to_tensor(), b.to_tensor()
    c.check(refsem.close(a.to_matrix(), ma) and refsem.close(np.reshape(ta, ma.shape), ma), 'circuit tensor is wrong', key='circuit tensor')
    c.check(gens.gates_snapshot(a) == s, 'evaluation changed the circuit', key='evaluation changes the circuit')
    c.check(refsem.close(tensor_to_matrix(compose_tensors(ta, tb), n, n), mb @ ma), 'composed tensor is not the composition', key='compose_tensors')
    c.check(refsem.close(tensor_to_matrix(adjoint(ta), n, n), ma.conj().T), 'adjoint tensor is not the adjoint', key='adjoint')
    c.sig(s)


@S.bounded('generators', quick=600, thorough=6000, bound='arities 0 to 6, any phase', functions=['Z_to_tensor', 'X_to_tensor', 'H_to_tensor', 'W_to_tensor', 'Z_box_to_tensor'])
def _(c):
    from pyzx import tensor as T
    rng = c.rng
    k = c.i % 7
    p = rng.choice([0, 1, 0.5, 0.25, 1.5, rng.uniform(-3, 3), rng.uniform(-3, 3)])
    x = np.exp(1j * np.pi * p)
    lab = complex(rng.uniform(-2, 2), rng.uniform(-2, 2)) if rng.random() < 0.7 else rng.choice([0, 1, -1, 1j])
    c.note(arity=k, phase=p, label=str(lab))
    for name, got, want in [('Z', T.Z_to_tensor(k, np.pi * p), refsem.spider_z(k, x)), ('X', T.X_to_tensor(k, np.pi * p), refsem.spider_x(k, x)),
                            ('H', T.H_to_tensor(k, np.pi * p), refsem.hbox(k, x)), ('W', T.W_to_tensor(k), refsem.wnode(k)), ('Z box', T.Z_box_to_tensor(k, lab), refsem.spider_z(k, lab))]:
        c.check(np.shape(got) == np.shape(want) and refsem.close(got, want, 1e-10), '%s tensor of arity %d is wrong' % (name, k), key='%s tensor' % name)
    c.sig((k, p))


@S.bounded('tensor_to_matrix', quick=500, thorough=5000, bound='up to 4 outputs and 4 inputs', functions=['tensor_to_matrix'])
def _(c):
    from pyzx.tensor import tensor_to_matrix
    rng = c.rng
    o, i = rng.randint(0, 4), rng.randint(0, 4)
    t = np.random.RandomState(rng.randrange(2 ** 31)).randn(*(2,) * (o + i))
    t = np.array(t)
    c.note(outputs=o, inputs=i)
    m = tensor_to_matrix(t, i, o)
    c.check(np.array_equal(m, t.reshape(2 ** o, 2 ** i)), 'not the row-major matrix', key='tensor_to_matrix')
    c.sig((o, i))


@S.bounded('rejections', quick=60, thorough=200, bound='symbolic phases, ground marks, bad boundaries', functions=['tensorfy'])
def _(c):
    from pyzx.symbolic import new_var
    rng = c.rng
    g = gens.rand_graph(rng, nv=(1, 4), io=(1, 2, 1, 2), wires=False)
    v = rng.choice([v for v in g.vertices() if g.type(v) != 0])
    k = rng.randrange(2)
    if k == 0:
        g.set_phase(v, new_var('a', {'a': False}))
    else:
        g.set_ground(v, True)
    c.note(kind=k)
    try:
        g.to_tensor()
    except ValueError:
        pass
    else:
        c.check(False, 'no error for a diagram without a map', key='rejected diagrams')
    c.sig((c.i,))


from props import c19p  # noqa: E402
c19p.register(S)
