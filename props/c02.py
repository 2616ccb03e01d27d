"""C02: simplification strategies terminate, preserve the linear map, and deliver the promised shape."""
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C02', 'proof',
          note='bounded part: random diagrams through every strategy, linear map compared exactly with the reference semantics, shape checked independently',
          rule='bounded part: a random diagram on which the strategy changes something; non-trivial = distinct diagram changed')

BACK = ['simple', 'simple', 'multigraph']


def symbolic(rng, g):
    """puts variables on some spiders"""
    from pyzx.symbolic import new_var
    env = {'a': 0.37, 'b': rng.choice([0, 1]), 'c': -1.21}
    for v in g.vertices():
        if g.type(v) in (1, 2) and rng.random() < 0.4:
            x = rng.choice('abc')
            g.variable_types.setdefault(x, x == 'b')
            p = new_var(x, g.variable_types)
            r = rng.random()
            if r < 0.3:
                p = -p
            elif r < 0.5:
                p = p + Fraction(1, 4)
            elif r < 0.7:
                p = p + 1
            g.set_phase(v, p)
    return env


def zx(rng, backend=None, **kw):
    r = rng.random()
    if r < 0.35:
        return gens.rand_graph(rng, backend=backend, phases=rng.choice(['mix', 'clifford', 'T', 'pauli']), density=rng.choice([0.3, 0.6]), **kw)
    if r < 0.7:
        return gens.graph_like(rng, backend=backend, nv=(2, 8), phases=rng.choice(['mix', 'clifford', 'T', 'pauli']), **{k: v for k, v in kw.items() if k == 'io'})
    c = gens.rand_circuit(rng, n=(1, 3), depth=(1, 25), gates=rng.choice([gens.GATES_T, gens.GATES_CLIFF, gens.GATES_BASIC]))
    g = c.to_graph(backend=backend or 'simple')
    if kw.get('io') == (0, 0, 0, 0):
        g.apply_state(''.join(rng.choice('01+-') for _ in range(c.qubits)))
        g.apply_effect(''.join(rng.choice('01+-') for _ in range(c.qubits)))
    elif rng.random() < 0.3:
        g.apply_state(''.join(rng.choice('01+-/') for _ in range(c.qubits)))
    gens.rand_scalar(g, rng)
    return g


def run(c, make, strat, shape=None, env=None, inplace=True, exact=True):
    rng = c.rng
    g = make(rng)
    e = symbolic(rng, g) if env and rng.random() < 0.2 else None
    d = gens.describe(g)
    c.note(diagram=d, symbols=e)
    ins, outs = tuple(g.inputs()), tuple(g.outputs())
    m = refsem.graph_matrix(g, env=e)
    s = gens.snapshot(g)
    t = tcount(g) if e is None else None
    r = strat(g, rng)
    h = r if not inplace else g
    if inplace:
        c.check(tuple(h.inputs()) == ins and tuple(h.outputs()) == outs, 'the interface changed')
    if gens.snapshot(h) != s:
        c.sig((s, repr(e)))
    if e is not None and h.scalar.is_unknown:      # the scalar says of itself that it is not known
        c.check(abs(m).max() < 1e-9 or refsem.close_up_to_scalar(m, refsem.graph_matrix(h, env=e, scalar=False)), 'the linear map changed')
        return h
    m2 = refsem.graph_matrix(h, env=e)
    c.check(refsem.close(m, m2), 'the linear map changed%s' % ('' if not refsem.close_up_to_scalar(m, m2) else ' (by a scalar factor)'), key='linear map changed', after=gens.describe(h))
    if shape and e is None:
        shape(c, h)
    if t is not None and getattr(strat, 'tcount', True) and tcount(h) > t:
        c.check(False, 'the number of non-Clifford spiders grew')
    return h


def tcount(g):
    return sum(1 for v in g.vertices() if g.type(v) in (1, 2) and (2 * g.phase(v)) % 1 != 0)


def spider(g, v):
    return g.type(v) == 1


def is_gl(c, g, zonly=True):
    for v in g.vertices():
        c.check(g.type(v) in (0, 1), 'a vertex other than boundaries and Z spiders is left')
    seen = set()
    for e in g.edges():
        s, t = g.edge_st(e)
        c.check(s != t and frozenset((s, t)) not in seen, 'self-loop or parallel edge left')
        seen.add(frozenset((s, t)))
        if spider(g, s) and spider(g, t):
            c.check(g.edge_type(e) == 2, 'a plain edge between spiders is left')


def no_clifford(c, g):
    is_gl(c, g)
    inter = [v for v in g.vertices() if spider(g, v) and all(spider(g, n) for n in g.neighbors(v))]
    for v in inter:
        if g.vertex_degree(v) == 0:
            continue
        c.check(g.phase(v) % 1 != Fraction(1, 2), 'an interior spider with phase +-pi/2 is left')
        c.check(not (g.phase(v) == 0 and g.vertex_degree(v) == 2), 'an identity spider is left')
        if g.phase(v) % 1 == 0:
            for n in g.neighbors(v):
                c.check(not (n in inter and g.phase(n) % 1 == 0), 'two adjacent interior Pauli spiders are left')


def is_pauli(x):
    return x % 1 == 0


def interior(g, v):
    return spider(g, v) and g.vertex_degree(v) > 0 and all(spider(g, n) for n in g.neighbors(v))


def hub(g, v):
    return any(g.vertex_degree(n) == 1 for n in g.neighbors(v))


def clifford_shape(c, g):
    no_clifford(c, g)
    for v in g.vertices():
        if interior(g, v) and is_pauli(g.phase(v)) and not hub(g, v):
            for n in g.neighbors(v):
                bs = [w for w in g.neighbors(n) if not spider(g, w)]
                c.check(len(bs) != 1, 'an interior Pauli spider next to a spider with one boundary is left')


def full_shape(c, g):
    clifford_shape(c, g)
    gad = set()
    for v in g.vertices():
        if interior(g, v) and is_pauli(g.phase(v)):
            leaves = [n for n in g.neighbors(v) if g.vertex_degree(n) == 1 and not is_pauli(g.phase(n))]
            if len(leaves) == 1 and g.vertex_degree(v) > 1:
                k = frozenset(set(g.neighbors(v)) - set(leaves))
                c.check(k not in gad, 'two phase gadgets on the same spiders are left')
                gad.add(k)
            elif not hub(g, v):
                for n in g.neighbors(v):
                    c.check(not (interior(g, n) and not is_pauli(g.phase(n)) and g.vertex_degree(n) > 1), 'an interior Pauli spider next to an interior non-Pauli spider is left')


B = 'random ZX diagrams of at most 8 spiders, or circuits of at most 3 qubits and 25 gates; phases multiples of pi/4, Clifford, or fractions with denominators up to 16; 20% with symbols; both backends'


def case(name, strat, shape=None, make=None, quick=120, **kw):
    mk = make or (lambda rng: zx(rng, backend=rng.choice(BACK)))

    @S.bounded(name, quick, quick * 20, bound=B, functions=['pyzx.simplify.' + name], split=2, limit=20)
    def f(c):
        run(c, mk, strat, shape, env=True, **kw)
    return f


def _s(name):
    def f(g, rng):
        from pyzx import simplify
        getattr(simplify, name)(g, quiet=True)
    return f


gl = lambda rng: gens.graph_like(rng, nv=(2, 8), phases=rng.choice(['mix', 'clifford', 'T', 'pauli']), backend=rng.choice(BACK))
for n in ('spider_simp', 'id_simp', 'interior_clifford_simp', 'clifford_simp', 'full_reduce'):
    case(n, _s(n), dict(interior_clifford_simp=no_clifford, clifford_simp=clifford_shape, full_reduce=full_shape).get(n), quick=160)
for n in ('pivot_simp', 'lcomp_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'gadget_simp', 'supplementarity_simp', 'copy_simp'):
    case(n, _s(n), make=gl, quick=100)
scal = lambda rng: zx(rng, io=(0, 0, 0, 0))


def _scal(rng):
    from pyzx import simplify
    g = scal(rng)
    simplify.to_gh(g)
    return g


case('reduce_scalar', _s('reduce_scalar'), make=_scal)
case('bialg_simp', _s('bialg_simp'), make=lambda rng: gens.rand_graph(rng, phases='pauli', density=0.3, had=0.1, nv=(2, 5)))
case('phase_free_simp', _s('phase_free_simp'), make=lambda rng: phase_free(rng))


def phase_free(rng):
    g = gens.rand_graph(rng, density=0.3, had=0.1, nv=(2, 6))
    for v in g.vertices():
        if g.type(v) in (1, 2):
            g.set_phase(v, 0)
    return g


def _gh(g, rng):
    from pyzx import simplify
    simplify.to_gh(g)


def _gh_shape(c, g):
    c.check(all(g.type(v) != 2 for v in g.vertices()), 'an X spider is left')


case('to_gh', _gh, _gh_shape)


def _rg(g, rng):
    from pyzx import simplify
    if rng.random() < 0.5:
        simplify.to_rg(g)
    else:
        sel = {v for v in g.vertices() if rng.random() < 0.5}
        simplify.to_rg(g, select=lambda v: v in sel)


case('to_rg', _rg)


def _graph_like(g, rng):
    from pyzx import simplify
    simplify.to_graph_like(g)


def _strict(c, g):
    from pyzx import simplify
    is_gl(c, g)
    for v in g.vertices():
        if g.type(v) == 0:
            c.check(g.vertex_degree(v) == 1 and spider(g, list(g.neighbors(v))[0]), 'a boundary not attached to a spider is left')
        else:
            c.check(sum(1 for n in g.neighbors(v) if g.type(n) == 0) <= 1, 'a spider with two boundaries is left')
    c.check(simplify.is_graph_like(g, strict=True), 'is_graph_like denies a graph-like diagram')


case('to_graph_like', _graph_like, _strict)


@S.bounded('is_graph_like', 200, 4000, bound=B, functions=['pyzx.simplify.is_graph_like'], split=2)
def graph_like_test(c):
    from pyzx import simplify
    rng = c.rng
    g = gens.graph_like(rng, simple_boundary=1.0) if rng.random() < 0.5 else zx(rng)
    if rng.random() < 0.3:
        es = list(g.edges())
        if es:
            e = rng.choice(es)
            g.set_edge_type(e, 3 - g.edge_type(e))
    s = gens.snapshot(g)
    want = all(g.type(v) in (0, 1) for v in g.vertices()) and all(g.edge_type(e) == 2 for e in g.edges() if all(g.type(x) == 1 for x in g.edge_st(e)))
    c.sig(s)
    c.note(diagram=gens.describe(g))
    c.check(simplify.is_graph_like(g) == want, 'is_graph_like misjudges a diagram')
    ws = want and all(g.vertex_degree(v) == 1 and g.type(list(g.neighbors(v))[0]) == 1 for v in g.vertices() if g.type(v) == 0) \
        and all(sum(1 for n in g.neighbors(v) if g.type(n) == 0) <= 1 for v in g.vertices() if g.type(v) == 1)
    c.check(simplify.is_graph_like(g, strict=True) == ws, 'is_graph_like(strict) misjudges a diagram')
    c.check(gens.snapshot(g) == s, 'is_graph_like changed the diagram')


# ------------------------------------------------------- filtered and iterator versions
def _matchf(g, rng):
    from pyzx import simplify
    vs = {v for v in g.vertices() if rng.random() < 0.7}
    name = rng.choice(['id_simp', 'spider_simp'])
    if name == 'spider_simp':
        simplify.spider_simp(g, matchf=lambda v: v in vs, quiet=True)
    else:
        simplify.id_simp(g, matchf=lambda v: v in vs, quiet=True)


case('restricted by a filter', _matchf)


@S.bounded('iterators', 80, 1500, bound=B, functions=['pyzx.simplify.simp_iter', '*_iter'], split=4, limit=30)
def iterators(c):
    from pyzx import simplify
    rng = c.rng
    g = zx(rng)
    d = gens.describe(g)
    m = refsem.graph_matrix(g)
    name = rng.choice(['full_reduce_iter', 'clifford_iter', 'interior_clifford_iter'])
    c.note(diagram=d, strategy=name)
    c.sig(d)
    k = 0
    for h, step in getattr(simplify, name)(g):
        k += 1
        c.check(h is g, 'the iterator yields the diagram')
        c.check(refsem.close(m, refsem.graph_matrix(g)), 'the linear map changed in step ' + step, key='linear map changed in a step')
        if k > 400:
            c.check(False, 'the strategy does not stop')
    dict(full_reduce_iter=full_shape, clifford_iter=clifford_shape, interior_clifford_iter=no_clifford)[name](c, g)


# ------------------------------------------------------- whole strategies on circuits
def circ(rng, **kw):
    return gens.rand_circuit(rng, n=(1, 4), depth=(1, 40), **kw)


@S.bounded('teleport_reduce', 200, 4000, bound='circuits of at most 4 qubits and 40 gates or 8 Toffoli gates, random diagrams', functions=['pyzx.simplify.teleport_reduce', 'pyzx.simplify.Simplifier.fuse_phases'], split=4)
def teleport(c):
    from pyzx import simplify
    rng = c.rng
    if rng.random() < 0.5:
        g = gens.toffoli_circuit(rng, k=(3, 8)).to_graph()
        if rng.random() < 0.3:
            simplify.to_gh(g)
    elif rng.random() < 0.6:
        g = circ(rng, gates=rng.choice([gens.GATES_T, gens.GATES_BASIC, [('HAD', 1), ('T', 1), ('CNOT', 2)]]), phases=rng.choice(['mix', 'T'])).to_graph()
        if rng.random() < 0.3:
            simplify.to_gh(g)
        gens.rand_scalar(g, rng)
    else:
        g = zx(rng)
    d = gens.describe(g)
    c.note(diagram=d)
    m = refsem.graph_matrix(g)
    s = gens.snapshot(g)
    h = simplify.teleport_reduce(g, quiet=True)
    c.check(gens.snapshot(g) == s, 'teleport_reduce changed its argument')
    c.sig(s)
    m2 = refsem.graph_matrix(h)
    # the scalar of the result is that of the input; phases teleport up to a global phase, which is documented as not tracked
    c.check(refsem.close_up_to_phase(m, m2), 'the linear map changed', after=gens.describe(h))
    c.check(tcount(h) <= tcount(g), 'the number of non-Clifford spiders grew')
    c.check(h.num_vertices() == g.num_vertices() and h.num_edges() == g.num_edges(), 'the structure of the diagram changed')
    vt = dict(zip(sorted(g.vertices()), sorted(h.vertices())))
    c.check(all(h.type(vt[v]) == g.type(v) for v in g.vertices()) and
            sorted((tuple(sorted(vt[x] for x in g.edge_st(e))), int(g.edge_type(e))) for e in g.edges()) ==
            sorted((tuple(sorted(h.edge_st(e))), int(h.edge_type(e))) for e in h.edges()), 'the structure of the diagram changed')


@S.bounded('clifford_normal_form', 150, 3000, bound='Clifford circuits of at most 4 qubits and 40 gates', functions=['pyzx.simplify.to_clifford_normal_form_graph', 'BaseGraph.normalize'], split=4)
def cnf(c):
    from pyzx import simplify
    rng = c.rng
    k = circ(rng, gates=gens.GATES_CLIFF)
    g = k.to_graph()
    gens.rand_scalar(g, rng)
    m = refsem.graph_matrix(g)
    c.note(circuit=repr(k.gates))
    c.sig(repr(k.gates))
    simplify.to_clifford_normal_form_graph(g)
    c.check(refsem.close(m, refsem.graph_matrix(g)), 'the linear map changed', after=gens.describe(g))
    # layers: no vertex besides boundaries, Z spiders, and X spiders of the parity layer; every boundary on one spider
    for v in g.vertices():
        if g.type(v) == 0:
            c.check(g.vertex_degree(v) == 1, 'bad boundary')
        else:
            c.check((2 * g.phase(v)) % 1 == 0, 'non-Clifford phase')
    for v in g.vertices():
        if g.type(v) == 2:
            c.check(g.phase(v) == 0 and all(g.type(n) == 1 for n in g.neighbors(v)), 'X spiders make up a phase-free parity layer')


@S.bounded('normalize', 150, 3000, bound=B, functions=['BaseGraph.normalize'], split=2)
def normalize(c):
    from pyzx import simplify
    rng = c.rng
    g = circ(rng, gates=gens.GATES_T).to_graph()
    simplify.full_reduce(g)
    gens.rand_scalar(g, rng)
    m = refsem.graph_matrix(g)
    ins, outs = tuple(g.inputs()), tuple(g.outputs())
    c.note(diagram=gens.describe(g))
    c.sig(gens.describe(g))
    # relabelled qubits: normalize orders boundaries by their qubit positions
    g.normalize()
    c.check(tuple(g.inputs()) == ins and tuple(g.outputs()) == outs, 'the interface changed')
    c.check(refsem.close(m, refsem.graph_matrix(g)), 'the linear map changed', after=gens.describe(g))
    for b in ins + outs:
        c.check(g.vertex_degree(b) == 1 and g.type(list(g.neighbors(b))[0]) == 1, 'a boundary is not attached to a spider')


from props import c02p  # noqa: E402
c02p.register(S)
