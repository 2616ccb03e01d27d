"""C17: reported generalised flows are valid and complete."""
import itertools
from lib.harness import Suite, Skip
from lib import gens

S = Suite('C17', 'proof',
          note='Contract of gflow(g): a result (l, c, k) has c(u) disjoint from the inputs, l strictly decreasing from u to c(u) and to Odd(c(u)) minus u, u in Odd(c(u)), for every vertex that is not an output; None only if no such choice exists. Ensures g unchanged.',
          rule='bounded part: conditions checked from their definition, existence by enumerating subsets layer by layer and, up to 5 measured vertices, by trying every order; non-trivial = distinct open graphs')


def open_graph(g):
    """neighbours, inputs, outputs, measured vertices of the diagram viewed as an open graph (input boundaries stripped)"""
    nb = {v: set(g.neighbors(v)) for v in g.vertices()}
    ins, strip = set(), set()
    for i in g.inputs():
        if g.type(i) == 0:
            strip.add(i)
            ins |= nb[i]
        else:
            ins.add(i)
    outs = set(g.outputs()) | set(g.grounds())
    strip -= ins
    nb = {v: n - strip for v, n in nb.items() if v not in strip}
    return nb, ins, outs, set(nb) - outs


def odd(nb, s):
    r = set()
    for v in s:
        r ^= nb[v]
    return r


def layered(nb, ins, outs, meas):
    """does a gflow exist: greedy layers, correction sets by enumeration"""
    done = set(outs)
    while meas - done:
        cand = sorted(done - ins)
        new = set()
        for r in range(len(cand) + 1):
            for s in itertools.combinations(cand, r):
                o = odd(nb, s) - done
                if len(o) == 1:
                    new |= o
        if not new:
            return False
        done |= new
    return True


def by_orders(nb, ins, outs, meas):
    """does a gflow exist: every order in which the vertices could be measured (last first)"""
    for p in itertools.permutations(sorted(meas)):
        done = set(outs)
        for u in p:
            cand = sorted(done - ins)
            if not any(odd(nb, s) - done == {u} for r in range(len(cand) + 1) for s in itertools.combinations(cand, r)):
                break
            done.add(u)
        else:
            return True
    return False


def judge(c, g):
    from pyzx.gflow import gflow
    snap = gens.snapshot(g)
    nb, ins, outs, meas = open_graph(g)
    r = gflow(g)
    c.check(gens.snapshot(g) == snap, 'gflow changed the diagram', key='gflow changes the diagram')
    c.note(result=None if r is None else [{int(k): int(v) for k, v in r[0].items()}, {int(k): sorted(map(int, v)) for k, v in r[1].items()}, r[2]])
    if r is not None:
        l, cor, _k = r
        c.check(set(l) == set(nb), 'levels given for %s, not for %s' % (sorted(l), sorted(nb)), key='gflow levels')
        c.check(set(cor) == meas, 'corrections given for %s, not for %s' % (sorted(cor), sorted(meas)), key='gflow correction domain')
        for u, s in cor.items():
            c.check(not s & ins, 'correction set of %s contains inputs' % u, key='gflow corrects inputs')
            c.check(all(l[w] < l[u] for w in s), 'correction set of %s is not later' % u, key='gflow order')
            o = odd(nb, s)
            c.check(u in o, '%s not in the odd neighbourhood of its correction set' % u, key='gflow odd neighbourhood')
            c.check(all(l[w] < l[u] for w in o if w != u), 'odd neighbourhood of the correction set of %s is not later' % u, key='gflow odd order')
    else:
        c.check(not layered(nb, ins, outs, meas), 'no gflow reported although there is one', key='gflow incomplete')
        if len(meas) <= 5:
            c.check(not by_orders(nb, ins, outs, meas), 'no gflow reported although there is one', key='gflow incomplete')
    c.sig((snap,))
    return r


@S.bounded('random open graphs', quick=4000, thorough=60000, split=4, bound='up to 9 inner vertices, 3 inputs and 3 outputs, both backends', functions=['gflow', 'bi_adj', 'Mat2.solve'])
def _(c):
    from pyzx.utils import VertexType, EdgeType
    rng = c.rng
    g = gens.new_graph(rng.choice(['simple', 'simple', 'simple', 'multigraph']))
    n = rng.randint(1, 9)
    vs = [g.add_vertex(VertexType.Z, phase=gens.phase(rng)) for _ in range(n)]
    p = rng.choice([0.15, 0.3, 0.5])
    for i in range(n):
        for j in range(i):
            if rng.random() < p:
                g.add_edge((vs[i], vs[j]), EdgeType.HADAMARD)
    ins, outs = [], []
    pool = vs[:]
    rng.shuffle(pool)
    for v in pool[:rng.randint(0, min(3, n))]:
        if rng.random() < 0.8:
            b = g.add_vertex(VertexType.BOUNDARY)
            g.add_edge((b, v), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
            ins.append(b)
        else:
            ins.append(v)
    rng.shuffle(pool)
    for v in pool[:rng.randint(0, min(4, n))]:
        if rng.random() < 0.75:
            b = g.add_vertex(VertexType.BOUNDARY)
            g.add_edge((b, v), rng.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
            outs.append(b)
        elif v not in ins:
            outs.append(v)
    if rng.random() < 0.15:
        a, b = g.add_vertex(VertexType.BOUNDARY), g.add_vertex(VertexType.BOUNDARY)
        g.add_edge((a, b))
        ins.append(a)
        outs.append(b)
    if rng.random() < 0.1:
        g.set_ground(rng.choice(vs), True)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    c.note(graph=gens.describe(g), inputs=ins, outputs=outs)
    judge(c, g)


@S.bounded('circuits', quick=150, thorough=2000, split=2, bound='simplified circuits of up to 4 qubits: a gflow must exist', functions=['gflow'])
def _(c):
    import pyzx as zx
    rng = c.rng
    circ = gens.rand_circuit(rng, (1, 4), (0, 18), gens.GATES_BASIC)
    g = circ.to_graph()
    zx.simplify.to_gh(g) if rng.random() < 0.3 else None
    zx.to_graph_like(g)
    f = rng.choice([None, zx.simplify.interior_clifford_simp, zx.simplify.pivot_simp, zx.simplify.lcomp_simp])
    if f is not None:
        f(g)
    c.note(gates=[str(x) for x in circ.gates], step=getattr(f, '__name__', None))
    c.check(judge(c, g) is not None, 'the diagram of a circuit has no gflow', key='circuit without gflow')


from props import c17p  # noqa: E402
c17p.register(S)
