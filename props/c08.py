"""C08: graph mutations keep the diagram data structure consistent."""
from fractions import Fraction
from collections import Counter
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C08', 'proof',
          note='Contract: a class invariant of the graph (symmetric adjacency over existing vertices, total type/phase maps, interface vertices exist, index above all '
               'vertices) and, per method, the abstract state it produces and its frame.',
          rule='bounded part: a random history of public operations, compared after every operation with an abstract model; non-trivial = distinct history')


class Model:
    """abstract state: vertices with attributes, multiset of edges"""
    def __init__(self):
        self.v, self.e, self.ins, self.outs = {}, Counter(), (), ()

    def add(self, v, ty, ph, q, r, ground):
        self.v[v] = dict(ty=ty, ph=ph, q=q, r=r, g=ground, d={})

    def deg(self, v):
        return sum(n for (a, b, t), n in self.e.items() if v in (a, b))

    def nb(self, v):
        return {b if a == v else a for (a, b, t), n in self.e.items() if n and v in (a, b)}


def norm(ph):
    return ph % 2


def invariant(c, g, m, multi):
    V = set(g.vertices())
    c.check(V == set(m.v) == g.vertex_set() and len(list(g.vertices())) == len(V) == g.num_vertices(), 'vertex listing', key='vertices')
    es = Counter()
    for e in g.edges():
        s, t = g.edge_st(e)
        c.check(s in V and t in V, 'edge to a missing vertex', key='edge ends')
        c.check(g.edge_s(e) == s and g.edge_t(e) == t, 'edge_s/edge_t', key='edge_st')
        es[(min(s, t), max(s, t), int(g.edge_type(e)))] += 1
    c.check(es == +m.e, 'edges are %s instead of %s' % (dict(es), dict(m.e)), key='edges')
    c.check(g.num_edges() == sum(es.values()), 'num_edges=%s but %s edges are listed' % (g.num_edges(), sum(es.values())), key='num_edges')
    c.check(set(g.edge_set()) == set(g.edges()), 'edge_set', key='edge_set')
    for v in V:
        a = m.v[v]
        c.check(g.type(v) == a['ty'] == g.types()[v], 'type of a vertex', key='type')
        c.check(g.phase(v) == a['ph'] and g.phases()[v] == a['ph'], 'phase of %s is %s instead of %s' % (v, g.phase(v), a['ph']), key='phase')
        c.check(g.qubit(v) == a['q'] and g.row(v) == a['r'] and g.qubits().get(v, -1) == a['q'] and g.rows().get(v, -1) == a['r'], 'position', key='position')
        c.check(g.is_ground(v) == a['g'] == (v in g.grounds()), 'ground', key='ground')
        c.check({k: g.vdata(v, k) for k in g.vdata_keys(v)} == a['d'], 'vertex data', key='vdata')
        nb = set(g.neighbors(v))
        c.check(nb == m.nb(v) and len(list(g.neighbors(v))) == len(nb), 'neighbors of %s: %s instead of %s' % (v, nb, m.nb(v)), key='neighbors')
        c.check(g.vertex_degree(v) == m.deg(v), 'degree of %s: %s instead of %s' % (v, g.vertex_degree(v), m.deg(v)), key='degree')
        inc = Counter((min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in g.incident_edges(v))
        c.check(inc == Counter({k: n for k, n in m.e.items() if n and v in k[:2]}), 'incident edges', key='incident')
        c.check(Counter((min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in g.edges(v)) == inc, 'edges(v)', key='edges(v)')
        for w in V:
            n = {k: x for k, x in m.e.items() if x and set(k[:2]) == {v, w} and (v != w or k[0] == k[1])}
            c.check(bool(g.connected(v, w)) == bool(n), 'connected(%s,%s)' % (v, w), key='connected')
            if v != w or n:
                c.check(Counter((min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in g.edges(v, w)) == Counter(n), 'edges(v,w)', key='edges(v,w)')
            if len(n) == 1 and sum(n.values()) == 1:
                e = g.edge(v, w)
                c.check(set(g.edge_st(e)) == {v, w} and int(g.edge_type(e)) == list(n)[0][2] and e in set(g.edges()), 'edge(v,w)', key='edge')
    c.check(tuple(g.inputs()) == m.ins and tuple(g.outputs()) == m.outs and g.num_inputs() == len(m.ins) and g.num_outputs() == len(m.outs), 'interface', key='interface')
    c.check(all(v < g.vindex() for v in V), 'next index not above all vertices', key='vindex')
    rows = [a['r'] for a in m.v.values() if a['r'] != -1 or True]
    if V:
        c.check(g.depth() == max(list(g.rows().values()), default=-1), 'depth', key='depth')


@S.bounded('random histories against an abstract model', quick=600, thorough=12000, bound='histories of up to 40 operations, at most 9 vertices, both backends', split=8,
           functions=['GraphS.*', 'Multigraph.*', 'BaseGraph.add_vertex', 'BaseGraph.set_position', 'BaseGraph.edge_s', 'BaseGraph.edge_t'])
def _(c):
    from pyzx.graph import Graph
    from pyzx.utils import VertexType as VT, EdgeType as ET
    rng = c.rng
    backend = rng.choice(['simple', 'simple', 'multigraph'])
    multi = backend == 'multigraph'
    auto = True
    g, m = Graph(backend), Model()
    if multi and rng.random() < 0.7:
        g.set_auto_simplify(False)
        auto = False
    hist = []
    c.note(backend=backend, auto_simplify=auto, history=hist)
    types = [VT.BOUNDARY, VT.Z, VT.X, VT.H_BOX, VT.Z_BOX]
    invariant(c, g, m, multi)
    for step in range(rng.randint(5, 40)):
        V = list(m.v)
        op = rng.choice(['add', 'add', 'edge', 'edge', 'edge', 'addmany', 'rmv', 'rmvs', 'rme', 'rmes', 'etype', 'type', 'phase', 'addphase', 'pos', 'ground', 'vdata', 'io', 'indexed', 'addedges', 'scalar'])
        if op == 'add' and len(V) < 9:
            ty = rng.choice(types)
            ph = rng.choice([None, Fraction(1, 4), Fraction(5, 2), 1, 0, Fraction(-1, 3)])
            q, r, gr = rng.randrange(-2, 4), rng.randrange(-2, 7), rng.random() < 0.1
            hist.append((op, int(ty), str(ph), q, r, gr))
            top = max(V, default=-1)
            v = g.add_vertex(ty, q, r, ph, gr)
            c.check(v not in m.v and v > top, 'add_vertex returned %s, used or not above all others' % v, key='add fresh')
            m.add(v, ty, norm(ph if ph is not None else (1 if ty == VT.H_BOX else 0)), q, r, gr)
        elif op == 'addmany' and len(V) < 7:
            k = rng.randint(0, 2)
            hist.append((op, k))
            vs = list(g.add_vertices(k))
            c.check(len(set(vs)) == k and not set(vs) & set(m.v), 'add_vertices', key='addmany')
            for v in vs:
                m.add(v, VT.BOUNDARY, 0, -1, -1, False)
        elif op == 'indexed' and len(V) < 9:
            v = rng.randrange(12)
            hist.append((op, v))
            try:
                g.add_vertex_indexed(v)
                ok = True
            except ValueError:
                ok = False
            c.check(ok == (v not in m.v), 'add_vertex_indexed(%s) with vertices %s' % (v, V), key='indexed')
            if ok:
                m.add(v, VT.BOUNDARY, 0, -1, -1, False)
        elif op == 'edge' and len(V) > 1:
            s, t = rng.sample(V, 2)
            if multi and not auto and rng.random() < 0.25:
                t = s
            et = rng.choice([ET.SIMPLE, ET.HADAMARD])
            k = (min(s, t), max(s, t))
            if (not multi or auto) and any(m.e[k + (x,)] for x in (1, 2)):
                continue
            hist.append((op, s, t, int(et)))
            e = g.add_edge((s, t), et)
            c.check(set(g.edge_st(e)) == {s, t} and int(g.edge_type(e)) == et, 'add_edge returned %s' % (e,), key='add_edge id')
            m.e[k + (int(et),)] += 1
        elif op == 'addedges' and len(V) > 2:
            prs = [tuple(rng.sample(V, 2)) for _ in range(rng.randint(0, 2))]
            prs = [p for p in prs if not any(m.e[(min(p), max(p), x)] for x in (1, 2))]
            if len({(min(p), max(p)) for p in prs}) < len(prs):
                continue
            et = rng.choice([ET.SIMPLE, ET.HADAMARD])
            hist.append((op, prs, int(et)))
            g.add_edges(prs, et)
            for s, t in prs:
                m.e[(min(s, t), max(s, t), int(et))] += 1
        elif op in ('rmv', 'rmvs') and V and rng.random() < 0.5:
            vs = rng.sample(V, 1 if op == 'rmv' else rng.randint(0, min(3, len(V))))
            hist.append((op, vs))
            if op == 'rmv':
                g.remove_vertex(vs[0])
            else:
                g.remove_vertices(vs)
            for v in vs:
                del m.v[v]
                for k in [k for k in m.e if v in k[:2]]:
                    del m.e[k]
                m.ins = tuple(x for x in m.ins if x != v)
                m.outs = tuple(x for x in m.outs if x != v)
        elif op in ('rme', 'rmes', 'etype'):
            es = list(g.edges())
            if not es:
                continue
            if op == 'etype':
                e = rng.choice(es)
                s, t = g.edge_st(e)
                old, new = int(g.edge_type(e)), rng.choice([1, 2])
                hist.append((op, s, t, old, new))
                g.set_edge_type(e, ET(new))
                m.e[(min(s, t), max(s, t), old)] -= 1
                m.e[(min(s, t), max(s, t), new)] += 1
            else:
                sel = [rng.choice(es)] if op == 'rme' else rng.sample(es, rng.randint(0, min(2, len(es))))
                ks = [(min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in sel]
                hist.append((op, ks))
                if op == 'rme':
                    g.remove_edge(sel[0])
                else:
                    g.remove_edges(sel)
                for k in ks:
                    m.e[k] -= 1
            m.e = +m.e
        elif op in ('type', 'phase', 'addphase', 'pos', 'ground', 'vdata') and V:
            v = rng.choice(V)
            a = m.v[v]
            ph = rng.choice([Fraction(1, 2), Fraction(9, 4), -1, 0, Fraction(-3, 8), 2])
            if op == 'type':
                ty = rng.choice(types)
                hist.append((op, v, int(ty)))
                g.set_type(v, ty)
                a['ty'] = ty
            elif op == 'phase':
                hist.append((op, v, str(ph)))
                g.set_phase(v, ph)
                a['ph'] = norm(ph)
            elif op == 'addphase':
                hist.append((op, v, str(ph)))
                g.add_to_phase(v, ph)
                a['ph'] = norm(a['ph'] + ph)
            elif op == 'pos':
                q, r = rng.choice([0, 1, -3, 2.5]), rng.choice([0, 1, 7, -1.5])
                k = rng.randrange(3)
                hist.append((op, v, q, r, k))
                if k == 0:
                    g.set_qubit(v, q)
                    a['q'] = q
                elif k == 1:
                    g.set_row(v, r)
                    a['r'] = r
                else:
                    g.set_position(v, q, r)
                    a['q'], a['r'] = q, r
            elif op == 'ground':
                f = rng.random() < 0.5
                hist.append((op, v, f))
                g.set_ground(v, f)
                a['g'] = f
            else:
                k, x = rng.choice('ab'), rng.randrange(5)
                hist.append((op, v, k, x))
                g.set_vdata(v, k, x)
                a['d'][k] = x
                c.check(g.vdata(v, 'missing', 7) == 7 and g.vdata(v, k) == x, 'vdata default', key='vdata')
        elif op == 'io' and V:
            vs = rng.sample(V, rng.randint(0, min(4, len(V))))
            k = rng.randint(0, len(vs))
            hist.append((op, vs, k))
            m.ins, m.outs = tuple(vs[:k]), tuple(vs[k:] if rng.random() < 0.7 else rng.sample(V, rng.randint(0, min(3, len(V)))))
            hist[-1] += (m.outs,)
            g.set_inputs(m.ins)
            g.set_outputs(m.outs)
        elif op == 'scalar' and rng.random() < 0.2 and len(m.v) > 1:
            h = g.clone()
            hist.append(('clone and edit the clone',))
            v = rng.choice(V)
            h.set_phase(v, Fraction(1, 7))
            h.set_vdata(v, 'a', 99)
            h.set_ground(v, True)
            for e in list(h.edges())[:1]:
                h.set_edge_type(e, ET.HADAMARD if h.edge_type(e) == ET.SIMPLE else ET.SIMPLE)
            h.remove_vertex(v)
            if rng.random() < 0.3:
                g2 = g.clone()
                invariant(c, g2, m, multi)
                g = g2
        invariant(c, g, m, multi)
    c.sig((backend, auto, hist))


def isolated_case(c, g):
    before = refsem.graph_matrix(g)
    desc = gens.describe(g)
    c.note(diagram=desc)
    c.sig(desc)
    n = g.num_vertices()
    keep = {v for v in g.vertices() if g.type(v) == 0}
    g.remove_isolated_vertices()
    c.check(refsem.close(before, refsem.graph_matrix(g)), 'remove_isolated_vertices changes the linear map', key='isolated')
    c.check(keep <= set(g.vertices()) and all(g.vertex_degree(v) > 0 for v in g.vertices()), 'isolated vertices remain or a boundary was removed', key='isolated left')


@S.bounded('removing isolated vertices accounts for them', quick=300, thorough=5000, bound='up to 7 vertices, all vertex types', functions=['BaseGraph.remove_isolated_vertices'], split=4)
def _(c):
    rng = c.rng
    g = gens.rand_graph(rng, types=(1, 2, 3), nv=(1, 6), density=rng.choice([0.1, 0.25]), backend=rng.choice([None, 'multigraph']))
    if any(g.vertex_degree(v) == 1 and g.type(next(iter(g.neighbors(v)))) == 3 and False for v in g.vertices()):
        raise Skip()
    isolated_case(c, g)


from props import c08p  # noqa: E402
c08p.register(S)
