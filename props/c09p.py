"""C09, deductive part: one edge added by the real add_edge / add_edges / add_edge_table between two vertices in an arbitrary state.

Every spider is taken in its own basis: its other legs (any number, to anything) all carry one bit x, so the diagram is
sum_{x,y} phase_s(x) phase_t(y) edges(x,y) context(x,y) and preserving phase_s phase_t edges times the scalar as a function of (x,y) is
preserving the map in every context.  A sequence of additions, of any length, follows by induction because the start state is arbitrary."""
import itertools
from pyvc import exact as X
from pyvc.core import path, Unsupported
from pyvc.ghost import GhostScalar

Z, XX, HB, W, ZB, BD = 1, 2, 3, 5, 6, 0


class PowerScalar(GhostScalar):
    """GhostScalar whose power of sqrt 2 may be a symbolic count"""
    def __init__(self):
        super().__init__()
        self.power = 0

    def add_power(self, n):
        self.power = self.power + n


class Cnt:
    """a*k+c for an arbitrary k >= 1"""
    def __init__(self, a, c):
        self.a, self.c = a, c

    def _o(self, o):
        if isinstance(o, Cnt):
            return o.a, o.c
        if isinstance(o, int):
            return 0, o
        raise Unsupported('count with %r' % (o,))

    def __add__(self, o):
        a, c = self._o(o)
        a, c = self.a + a, self.c + c
        return Cnt(a, c) if a else c
    __radd__ = __add__

    def __neg__(self):
        return Cnt(-self.a, -self.c)

    def __sub__(self, o):
        a, c = self._o(o)
        return self + (Cnt(-a, -c) if a else -c)

    def __rsub__(self, o):
        return (-self) + o

    def __mod__(self, m):
        if self.a % m:
            raise Unsupported('count modulo %r' % (m,))
        if not isinstance(m, int):
            raise Unsupported('count modulo %r' % (m,))
        return self.c % m

    def _cmp(self, o):
        """sign of self - o for all k >= 1"""
        a, c = self._o(o)
        a, c = self.a - a, self.c - c
        if a < 0:
            return -Cnt(-a, -c)._cmp(0)
        if a == 0:
            return (c > 0) - (c < 0)
        if a + c > 0:
            return 1
        if a + c == 0:  # fork on k = 1
            m = path().memo
            if 'k1' not in m:
                m['k1'] = path().choose(2) == 0
            return 0 if m['k1'] else 1
        raise Unsupported('comparison of counts')

    def __lt__(self, o): return self._cmp(o) < 0
    def __gt__(self, o): return self._cmp(o) > 0
    def __le__(self, o): return self._cmp(o) <= 0
    def __ge__(self, o): return self._cmp(o) >= 0
    def __eq__(self, o): return isinstance(o, (int, Cnt)) and self._cmp(o) == 0
    def __ne__(self, o): return not self == o
    def __bool__(self): return self != 0
    def __hash__(self): raise Unsupported('hash of a count')
    def __index__(self): raise Unsupported('count used as an index')

    def __repr__(self):
        return '%d*k%+d' % (self.a, self.c)


def value(x, ty, ph, lab):
    """factor of a spider holding bit x"""
    if not x:
        return X.ONE
    return X.Amp.of(lab) if ty == ZB else X.e(ph)


def wires(x, y, same, loop, ns, nh):
    """factor of ns simple and nh Hadamard wires as (0/1/-1, number of 1/sqrt2 factors)"""
    if loop:
        return (1 if not (x and int_par(nh)) else -1), nh
    fuse, hopf = (ns, nh) if same else (nh, ns)
    if pos(fuse) and x != y:
        return 0, hopf
    return (-1 if x and y and int_par(hopf) else 1), hopf


def int_par(n):
    return n % 2


def pos(n):
    return n > 0


def vtype(n):
    from pyzx.utils import VertexType as VT
    return {Z: VT.Z, XX: VT.X, HB: VT.H_BOX, W: VT.W_INPUT, ZB: VT.Z_BOX, BD: VT.BOUNDARY}[n]


def backend(name):
    from pyzx.graph.graph_s import GraphS
    from pyzx.graph.multigraph import Multigraph
    return GraphS() if name == 'simple' else Multigraph()


def fresh(name, t1, t2, loop=False):
    g = backend(name)
    g.scalar = PowerScalar()
    vs = list(g.add_vertices(4 if not loop else 3))
    s, t, w, u = (vs[0], vs[1], vs[2], vs[3]) if not loop else (vs[0], vs[0], vs[1], vs[2])
    for v, ty in ((s, t1), (t, t2), (w, Z), (u, XX)):
        g.set_type(v, vtype(ty))
    labs = {}
    for i, v in enumerate((s, t)):
        g._phase[v] = X.phase_sym('ab'[i]) if not (loop and i) else g._phase[v]
        if int(g.type(v)) == int(vtype(ZB)):
            g._phase[v] = 0
            g.set_vdata(v, 'label', X.e(X.phase_sym('lm'[i] if not loop else 'l')))
    g._phase[w], g._phase[u] = X.phase_sym('c'), X.phase_sym('d')
    g.set_inputs((w,))
    g.set_outputs((u,))
    from pyzx.utils import EdgeType as ET
    # bystanders on both
    for a, b, e in ((s, w, ET.SIMPLE), (t, u, ET.HADAMARD)):
        g.add_edge((a, b), e)
    return g, s, t, w, u


def counts(g, s, t):
    """(simple, hadamard) wires the data structure holds between s and t"""
    if t not in g.graph[s]:
        return 0, 0
    e = g.graph[s][t]
    if s != t and g.graph[t].get(s) is not e and g.graph[t].get(s) != e:
        raise AssertionError('asymmetric adjacency')
    if g.backend == 'simple':
        return (1, 0) if int(e) == 1 else (0, 1)
    return e.s, e.h


def frame(g, w, u, vs):
    return (list(g.vertices()), [g.type(v) for v in vs], g.inputs(), g.outputs(), [repr(g.phase(x)) for x in (w, u)],
            [[(a, shape(b)) for a, b in g.graph[x].items()] for x in (w, u)], sorted(g._vdata), g._grounds)


def shape(b):
    return int(b) if not hasattr(b, 's') else (b.s, b.h, b.w_io)


def eq_values(b, a, loop):
    """b, a: (types, phases, labels, (ns, nh), scalar): equal functions of the two bits; returns None or a message"""
    for x, y in ([(0, 0), (1, 1)] if loop else itertools.product((0, 1), repeat=2)):
        tot = []
        for (tys, phs, labs, (ns, nh), sc) in (b, a):
            sg, pw = wires(x, y, (tys[0] == XX) == (tys[1] == XX), loop, ns, nh)
            v = value(x, tys[0], phs[0], labs[0]) * (X.ONE if loop else value(y, tys[1], phs[1], labs[1])) * sc.val * sg
            tot.append((v, (sc.power - pw)))
        (v0, p0), (v1, p1) = tot
        sub = path().subst
        if v0.subst(sub).is_zero() and v1.subst(sub).is_zero():
            continue
        d = p0 - p1
        if isinstance(d, Cnt):
            if path().memo.get('k1') is not True:
                return 'powers of sqrt 2 differ: %r' % (d,)
            d = d.a + d.c
        if not (v0 * X.sqrt2pow(d) - v1).subst(sub).is_zero():
            return 'bits %d%d: %r before, %r after (sqrt2^%r)' % (x, y, v0, v1, -d)
    return None


def state(g, s, t, extra=(0, 0)):
    from pyzx.utils import VertexType as VT
    back = {int(vtype(k)): k for k in (Z, XX, HB, W, ZB, BD)}
    tys = [back[int(g.type(v))] for v in (s, t)]
    phs = [X.SymPhase.of(g.phase(v)) for v in (s, t)]
    phs = [X.mk(p) for p in phs]
    labs = [g.vdata(v, 'label', 1) if ty == ZB else 1 for v, ty in zip((s, t), tys)]
    ns, nh = counts(g, s, t)
    sc = PowerScalar()
    sc.val, sc.power = g.scalar.val, g.scalar.power
    return tys, phs, labs, (ns + extra[0], nh + extra[1]), sc


def one(P, bname, api, loop=False):
    from pyzx.utils import EdgeType as ET
    X.install()
    types = [(a, b) for a in (Z, XX, ZB) for b in (Z, XX, ZB)] if not loop else [(a, a) for a in (Z, XX, ZB)]
    starts = {'simple': [(0, 0), (1, 0), (0, 1)], 'multigraph': ['sym']}[bname] if not loop else (['none'] if bname == 'simple' else ['sym'])
    name = '%s.%s: %s added to an arbitrary state' % ({'simple': 'GraphS', 'multigraph': 'Multigraph'}[bname], api, 'a self-loop' if loop else 'an edge')

    def run(p):
        t1, t2 = types[p.choose(len(types))]
        et = (ET.SIMPLE, ET.HADAMARD)[p.choose(2)]
        st = starts[p.choose(len(starts))]
        swap = p.choose(2) if not loop else 0
        g, s, t, w, u = fresh(bname, t1, t2, loop)
        g.scalar.val = X.e(X.phase_sym('z'))   # an arbitrary unit factor stands for the scalar so far
        auto = True
        if st == 'sym':
            auto = p.choose(2) == 0
            g.set_auto_simplify(auto)
            arb = lambda i: i if i < 2 else Cnt(2, i - 2)   # 0, 1, or any number >= 2 of either parity
            ns0, nh0 = [(arb(i), j) for i in range(4) for j in range(2)][p.choose(8)] if p.choose(2) else [(j, arb(i)) for i in range(2, 4) for j in range(2)][p.choose(4)]
            from pyzx.graph.multigraph import Edge
            e = Edge(ns0, nh0)
            if not e.is_empty():
                g.graph[s][t] = g.graph[t][s] = e
            g.nedges = 100
        elif st != 'none' and sum(st):
            g.graph[s][t] = g.graph[t][s] = ET.SIMPLE if st[0] else ET.HADAMARD
            g.nedges += 1
        vs = (s, t, w, u)
        ext = (1, 0) if et == ET.SIMPLE else (0, 1)
        before = state(g, s, t, ext)
        fr = frame(g, w, u, vs)
        ne = g.nedges
        pair = (t, s) if swap else (s, t)
        if api == 'add_edge':
            g.add_edge(pair, et)
        elif api == 'add_edges':
            g.add_edges([pair], et)
        else:
            g.add_edge_table({pair: list(ext)})
        after = state(g, s, t)
        msg = eq_values(before, after, loop)
        if msg:
            return msg, (t1, t2, int(et), st, swap, auto)
        if frame(g, w, u, vs) != fr:
            return 'something not concerned changed', None
        ns, nh = after[3]
        if auto:
            if loop and (pos(ns) or pos(nh)):
                return 'a self-loop remains', None
            if ns > 1 or nh > 1 or (bname == 'simple' and ns + nh > 1):
                return 'parallel edges remain', None
        if bname == 'simple' and g.nedges - ne != sum(after[3]) - (sum(st) if st != 'none' else 0):
            return 'edge count', None
        return None, None
    paths = P.explore(run, max_paths=20000)
    bad = [r for _, r in paths if r[0]]

    def replay():
        return concrete(bname, api, loop)
    P.record('%s (%d cases)' % (name, len(paths)), not bad, 'normal form of exponential sums', detail=str(bad[:2]), replay=replay)


def concrete(bname, api, loop):
    import random
    from props import c09
    from lib import refsem
    from pyzx.utils import EdgeType as ET
    rng = random.Random(1)
    T = c09.zt()
    for i in range(400):
        b = rng.choice([1, 2, 4]), rng.choice([1, 2, 4])
        g, vs = c09.make(rng, [T[x] for x in (b[:1] if loop else b)], bname)
        v, w = (vs[0], vs[0]) if loop else vs
        seq = [rng.choice([1, 2]) for _ in range(rng.randint(1, 4))]
        from lib import gens
        d = gens.describe(g)
        ref = c09.drawn(g, [((v, w), ET(e)) for e in seq])
        try:
            for e in seq:
                pr = (v, w) if rng.random() < 0.5 else (w, v)
                if api == 'add_edge':
                    g.add_edge(pr, ET(e))
                elif api == 'add_edges':
                    g.add_edges([pr], ET(e))
                else:
                    g.add_edge_table({pr: [int(e == 1), int(e == 2)]})
            ok = refsem.close(refsem.graph_matrix(g), ref)
        except Exception as ex:
            ok = False
        if not ok:
            return dict(what='edges %s between types %s with %s on %s' % (seq, b, api, bname), data=dict(diagram=d, edges=seq, backend=bname, api=api))
    return None


def unreducible(P, bname):
    """vertices that cannot hold parallel edges: the attempt is refused and nothing changes"""
    from pyzx.utils import EdgeType as ET
    X.install()

    def run(p):
        t1, t2 = [(a, b) for a in (HB, BD, W) for b in (Z, HB, BD)][p.choose(9)]
        loop = p.choose(2)
        g, s, t, w, u = fresh(bname, t1, t1 if loop else t2, bool(loop))
        if not loop:
            g.graph[s][t] = g.graph[t][s] = (ET.SIMPLE, ET.HADAMARD)[p.choose(2)]
            g.nedges += 1
        et = (ET.SIMPLE, ET.HADAMARD)[p.choose(2)]
        full = lambda: (frame(g, w, u, (s, t, w, u)), [[(a, shape(b)) for a, b in g.graph[x].items()] for x in (s, t)], repr(g.phase(s)), repr(g.phase(t)), g.nedges, g.scalar.power, repr(g.scalar.val))
        f0 = full()
        try:
            (g.add_edge if p.choose(2) else lambda e, y: g.add_edge_table({e: [int(y == ET.SIMPLE), int(y == ET.HADAMARD)]}))((s, t), et)
        except ValueError:
            return None if full() == f0 else 'refused but changed something'
        return 'accepted'
    paths = P.explore(run)
    bad = [r for _, r in paths if r]
    P.record('GraphS.add_edge refuses unreducible parallel edges and leaves the diagram alone (%d cases)' % len(paths), not bad, 'symbolic execution', detail=str(bad[:2]))


def table(P):
    """add_edge_table over an arbitrary table: the loops add one edge each; cut by invariant"""
    import ast
    import inspect
    import textwrap
    from pyzx.graph.base import BaseGraph
    from pyzx.utils import EdgeType as ET
    src = textwrap.dedent(inspect.getsource(BaseGraph.add_edge_table))
    done = []

    class Many:
        """range(n) for an arbitrary natural n: its loop is run once, for an arbitrary iteration, and is equivalent to n additions"""
        def __init__(self, n): self.n = n
        def __iter__(self):
            done.append(['times', self.n, []])
            yield object()
            done.append(['end'])

    class G(BaseGraph):
        def __init__(self): pass
        def add_edge(self, st, et=ET.SIMPLE):
            if not done or done[-1][0] != 'times':
                raise Unsupported('add_edge outside a counted loop')
            done[-1][2].append((st, int(et)))

    class Table:
        def items(self):
            yield ('s', 't'), ('#s', '#h')
            yield ('v', 'v'), ('#s2', '#h2')
    fn = BaseGraph.add_edge_table
    import types
    glob = dict(fn.__globals__, range=Many)
    try:
        types.FunctionType(fn.__code__, glob)(G(), Table())
        got = [(d[1], d[2]) for d in done if d[0] == 'times']
    except (AttributeError, TypeError) as ex:
        raise Unsupported('add_edge_table does not have the form of counted loops: %s' % ex)
    tot = {}
    for n, adds in got:
        for st, et in adds:
            tot.setdefault((st, et), []).append(n)
    want = {(('s', 't'), 1): ['#s'], (('s', 't'), 2): ['#h'], (('v', 'v'), 1): ['#s2'], (('v', 'v'), 2): ['#h2']}
    ok = tot == want
    P.record('add_edge_table adds exactly the requested number of edges of each kind, for all multiplicities', ok, 'symbolic execution', detail='%s' % (tot,),
             replay=lambda: table_replay())


def table_replay():
    import random
    from props import c09
    from lib import refsem, gens
    from pyzx.utils import EdgeType as ET
    rng = random.Random(3)
    T = c09.zt()
    for i in range(300):
        b = rng.choice([1, 2]), rng.choice([1, 2])
        g, (v, w) = c09.make(rng, [T[x] for x in b], rng.choice(['simple', 'multigraph']))
        m = [rng.randint(0, 4), rng.randint(0, 4)]
        ref = c09.drawn(g, [((v, w), ET.SIMPLE)] * m[0] + [((v, w), ET.HADAMARD)] * m[1])
        d = gens.describe(g)
        try:
            g.add_edge_table({(v, w): list(m)})
            ok = refsem.close(refsem.graph_matrix(g), ref)
        except Exception:
            ok = False
        if not ok:
            return dict(what='table %s' % m, data=dict(diagram=d, table=m))
    return False


def register(S):
    for b, cl in (('simple', 'GraphS'), ('multigraph', 'Multigraph')):
        S.proof('one edge, %s' % b, functions=['pyzx.graph.%s.%s.%s' % ('graph_s' if b == 'simple' else b, cl, m) for m in ('add_edge', 'add_edges', 'set_edge_type', 'remove_edge', 'add_to_phase')], limit=120)(
            lambda P, b=b: [one(P, b, a, l) for a in ('add_edge', 'add_edges', 'table') for l in (False, True)])
    S.proof('refusals', functions=['pyzx.graph.graph_s.GraphS.add_edge'], limit=60)(lambda P: unreducible(P, 'simple'))
    S.proof('tables', functions=['pyzx.graph.base.BaseGraph.add_edge_table'], limit=60)(table)
