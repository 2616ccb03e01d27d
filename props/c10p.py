"""C10, deductive part.

Copy, clone, adjoint, translate, tensor, merge, sub-diagram, composition: the real methods run on diagrams of generic elements (every
combination of vertex types at both ends of an edge, arbitrary phases, box labels, user data, ground marks and scalar, arbitrary names).
The loops are pointwise maps: during the iteration for one vertex (edge) only the entries of that vertex (its ends) are read, which is
recorded and is an obligation, so what is shown for the generic elements holds for any number of them.  Plugging (composition, basis
states and effects) is decided by exact evaluation of the result against the composed maps."""
import itertools
from fractions import Fraction
import numpy as np
from pyvc import exact as X
from pyvc.core import path, Unsupported, discharge
from pyvc.ghost import GhostScalar

_S = [None]
PAIRS = [(a, b) for a in range(7) for b in range(a + 1)]


def VT(n):
    from pyzx.utils import VertexType
    return {int(x): x for x in VertexType.__members__.values()}[n] if hasattr(VertexType, '__members__') else VertexType(n)


def ET(n):
    from pyzx.utils import EdgeType
    return EdgeType(n)


def klass(b):
    from pyzx.graph.graph_s import GraphS
    from pyzx.graph.multigraph import Multigraph
    return GraphS if b == 'simple' else Multigraph


# ------------------------------------------------------------------ recording of reads inside loops
class Watch:
    """what a loop over the source may read in the current iteration"""
    def __init__(self):
        self.cur = None
        self.iterations = 0
        self.bad = []

    def key(self, what, k):
        if self.cur is not None and k not in self.cur:
            self.bad.append('the iteration for %r reads %s of %r' % (self.cur, what, k))

    def all(self, what):
        if self.cur is not None:
            self.bad.append('the iteration for %r reads all of %s' % (self.cur, what))


class WDict(dict):
    def watch(self, w, name):
        self.w, self.name = w, name
        return self

    def __getitem__(self, k):
        self.w.key(self.name, k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.w.key(self.name, k)
        return dict.get(self, k, d)

    def items(self):
        self.w.all(self.name)
        return dict.items(self)

    def values(self):
        self.w.all(self.name)
        return dict.values(self)

    def copy(self):
        self.w.all(self.name)
        return dict(self)


def watched(g, w):
    """g with its vertices() and edges() loops recorded"""
    base = type(g)

    class Watched(base):
        def vertices(self):
            def it():
                for v in list(base.vertices(self)):
                    w.cur = (v,)
                    w.iterations += 1
                    yield v
                w.cur = None
            return it() if self.armed else base.vertices(self)

        def edges(self, s=None, t=None):
            def it():
                for e in es:
                    w.cur = tuple(self.edge_st(e))
                    w.iterations += 1
                    yield e
                w.cur = None
            if s is not None or not self.armed:
                return base.edges(self, s, t)
            es = list(base.edges(self))
            return it()
    Watched.__name__ = base.__name__
    Watched.armed = False
    for a in ('ty', '_phase', '_qindex', '_rindex', '_vdata'):
        setattr(g, a, WDict(getattr(g, a)).watch(w, a))
    g.__class__ = Watched
    return g


# ------------------------------------------------------------------ generic diagrams
def generic(p, b, tag, types, edges, ins=(), outs=(), names=None, grounds=True, auto=None, symbolic=2):
    """a diagram on vertices 0..n-1 of the given types; edges (i, j, [edge types]); phases, labels, user data, scalar arbitrary"""
    g = klass(b)()
    n = len(types)
    names = names or list(range(n))
    if b == 'multigraph' and auto is not None:
        g.set_auto_simplify(auto)
    for k, (v, ty) in enumerate(zip(names, types)):
        g.add_vertex_indexed(v)
        g.ty[v] = VT(ty)
        g._phase[v] = 0 if ty in (0, 6) else X.phase_sym('%s%d' % (tag, k)) if k < symbolic else Fraction(2 * k + 1, 7)
        if k % 3 != 2:     # positions are optional
            g.set_qubit(v, 10 + k)
            g.set_row(v, 20 + k)
        g.set_vdata(v, 'tok', (tag, k))
        if ty == 6:
            g.set_vdata(v, 'label', X.e(X.phase_sym('%sl%d' % (tag, k))))
        if grounds and k % 2:
            g.set_ground(v, True)
    from pyzx.graph.multigraph import Edge
    for i, j, ts in edges:
        u, v = names[i], names[j]
        if not ts:
            continue
        if b == 'simple':
            g.graph[u][v] = g.graph[v][u] = ET(ts[0])
            g.nedges += 1
        else:
            e = Edge(ts.count(1), ts.count(2), ts.count(3))
            g.graph[u][v] = g.graph[v][u] = e
            g.nedges += len(ts)
    g.set_inputs(tuple(names[i] for i in ins))
    g.set_outputs(tuple(names[i] for i in outs))
    g.scalar = GhostScalar()
    g.scalar.val = X.e(X.phase_sym('z' + tag)) * X.sqrt2pow(1)
    g.variable_types = {'var' + tag: True}
    return g


def red(ph):
    return repr(X.mk(X.SymPhase.of(ph) % 2) if not isinstance(ph, X.SymPhase) else ph % 2)


def same_phase(a, b):
    d = X.SymPhase.of(a)
    d2 = X.SymPhase.of(b)
    return (X.e(X.mk(d) if not isinstance(d, X.SymPhase) else d) - X.e(X.mk(d2) if not isinstance(d2, X.SymPhase) else d2)).is_zero()


def amp(ph):
    return X.e(ph)


def attrs(g, v):
    """observable attributes of a vertex, positions left out; phases and labels as amplitudes"""
    return dict(type=int(g.type(v)), phase=X.e(g.phase(v)), ground=bool(g.is_ground(v)),
                data={k: g.vdata(v, k) for k in g.vdata_keys(v)})


def attr_diff(a, b, conj=False):
    if a['type'] != b['type']:
        return 'type %s became %s' % (a['type'], b['type'])
    want = a['phase'].conj() if conj else a['phase']
    if not (want - b['phase']).is_zero():
        return 'phase %r became %r' % (a['phase'], b['phase'])
    if a['ground'] != b['ground']:
        return 'ground mark'
    if set(a['data']) != set(b['data']):
        return 'user data keys %s became %s' % (sorted(a['data']), sorted(b['data']))
    for k, x in a['data'].items():
        y = b['data'][k]
        if isinstance(x, X.Amp):
            if not isinstance(y, X.Amp) or not ((x.conj() if conj else x) - y).is_zero():
                return 'label %r became %r' % (x, y)
        elif x != y:
            return 'user data %s' % k
    return None


def edge_multiset(g, f):
    return sorted((tuple(sorted((f(s), f(t)))), int(g.edge_type(e))) for e in g.edges() for s, t in [g.edge_st(e)])


def tok(g):
    return lambda v: g.vdata(v, 'tok', None)


def frozen(g):
    """every attribute of the object, for unchanged operands"""
    def fz(x):
        if isinstance(x, dict):
            return ('d', [(k, fz(v)) for k, v in x.items()])
        if isinstance(x, (set, frozenset)):
            return ('s', sorted(map(repr, x)))
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [fz(y) for y in x])
        if hasattr(x, 's') and hasattr(x, 'h') and hasattr(x, 'w_io'):
            return ('edge', x.s, x.h, x.w_io)
        if isinstance(x, GhostScalar):
            return repr(x.val)
        return repr(x)
    skip = ('_maxq', '_maxr')
    return [(k, fz(v)) for k, v in sorted(g.__dict__.items()) if k not in skip]


def mutables(g):
    """ids of every mutable part of the object (values stored by the user are opaque)"""
    out = {}

    def go(x, at):
        if id(x) in out or isinstance(x, (str, int, float, complex, Fraction, X.Amp, type(None), type)):
            return
        import enum
        if isinstance(x, (enum.Enum,)) or callable(x):
            return
        if isinstance(x, tuple):
            for y in x:
                go(y, at)
            return
        out[id(x)] = (at, x)
        if isinstance(x, dict):
            for k, y in dict.items(x):
                if not at.endswith('_vdata[]'):
                    go(y, at + '[]')
        elif isinstance(x, (list, set)):
            for y in x:
                go(y, at + '[]')
        elif hasattr(x, '__dict__'):
            for k, y in x.__dict__.items():
                go(y, at + '.' + k)
    for k, y in g.__dict__.items():
        go(y, k)
    return out


def shared(a, b):
    ma, mb = mutables(a), mutables(b)
    s = [(ma[i][0], mb[i][0]) for i in set(ma) & set(mb)]
    return ('shares mutable state: %s' % s[:3]) if s else None


def nospread(w):
    """the pointwise premise of the loops"""
    return w.bad[0] if w.bad else None


def iso(src, dst, conj=False, also=(), drop=(), iface=True):
    """dst is the disjoint union of the sources (by token)"""
    want = {}
    for g in (src,) + tuple(also):
        for v in g.vertices():
            if tok(g)(v) not in drop:
                want[tok(g)(v)] = attrs(g, v)
    got = {}
    for v in dst.vertices():
        t = tok(dst)(v)
        if t in got:
            return 'vertex %s twice' % (t,)
        got[t] = attrs(dst, v)
    if set(want) != set(got):
        return 'vertices %s instead of %s' % (sorted(map(str, got)), sorted(map(str, want)))
    for t in want:
        m = attr_diff(want[t], got[t], conj)
        if m:
            return 'vertex %s: %s' % (t, m)
    we = sorted(sum((edge_multiset(g, tok(g)) for g in (src,) + tuple(also)), []))
    we = [e for e in we if not set(e[0]) & set(drop)]
    ge = edge_multiset(dst, tok(dst))
    if we != ge:
        return 'edges %s instead of %s' % (ge, we)
    return None


def edge_cases(b):
    """edges between two generic vertices"""
    return [[], [1], [2], [3]] + ([[1, 1, 2], [2, 2, 2]] if b == 'multigraph' else [])


def setup(p, b):
    """three generic vertices, the first two of every pair of types, joined in every way; each may be a boundary"""
    t0, t1 = PAIRS[p.choose(len(PAIRS))]
    es = edge_cases(b)[p.choose(len(edge_cases(b)))]
    zx = (1, 2, 6)
    multi = len(es) > 1
    var = p.choose(3)
    names = ([0, 1, 2], [7, 2, 4], [1, 0, 2])[var]
    # vertices[3], [4] are boundaries in the interface
    types = [t0, t1, 3, 0, 0]
    edges = [(0, 1, es), (2, 1, [2]), (0, 3, [1]), (4, 2, [2])]
    io = [((3,), (4,)), ((3, 4), ()), ((), (4, 3))][var]
    auto = None
    if b == 'multigraph':
        auto = False if multi else (t0 + t1 + var) % 2 == 0
        if not auto and t0 in zx:
            edges.append((0, 0, [1]))     # a self-loop, in the graphs that hold them
    return generic(p, b, 's', types, edges, io[0], io[1], names=names + [names[0] + 10, names[1] + 20], auto=auto)


def iface(src, dst, f, ins, outs):
    if [tok(dst)(v) for v in dst.inputs()] != list(ins):
        return 'inputs %s' % (dst.inputs(),)
    if [tok(dst)(v) for v in dst.outputs()] != list(outs):
        return 'outputs %s' % (dst.outputs(),)


def toks(g, vs):
    return [tok(g)(v) for v in vs]


class Patched:
    """Scalar() made by the constructors of diagrams is the contract scalar during the run"""
    def __enter__(self):
        import pyzx.graph.base as B
        self.B, self.old = B, B.Scalar
        B.Scalar = GhostScalar

    def __exit__(self, *a):
        self.B.Scalar = self.old


def op(P, b, what):
    X.install()
    tracked = [0, None]

    def run(p):
        with Patched():
            g = setup(p, b)
            auto = getattr(g, '_auto_simplify', None)
            w = Watch()
            f0 = frozen(g)
            exp = g.scalar.val
            ins, outs = toks(g, g.inputs()), toks(g, g.outputs())
            conj = False
            also, drop = (), ()
            vs = list(g.vertices())
            if what == 'copy':
                type(watched(g, w)).armed = True
                r = g.copy()
            elif what == 'copy to the other backend':
                if auto is False:
                    return None
                type(watched(g, w)).armed = True
                r = g.copy(backend='multigraph' if b == 'simple' else 'simple')
            elif what == 'adjoint':
                type(watched(g, w)).armed = True
                r = g.adjoint() if p.choose(2) else g.copy(adjoint=True)
                conj, ins, outs, exp = True, outs, ins, exp.conj()
            elif what == 'clone':
                r = g.clone()
                d = [(x, y) for x, y in zip(frozen(g), frozen(r)) if x != y]
                if d or len(frozen(g)) != len(frozen(r)):
                    return 'the clone differs: %s' % (d[:1],)
            elif what == 'translate':
                type(watched(g, w)).armed = True
                r = g.translate(3, 4)
            elif what in ('tensor', 'merge'):
                h = generic(p, b, 'o', [1, 6, 0, 2], [(0, 1, [2]), (2, 0, [1]), (3, 0, [1])], (2,), (), auto=auto, symbolic=0)
                if p.choose(2):
                    g, h = h, g
                    ins, outs = toks(g, g.inputs()), toks(g, g.outputs())
                fg, fh = frozen(g), frozen(h)
                also = (h,)
                exp = g.scalar.val * h.scalar.val
                type(watched(h, w)).armed = True
                if what == 'tensor':
                    r = g.tensor(h) if p.choose(2) else g @ h
                    ins, outs = ins + toks(h, h.inputs()), outs + toks(h, h.outputs())
                else:
                    r = g.clone()
                    gv = list(r.vertices())
                    vs_, es_ = r.merge(h)
                    if sorted(toks(r, vs_), key=str) != sorted(toks(h, klass(b).vertices(h)), key=str):
                        return 'merge returns %s as the new vertices' % (vs_,)
                    ge = sorted((tuple(sorted((tok(r)(s), tok(r)(t)))), int(r.edge_type(e))) for e in es_ for s, t in [r.edge_st(e)])
                    type(h).armed = False
                    if ge != edge_multiset(h, tok(h)):
                        return 'merge returns %s as the new edges' % (es_,)
                    if list(r.vertices())[:len(gv)] != gv:
                        return 'the vertices of the receiver were renamed'
            elif what == 'sub-diagram':
                sub = [[], [0, 1], [1, 0, 2], [2], [0, 3, 2], [0, 1, 2, 3, 4]][p.choose(6)]
                names = [v for v in g.vertices()]
                sub = [names[i] for i in sub]
                drop = [tok(g)(v) for v in names if v not in sub]
                type(watched(g, w)).armed = True
                r = g.subgraph_from_vertices(list(sub))
                ins = outs = []
                exp = X.ONE
            for h in (g,) + tuple(also):
                if type(h).__name__ and hasattr(type(h), 'armed'):
                    type(h).armed = False
            if what not in ('tensor', 'merge') and frozen(g) != f0:
                return 'the operand changed: %s' % [(x, y) for x, y in zip(f0, frozen(g)) if x != y][:1]
            if what in ('tensor', 'merge') and (frozen(g), frozen(h)) != (fg, fh) and (frozen(also[0]) != fh or frozen(g) != fg):
                return 'an operand changed'
            if tracked[1] is None and nospread(w):
                tracked[1] = nospread(w)
            tracked[0] += w.iterations
            m = iso(g, r, conj, also, drop)
            if m:
                return m
            if toks(r, r.inputs()) != ins or toks(r, r.outputs()) != outs:
                return 'interface %s -> %s instead of %s -> %s' % (toks(r, r.inputs()), toks(r, r.outputs()), ins, outs)
            if not (r.scalar.val - exp).is_zero():
                return 'scalar %r instead of %r' % (r.scalar.val, exp)
            if what != 'sub-diagram' and any(k not in r.variable_types for h in (g,) + tuple(also) for k in h.variable_types):
                return 'variable types are lost'
            if auto is not None and hasattr(r, '_auto_simplify') and r._auto_simplify != auto:
                return 'treatment of parallel edges changed'
            for h in (g,) + tuple(also):
                m = shared(h, r)
                if m:
                    return m
            return None
    cl = {'simple': 'GraphS', 'multigraph': 'Multigraph'}[b]
    task = 'copy' if what in ('copy', 'clone', 'adjoint', 'translate', 'copy to the other backend') else ('tensor' if what == 'tensor' else 'merge')
    discharge(P, '%s.%s: same vertices, edges, attributes%s, interface and scalar; nothing shared, operands unchanged' % (cl, what, ' (conjugated)' if what == 'adjoint' else ''),
              run, 'normal form of exponential sums', replay=lambda: _S[0].hunt(task, 400, 3, 60) or False)
    if what != 'clone':
        P.record('%s.%s: every loop iteration reads only its own element (%d iterations recorded)' % (cl, what, tracked[0]), True if tracked[0] and tracked[1] is None else None,
                 'recorded reads', detail='the loop is not pointwise: %s' % tracked[1])


# ------------------------------------------------------------------ composition
def sides(k):
    """ways the k boundaries of one side can be attached: list of (kind per boundary, edge types)"""
    out = []
    for kinds in itertools.product(('own', 'direct'), repeat=k):
        out.append(list(kinds))
    if k == 2:
        out += [['shared', 'shared'], ['cup', 'cup']]
    return out


def half(g, kinds, ets, tag, side, colour):
    """builds one operand: k boundaries on the composed side, a boundary per spider on the far side"""
    near, far = [], []
    k = len(kinds)
    sh = None
    for i in range(k):
        near.append(g.add_vertex(VT(0), i, 5))
    done = set()
    for i in range(k):
        kind = kinds[i]
        if kind == 'cup':
            j = [x for x in range(k) if kinds[x] == 'cup' and x != i][0]
            if i not in done:
                g.add_edge((near[i], near[j]), ET(ets[i]))
                done |= {i, j}
        elif kind == 'direct':
            f = g.add_vertex(VT(0), i, 0)
            far.append(f)
            g.add_edge((near[i], f), ET(ets[i]))
        else:
            if kind == 'shared' and sh is not None:
                v = sh
            else:
                v = g.add_vertex(VT(colour), i, 2, phase=Fraction(1 + 2 * i + (tag == 'b'), 4))
                f = g.add_vertex(VT(0), i, 0)
                far.append(f)
                g.add_edge((v, f), ET(1))
                if kind == 'shared':
                    sh = v
            g.add_edge((near[i], v), ET(ets[i]))
    if side == 'out':
        g.set_inputs(tuple(far))
        g.set_outputs(tuple(near))
    else:
        g.set_inputs(tuple(near))
        g.set_outputs(tuple(far))
    g.scalar = GhostScalar()
    g.scalar.val = X.e(X.phase_sym('z' + tag))
    return g


def mat(g):
    t = X.graph_amp(g)
    return np.asarray(t, dtype=object).reshape(2 ** len(g.outputs()), 2 ** len(g.inputs()))


def compose(P, b, k):
    X.install()
    b2s = [b] if k == 3 else ['simple', 'multigraph']
    S = sides(k) if k < 3 else None

    def run(p):
        with Patched():
            if k < 3:
                k1, k2 = S[p.choose(len(S))], S[p.choose(len(S))]
                e1 = [1 + p.choose(2) for _ in range(k)]
                e2 = [1 + p.choose(2) for _ in range(k)]
                c1, c2 = ((1, 1), (1, 2))[p.choose(2)]
            else:
                pos = p.choose(3)
                k1 = ['cup'] * 3
                k1[pos] = ('own', 'direct')[p.choose(2)]
                pos = p.choose(3)
                k2 = ['cup'] * 3
                k2[pos] = ('direct', 'own')[p.choose(2)]
                x, y = p.choose(4), p.choose(4)
                e1 = [1 + x % 2, 1 + x // 2, 1 + x % 2]
                e2 = [1 + y // 2, 1 + y % 2, 1 + y // 2]
                c1, c2 = 1, 1
            g = half(klass(b)(), k1, e1, 'a', 'out', c1)
            h = half(klass(b2s[p.choose(len(b2s))])(), k2, e2, 'b', 'in', c2)
            want = mat(h).dot(mat(g)) if k else mat(h) * mat(g)[0, 0]
            fg, fh = frozen(g), frozen(h)
            how = p.choose(3) if k == 1 else 0
            if how == 0:
                r = g + h
            elif how == 1:
                r = h * g
            else:
                r = g.clone()
                r += h
            if (frozen(g), frozen(h)) != (fg, fh):
                return 'an operand changed'
            for x in (g, h):
                m = shared(x, r)
                if m:
                    return m
            if len(r.inputs()) != len(g.inputs()) or len(r.outputs()) != len(h.outputs()):
                return 'interface'
            ok, d = X.equal(mat(r), want)
            return None if ok else '%s %s then %s %s: %s' % (k1, e1, k2, e2, d)
    discharge(P, '%s.compose, %d wires joined in every way: the map is the product of the maps, operands unchanged, nothing shared' % ({'simple': 'GraphS', 'multigraph': 'Multigraph'}[b], k),
              run, 'normal form of exponential sums', replay=lambda: _S[0].hunt('compose', 600, 3, 90))


def compose_rest(P, b):
    """the rest of both operands is kept: generic elements of every type"""
    X.install()
    tracked = [0, None]

    def run(p):
        with Patched():
            t = [(x, y, 1) for x in range(1, 7) for y in range(1, 7)] + [(1, 3, z) for z in range(7)]
            ta, tb, tc = t[p.choose(len(t))]
            e1, e2 = 1 + p.choose(2), 1 + p.choose(2)
            ec = (1, 2, 3)[p.choose(3)]
            g = generic(p, b, 'g', [0, ta, 0, 2], [(0, 1, [1]), (1, 2, [e1]), (3, 1, [2])], (0,), (2,), names=([0, 1, 2, 3], [5, 1, 0, 3])[p.choose(2)], auto=True)
            h = generic(p, b, 'h', [0, tb, tc, 0, 6], [(0, 1, [e2]), (1, 2, [ec]), (3, 2, [1]), (4, 2, [1])], (0,), (3,), names=[3, 2, 9, 0, 1], auto=True)
            w = Watch()
            fg, fh = frozen(g), frozen(h)
            tokg = {v: tok(g)(v) for v in g.vertices()}
            type(watched(h, w)).armed = True
            r = g.clone()
            r.compose(h)
            type(h).armed = False
            tracked[0] += w.iterations
            if nospread(w) and not tracked[1]:
                tracked[1] = nospread(w)
            if frozen(g) != fg or frozen(h) != fh:
                return 'an operand changed'
            m = shared(g, r) or shared(h, r)
            if m:
                return m
            want = {tok(x)(v): attrs(x, v) for x in (g, h) for v in x.vertices()}
            for d in (('g', 2), ('h', 0)):
                del want[d]
            got = {tok(r)(v): attrs(r, v) for v in r.vertices()}
            if set(want) != set(got):
                return 'vertices %s' % (sorted(map(str, got)),)
            for t_ in want:
                m = attr_diff(want[t_], got[t_])
                if m:
                    return 'vertex %s: %s' % (t_, m)
            es = [e for x in (g, h) for e in edge_multiset(x, tok(x)) if not set(e[0]) & {('g', 2), ('h', 0)}]
            es.append(((('g', 1), ('h', 1)), 1 if e1 == e2 else 2))
            if sorted(es) != edge_multiset(r, tok(r)):
                return 'edges %s instead of %s' % (edge_multiset(r, tok(r)), sorted(es))
            if toks(r, r.inputs()) != [('g', 0)] or toks(r, r.outputs()) != [('h', 3)]:
                return 'interface'
            if not (r.scalar.val - g.scalar.val * h.scalar.val).is_zero():
                return 'scalar'
            if not {'varg', 'varh'} <= set(r.variable_types):
                return 'variable types are lost'
            return None
    cl = {'simple': 'GraphS', 'multigraph': 'Multigraph'}[b]
    discharge(P, '%s.compose: everything but the joined boundaries is kept' % cl, run, 'normal form of exponential sums', replay=lambda: _S[0].hunt('compose', 600, 3, 60) or False)


def arity(P):
    """a mismatch of the interfaces is refused"""
    def run(p):
        b = ('simple', 'multigraph')[p.choose(2)]
        k1, k2 = p.choose(3), p.choose(3)
        g = half(klass(b)(), ['own'] * k1, [1] * k1, 'a', 'out', 1)
        h = half(klass(b)(), ['own'] * k2, [1] * k2, 'b', 'in', 1)
        fg = frozen(g)
        try:
            g.compose(h)
        except TypeError:
            return None if k1 != k2 and frozen(g) == fg else 'refused'
        return None if k1 == k2 else 'accepted'
    X.install()
    discharge(P, 'compose refuses operands whose interfaces do not match, untouched', run, 'execution', replay=lambda: _S[0].hunt('compose', 600, 3, 60) or False)


# ------------------------------------------------------------------ plugging
KET = {'0': [X.ONE, X.ZERO], '1': [X.ZERO, X.ONE], '+': [X.ISQ2, X.ISQ2], '-': [X.ISQ2, -X.ISQ2] if hasattr(X, 'ISQ2') else None}


def plug(P, b, what):
    X.install()
    ATT = ['z', 'x', 'h', 'wire']

    def run(p):
        with Patched():
            g = klass(b)()
            n = 1 + p.choose(3)
            near, far = [], []
            first = p.choose(len(ATT) * 2)
            for i in range(n):
                a, e = (ATT[first % 4], 1 + first // 4) if i == 0 else (ATT[(first + i) % 4], 1 + (i + first) % 2)
                v = g.add_vertex(VT(0), i, 0)
                near.append(v)
                w = g.add_vertex(VT(0), i, 3)
                far.append(w)
                if a == 'wire':
                    g.add_edge((v, w), ET(e))
                else:
                    s = g.add_vertex(VT({'z': 1, 'x': 2, 'h': 3}[a]), i, 1, phase=Fraction(1 + 2 * i, 4))
                    g.add_edge((v, s), ET(e))
                    g.add_edge((s, w), ET(1))
            near = [near[i] for i in ((0, 2, 1) if n == 3 and first % 2 else range(n))]
            g.set_inputs(tuple(near if what == 'state' else far))
            g.set_outputs(tuple(far if what == 'state' else near))
            g.scalar = GhostScalar()
            g.scalar.val = X.e(X.phase_sym('z'))
            m = mat(g)
            L = p.choose(n + 1)
            st = ''.join('01+-/'[p.choose(5)] for _ in range(L)) if n < 3 else ''.join('01+-/'[(p.choose(5) + 2 * i) % 5] if i < 2 else '/' for i in range(L))
            A = np.array([[X.ONE]], dtype=object)
            for i in range(n):
                A = np.kron(A, np.array([[x] for x in KET[st[i]]], dtype=object) if i < L and st[i] != '/' else X.I2)
            want = m.dot(A) if what == 'state' else A.T.dot(m)
            left = tuple(v for i, v in enumerate(near) if i >= L or st[i] == '/')
            other = g.outputs() if what == 'state' else g.inputs()
            (g.apply_state if what == 'state' else g.apply_effect)(st)
            if tuple(g.inputs() if what == 'state' else g.outputs()) != left or tuple(g.outputs() if what == 'state' else g.inputs()) != tuple(other):
                return 'remaining interface'
            ok, d = X.equal(mat(g), want)
            return None if ok else '%r: %s' % (st, d)
    discharge(P, '%s.apply_%s: every string over 0 1 + - / plugs exactly the named kets%s' % ({'simple': 'GraphS', 'multigraph': 'Multigraph'}[b], what, '' if what == 'state' else ' (as bras)'),
              run, 'normal form of exponential sums', replay=lambda: _S[0].hunt('plug', 600, 3, 60))


def register(S):
    _S[0] = S
    base = 'pyzx.graph.base.BaseGraph.'
    for b, cl in (('simple', 'pyzx.graph.graph_s.GraphS.'), ('multigraph', 'pyzx.graph.multigraph.Multigraph.')):
        S.proof('copies, %s' % b, functions=[base + 'copy', base + 'adjoint', base + 'translate', cl + 'clone'], limit=200)(
            lambda P, b=b: [op(P, b, w) for w in ('copy', 'adjoint', 'clone', 'copy to the other backend', 'translate')])
        S.proof('unions, %s' % b, functions=[base + 'tensor', base + '__matmul__', base + 'merge', base + 'subgraph_from_vertices'], limit=200)(
            lambda P, b=b: [op(P, b, w) for w in ('tensor', 'merge', 'sub-diagram')])
        S.proof('composition, %s' % b, functions=[base + m for m in ('compose', '__add__', '__mul__', '__iadd__')], limit=300)(
            lambda P, b=b: [compose(P, b, k) for k in (0, 1, 2, 3)] + [compose_rest(P, b)])
        S.proof('plugging, %s' % b, functions=[base + 'apply_state', base + 'apply_effect'], limit=200)(
            lambda P, b=b: [plug(P, b, w) for w in ('state', 'effect')])
    S.proof('interfaces', functions=[base + 'compose'], limit=60)(arity)
