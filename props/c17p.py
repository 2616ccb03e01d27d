"""C17, deductive part: gflow for open graphs of every size.

The source of gflow is instrumented on every run (pyvc.loops): its loops are cut by the invariants below, vertices are integers, the
neighbourhood relation, inputs, outputs and grounds are arbitrary, sets are predicates.  bi_adj and Mat2.solve are their contracts
(bi_adj's is proved here, solve's in C07).  The odd neighbourhood of a set is characterised by two facts about sums modulo 2."""
import z3
from pyvc import loops as L
from pyvc.core import path, Unsupported, PathAbort, discharge, guarded
from pyvc.heap import Z
from props.c07p import fa, fn, I, B, nx, term, finish, Bit

_S = [None]


def hunter():
    def rep():
        return _S[0].hunt('random open graphs', 4000, 1, seconds=15) or False
    return rep


def ex(f):
    v = z3.Int('e!%d' % nx())
    return z3.Exists([v], f(v))


class MapSet:
    """(e(w) for w in S)"""
    def __init__(self, s, f, conds):
        self.s, self.f, self.conds = s, f, conds

    def where(self, w):
        return z3.And(self.s.has(Z(w)), *[L.Formula.of(c(Z(w))) for c in self.conds])


def of(x):
    if isinstance(x, L.Formula):
        return x.t
    if isinstance(x, Bit):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    raise Unsupported('condition %r' % (x,))


L.Formula.of = staticmethod(of)


class USet:
    """a set (or a list without repetition in arbitrary order) of vertices"""
    def __init__(self, pred, aslist=False):
        self.pred, self.aslist, self.enum = pred, aslist, None

    def snapshot(self):
        return USet(self.pred)

    def member(self, t):
        return self.pred(t)

    def has(self, x):
        return self.pred(term(x))

    def element(self, name):
        v = Z.fresh(name)
        path().assume(self.pred(v.t))
        return v

    def __contains__(self, x):
        return path().branch(self.has(x))

    def _other(self, o):
        if isinstance(o, USet):
            return o.pred
        if isinstance(o, (set, frozenset, list)) and not o:
            return lambda v: z3.BoolVal(False)
        raise Unsupported('set operation with %r' % (o,))

    def __or__(self, o):
        a, b = self.pred, self._other(o)
        return USet(lambda v: z3.Or(a(v), b(v)))
    __ror__ = __or__
    union = __or__

    def __and__(self, o):
        a, b = self.pred, self._other(o)
        return USet(lambda v: z3.And(a(v), b(v)))

    def __sub__(self, o):
        a, b = self.pred, self._other(o)
        return USet(lambda v: z3.And(a(v), z3.Not(b(v))))
    difference = __sub__

    def __ior__(self, o):
        a, b = self.pred, self._other(o)
        self.pred = lambda v: z3.Or(a(v), b(v))
        return self

    def update(self, o):
        self.__ior__(o)

    def add(self, x):
        a, x = self.pred, term(x)
        self.pred = lambda v: z3.Or(a(v), v == x)

    def copy(self):
        return USet(self.pred)

    def __bool__(self):
        p = path()
        if p.choose(2):
            p.assume(fa(1, lambda v: z3.Not(self.pred(v))))
            return False
        p.assume(ex(self.pred))
        return True

    def __eq__(self, o):
        a, b = self.pred, self._other(o)
        p = path()
        if p.choose(2):
            p.assume(ex(lambda v: a(v) != b(v)))
            return False
        p.assume(fa(1, lambda v: a(v) == b(v)))
        return True
    __hash__ = None

    def comp(self, f, conds):
        m = MapSet(self, f, conds)
        probe = Z(z3.Int('probe'))
        if self._identity(f, probe):
            return USet(m.where, aslist=True)
        return m

    @staticmethod
    def _identity(f, probe):
        try:
            return f(probe) is probe
        except Exception:
            return False

    def asset(self):
        r = USet(self.pred)
        if hasattr(self, 'odd'):
            r.odd = self.odd
        return r

    # ---- lists
    def order(self):
        if self.enum is None:
            at, pos, n = fn('at', I, I), fn('pos', I, I), z3.Int('len!%d' % nx())
            self.enum = at, pos, n
            p = path()
            p.assume(n >= 0)
            p.assume(fa(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(self.pred(at(i)), pos(at(i)) == i))))
            p.assume(fa(1, lambda v: z3.Implies(self.pred(v), z3.And(at(pos(v)) == v, pos(v) >= 0, pos(v) < n))))
        return self.enum

    def size(self):
        return Z(self.order()[2])

    def __getitem__(self, i):
        if not self.aslist:
            raise TypeError('set is not subscriptable')
        return Z(self.order()[0](term(i)))

    def index(self, x):
        x = term(x)
        path().memo['rt'].prove('index of an element of the list', self.pred(x))
        return Z(self.order()[1](x))

    def __iter__(self):
        raise Unsupported('iteration over an arbitrary set')


class UMap:
    def __init__(self):
        self.dom = lambda v: z3.BoolVal(False)
        self.val = None


class LMap(UMap):
    """vertex -> layer"""
    def __init__(self):
        UMap.__init__(self)
        self.val = lambda v: z3.IntVal(-1)

    def fresh(self):
        d, f = fn('ldom', I, B), fn('l', I, I)
        self.dom, self.val = (lambda v: d(v)), (lambda v: f(v))

    def __setitem__(self, v, k):
        d, f, v, k = self.dom, self.val, term(v), term(k)
        self.dom = lambda q: z3.Or(d(q), q == v)
        self.val = lambda q: z3.If(q == v, k, f(q))


class GMap(UMap):
    """vertex -> set of vertices, with the odd neighbourhood of that set as ghost"""
    def __init__(self):
        UMap.__init__(self)
        self.val = lambda u, w: z3.BoolVal(False)
        self.odd = lambda u, w: z3.BoolVal(False)

    def fresh(self):
        d, f, o = fn('gdom', I, B), fn('G', I, I, B), fn('odd', I, I, B)
        self.dom, self.val, self.odd = (lambda v: d(v)), (lambda u, w: f(u, w)), (lambda u, w: o(u, w))

    def __setitem__(self, u, s):
        if not isinstance(s, USet) or not hasattr(s, 'odd'):
            raise Unsupported('correction set')
        d, f, o, u = self.dom, self.val, self.odd, term(u)
        self.dom = lambda q: z3.Or(d(q), q == u)
        self.val = lambda q, w: z3.If(q == u, s.pred(w), f(q, w))
        self.odd = lambda q, w: z3.If(q == u, s.odd(w), o(q, w))


class Col:
    """a column of bits"""
    def __init__(self, n, f=None):
        self.n, self.f = n, f or (lambda j: z3.BoolVal(False))
        self.data = self

    def copy(self):
        return Col(self.n, self.f)

    def rows(self):
        return self.n

    def __setitem__(self, j, v):
        if not (isinstance(v, list) and v in ([0], [1])):
            raise Unsupported('column entry')
        f, j, b = self.f, term(j), z3.BoolVal(v == [1])
        self.f = lambda q: z3.If(q == j, b, f(q))

    def __getitem__(self, j):
        return [Bit(self.f(term(j)))]


class Adj:
    """bi_adj(g, vs, ws); solve is its contract"""
    def __init__(self, W, vs, ws):
        self.W, self.vs, self.ws = W, vs, ws

    def solve(self, b):
        W = self.W
        u = W.rt.act[3]['pos'].t
        at, pos, n = self.ws.order()
        W.rt.prove('right side: one entry per row', term(b.n) == n)
        W.rt.prove('right side: the unit vector of the vertex', fa(1, lambda j: z3.Implies(z3.And(j >= 0, j < n), b.f(j) == (at(j) == u))))
        W.rt.prove('columns: the vertices that may correct', self.vs is W.frame('processed_prime'))
        W.rt.prove('rows: the vertices to be corrected', self.ws is W.frame('candidates'))
        if path().choose(2):
            path().assume(z3.Not(W.solvable(u)))
            return None
        path().assume(W.solvable(u))
        X = fn('X', I, B)
        return Solution(self, b, X)


class SolRange(L.SymRange):
    def comp(self, f, conds):
        """{vs[i] for i in range(rows) if x[i][0]}"""
        S, n = self.sol, self.sol.adj.vs.order()[2]

        def pred(w):
            i = z3.Int('i!%d' % nx())
            return z3.Exists([i], z3.And(i >= 0, i < Z.of(self.hi), term(f(Z(i))) == w, *[of(c(Z(i))) for c in conds]))
        s = USet(pred)
        at, pos, _ = S.adj.vs.order()
        W = S.adj.W
        W.rt.prove('the correction set is the support of the solution', fa(1, lambda w: pred(w) == z3.And(S.adj.vs.pred(w), S.X(pos(w)))))
        # the odd neighbourhood of the support is the product of the biadjacency matrix and the solution
        o = fn('o', I, B)
        cat, cpos, cn = S.adj.ws.order()
        path().assume(fa(1, lambda w: z3.Implies(S.adj.ws.pred(w), o(w) == S.b.f(cpos(w)))))
        path().assume(fa(1, lambda w: z3.Implies(fa(1, lambda v: z3.Implies(S.adj.vs.pred(v), z3.Not(W.A(v, w)))), z3.Not(o(w)))))
        s.odd = lambda w: o(w)
        return s


class Solution:
    def __init__(self, adj, b, X):
        self.adj, self.b, self.X = adj, Col(b.n, b.f), X
        self.data = self

    def rows(self):
        n = Sized(self.adj.vs.order()[2])
        n.sol = self
        return n

    def __getitem__(self, i):
        return [Bit(self.X(term(i)))]


class Sized(Z):
    __slots__ = ('sol',)


def srange(*a):
    if len(a) == 1 and isinstance(a[0], Sized):
        r = SolRange(a[0])
        r.sol = a[0].sol
        return r
    return L.SymRange(*a)


def fake_mat(data):
    if isinstance(data, L.GList):
        e = data.at(Z.fresh('j'))
        if e == [0]:
            return Col(data.n)
    raise Unsupported('Mat2')


def mkset(x=()):
    if isinstance(x, USet):
        return x.copy()
    if hasattr(x, '__len__') and not len(x):
        return USet(lambda v: z3.BoolVal(False))
    raise Unsupported('set(%r)' % (x,))


def anyof(x):
    if isinstance(x, MapSet):
        return L.Formula(ex(lambda w: z3.And(x.where(w), of(x.f(Z(w))))))
    return any(x)


def allof(x):
    if isinstance(x, MapSet):
        return L.Formula(fa(1, lambda w: z3.Implies(x.where(w), of(x.f(Z(w))))))
    return all(x)


class World:
    def __init__(self, rt, p):
        self.rt = rt
        f = {n: fn(n, I, B) for n in ('V', 'In', 'Out', 'Gr', 'bnd', 'Sv')}
        A = fn('A', I, I, B)
        self.V, self.In, self.Out, self.Gr, self.bnd, self.solvable = [f[n] for n in ('V', 'In', 'Out', 'Gr', 'bnd', 'Sv')]
        self.A = A
        p.assume(fa(2, lambda v, w: A(v, w) == A(w, v)))
        p.assume(fa(2, lambda v, w: z3.Implies(A(v, w), z3.And(f['V'](v), f['V'](w)))))
        p.assume(fa(1, lambda v: z3.Implies(z3.Or(f['In'](v), f['Out'](v), f['Gr'](v)), f['V'](v))))
        p.assume(fa(1, lambda v: z3.Not(z3.And(f['In'](v), z3.Or(f['Out'](v), f['Gr'](v))))))

    def frame(self, name):
        return self.rt.act[3]['env'][name] if 'env' in self.rt.act[3] else None

    def inputs(self): return USet(lambda v: self.In(v))
    def outputs(self): return USet(lambda v: self.Out(v))
    def grounds(self): return USet(lambda v: self.Gr(v))
    def vertices(self): return USet(lambda v: self.V(v))

    def neighbors(self, v):
        v = term(v)
        return USet(lambda w: self.A(v, w))

    def type(self, v):
        from pyzx.utils import VertexType
        return VertexType.BOUNDARY if path().branch(self.bnd(term(v))) else VertexType.Z


def gflow(P):
    import pyzx.gflow as M
    P.under_contract('pyzx.gflow.gflow')
    V = {}

    def run(p):
        p.drop = L.quantified
        rt = L.Runtime({}, V)
        p.memo['rt'] = rt
        g = W = World(rt, p)
        pi = lambda v: z3.Or(ex(lambda i: z3.And(W.In(i), W.bnd(i), W.A(i, v))), z3.And(W.In(v), z3.Not(W.bnd(v))))
        PI = fn('PI', I, B)
        p.assume(fa(1, lambda v: PI(v) == pi(v)))
        init = lambda v: z3.Or(W.Out(v), W.Gr(v))

        def lays(e, seen):
            l = e['l']
            return [('layers so far', fa(1, lambda v: z3.And(l.dom(v) == seen(v), z3.Implies(seen(v), l.val(v) == 0))))]

        def pis(e, seen):
            s = e['pattern_inputs']
            return [('neighbours of inputs so far', fa(1, lambda v: s.pred(v) == z3.Or(ex(lambda i: z3.And(seen(i), W.bnd(i), W.A(i, v))), z3.And(seen(v), z3.Not(W.bnd(v))))))]

        def state(e, P_, l, G, k):
            return [('outputs are processed', fa(1, lambda v: z3.Implies(init(v), P_(v)))),
                    ('processed are vertices', fa(1, lambda v: z3.Implies(P_(v), W.V(v)))),
                    ('inputs with a boundary stay open', fa(1, lambda v: z3.Implies(z3.And(W.In(v), z3.Not(PI(v))), z3.Not(P_(v))))),
                    ('layers of exactly the processed', fa(1, lambda v: l.dom(v) == P_(v))),
                    ('layers', z3.And(k >= 1, fa(1, lambda v: z3.Implies(P_(v), z3.And(l.val(v) >= 0, l.val(v) < k, (l.val(v) == 0) == init(v)))))),
                    ('corrections of exactly the measured', fa(1, lambda v: G.dom(v) == z3.And(P_(v), z3.Not(init(v))))),
                    ('correction sets avoid the inputs and come later', fa(2, lambda u, w: z3.Implies(z3.And(G.dom(u), G.val(u, w)), z3.And(P_(w), z3.Not(PI(w)), l.val(w) < l.val(u))))),
                    ('odd neighbourhoods', fa(2, lambda u, w: z3.Implies(z3.And(G.dom(u), W.V(w), z3.Not(z3.And(P_(w), l.val(w) < l.val(u)))), G.odd(u, w) == (w == u))))]

        def main(e):
            return state(e, e['processed'].pred, e['l'], e['gflow'], term(e['k'])) + [('measured inputs', fa(1, lambda v: e['pattern_inputs'].pred(v) == PI(v))),
                                                                                     ('inputs', fa(1, lambda v: e['inputs'].pred(v) == W.In(v))), ('vertices', fa(1, lambda v: e['vertices'].pred(v) == W.V(v)))]

        def heap(e):
            e['processed'].pred = (lambda h: lambda v: h(v))(fn('P', I, B))
            e['l'].fresh()
            e['gflow'].fresh()

        def round_(e, seen):
            a = rt.act[3]
            if 'snap' not in a:
                a['snap'] = (e['l'].dom, e['l'].val, e['gflow'].dom, e['gflow'].val, e['gflow'].odd)
            ld, lv, gd, gv, go = a['snap']
            l, G, c, k = e['l'], e['gflow'], e['correct'].pred, term(e['k'])
            pp, cand = e['processed_prime'], e['candidates']
            new = lambda u: z3.And(seen(u), W.solvable(u))
            return [('corrected so far', fa(1, lambda u: c(u) == new(u))),
                    ('layers', fa(1, lambda v: z3.And(l.dom(v) == z3.Or(ld(v), new(v)), l.val(v) == z3.If(new(v), k, lv(v))))),
                    ('corrections', fa(1, lambda v: G.dom(v) == z3.Or(gd(v), new(v)))),
                    ('old corrections stay', fa(2, lambda u, w: z3.Implies(z3.Not(new(u)), z3.And(G.val(u, w) == gv(u, w), G.odd(u, w) == go(u, w))))),
                    ('new corrections', fa(2, lambda u, w: z3.Implies(new(u), z3.And(
                        z3.Implies(G.val(u, w), pp.pred(w)),
                        z3.Implies(cand.pred(w), G.odd(u, w) == (w == u)),
                        z3.Implies(fa(1, lambda v: z3.Implies(pp.pred(v), z3.Not(W.A(v, w)))), z3.Not(G.odd(u, w)))))))]

        def heap3(e):
            e['correct'].pred = (lambda h: lambda v: h(v))(fn('C', I, B))
            e['l'].fresh()
            e['gflow'].fresh()

        keep = lambda n, old: Z.fresh(n) if n == 'k' else old
        rt.specs = {0: L.Inv('input neighbours', pis, keep, lambda e: setattr(e['pattern_inputs'], 'pred', (lambda h: lambda v: h(v))(fn('pi', I, B)))),
                    1: L.Inv('outputs', lays, keep, lambda e: e['l'].fresh()),
                    2: L.Inv('layers', lambda e, _: main(e), keep, heap),
                    3: L.Inv('candidates', round_, lambda n, old: old, heap3)}
        f = L.instrument(M.gflow, rt, comps=True, sets=True, set=mkset, any=anyof, all=allof, len=lambda x: x.size() if isinstance(x, USet) else len(x),
                         range=srange, Mat2=fake_mat, bi_adj=lambda gg, vs, ws: Adj(W, vs, ws))
        if f.loops != 4:
            raise Unsupported('gflow has %d loops' % f.loops)
        rt.dicts = [LMap, GMap]
        r = f(g)
        e = rt.act[3]['env']
        Pp, pp, cand = e['processed'].pred, e['processed_prime'].pred, e['candidates'].pred
        openv = lambda v: z3.And(W.V(v), z3.Not(Pp(v)))
        rt.prove('complete: vertices left out of the columns are not adjacent to open vertices',
                 fa(2, lambda v, w: z3.Implies(z3.And(Pp(v), z3.Not(PI(v)), z3.Not(pp(v)), openv(w)), z3.Not(W.A(v, w)))))
        rt.prove('complete: open vertices left out of the rows are adjacent to no column', fa(2, lambda v, w: z3.Implies(z3.And(pp(v), openv(w), z3.Not(cand(w))), z3.Not(W.A(v, w)))))
        rt.prove('complete: no open vertex can be corrected', fa(1, lambda u: z3.Implies(cand(u), z3.Not(W.solvable(u)))))
        measured_open = ex(lambda v: z3.And(openv(v), z3.Not(z3.And(W.In(v), z3.Not(PI(v))))))
        if r is None:
            rt.prove('None: a vertex to be measured is left', measured_open)
        else:
            rt.prove('flow: every vertex to be measured is corrected', z3.Not(measured_open))
            l, G, k = r
            rt.prove('flow: the maps built are returned', l is e['l'] and G is e['gflow'])
            for n, h in state(e, Pp, l, G, term(k)):
                rt.prove('flow: ' + n, h)
    finish(P, 'gflow', run, V, hunter())


def biadj(P):
    import pyzx.extract as M
    P.under_contract('pyzx.extract.bi_adj')
    V = {}

    def run(p):
        rt = L.Runtime({}, V)
        p.memo['rt'] = rt
        A = fn('A', I, I, B)
        g = type('G', (), dict(connected=lambda s, v, w: path().branch(A(term(v), term(w)))))()
        p.assume(fa(2, lambda v, w: A(v, w) == A(w, v)))
        nv, nw = Z.fresh('nv'), Z.fresh('nw')
        fv, fw = fn('v', I, I), fn('w', I, I)
        made = []
        f = L.instrument(M.bi_adj, rt, comps=True, Mat2=lambda d: made.append(d) or d)
        d = f(g, L.GList(nv, lambda i: Z(fv(term(i)))), L.GList(nw, lambda i: Z(fw(term(i)))))
        rt.prove('a matrix is made', len(made) == 1 and d is made[0] and isinstance(d, L.GList))
        rt.prove('one row per vertex of the second list', term(d.n) == nw.t)
        i, j = Z.fresh('i'), Z.fresh('j')
        p.assume(z3.And(i.t >= 0, i.t < nw.t, j.t >= 0, j.t < nv.t))
        row = d.at(i)
        rt.prove('one column per vertex of the first list', term(row.n) == nv.t)
        e = row.at(j)
        rt.prove('entries are adjacency', e in (0, 1) and (A(fv(j.t), fw(i.t)) if e == 1 else z3.Not(A(fv(j.t), fw(i.t)))))
    finish(P, 'bi_adj', run, V, hunter())


def register(S):
    _S[0] = S
    S.trusted += ['gflow proof: vertices are integers, sets are predicates, loops are cut by invariants (pyvc.loops); Mat2.solve is the contract proved in C07',
                  'facts about sums modulo 2: the odd neighbourhood of the support of x at row w is (biadjacency matrix times x)_w; a set without neighbours of w gives 0',
                  'Mhalla and Perdrix: the layer-by-layer algorithm finds a flow whenever one exists (the obligations show that the code is that algorithm)']
    S.assumptions += ['no vertex is both input and output']

    @S.proof('gflow: sound and the greedy layering is complete', functions=['gflow'], limit=400)
    def _(P):
        gflow(P)

    @S.proof('biadjacency matrix', functions=['bi_adj'], limit=60)
    def _(P):
        biadj(P)
