"""C15, deductive part: steiner_gauss for matrices of every size over every architecture.

The source of steiner_gauss (with its nested functions) is instrumented on every run (pyvc.loops) and its seven loops are cut by invariants.
Architecture.steiner_tree is its contract: the edges of a tree over the requested rows, first from the root down, then backwards."""
import z3
from pyvc import loops as L
from pyvc.core import path, Unsupported, PathAbort
from pyvc.heap import Z
from props import c07p as G
from props.c07p import fa, fn, I, B, nx, term, Bit

_S = [None]


def hunter(prefix):
    def rep():
        return (_S[0].hunt(prefix, 3000, 1, seconds=15) if _S[0] else None) or False
    return rep


def ex(f):
    v = z3.Int('e!%d' % nx())
    return z3.Exists([v], f(v))


class Matrix(G.Matrix):
    """a matrix read as matrix[r, c]; row operations must follow the architecture"""
    adj = None

    def cols(self):
        return Z(self.C)

    def __getitem__(self, k):
        if not isinstance(k, tuple):
            return G.Matrix.__getitem__(self, k)
        i, j = term(k[0]), term(k[1])
        self.rt.prove('matrix index in range', z3.Implies(self.guard, z3.And(i >= 0, i < self.R, j >= 0, j < self.C)))
        return FBit(self.M(i, j)) if self.lazy else Bit(self.M(i, j))

    guard, lazy = z3.BoolVal(True), False

    def row_add(self, a, b):
        self.rt.prove('row operations join qubits adjacent in the architecture', self.adj(term(a), term(b)))
        G.Matrix.row_add(self, a, b)


class FBit:
    """an entry read inside a comprehension condition: comparisons stay formulas"""
    def __init__(self, t):
        self.t = t

    def __eq__(self, k):
        if k not in (0, 1):
            raise Unsupported('entry compared with %r' % (k,))
        return L.Formula(self.t if k else z3.Not(self.t))

    def __ne__(self, k):
        return L.Formula(z3.Not((self == k).t))
    __hash__ = None


class Nodes:
    """ascending list of rows given by a predicate; insert and append add one at either end"""
    def __init__(self, pred):
        self.pred = pred

    def __bool__(self):
        p = path()
        if p.choose(2):
            p.assume(fa(1, lambda v: z3.Not(self.pred(v))))
            return False
        p.assume(ex(self.pred))
        return True

    def __getitem__(self, i):
        if i != 0:
            raise Unsupported('node list index')
        v = Z.fresh('first')
        path().assume(z3.And(self.pred(v.t), fa(1, lambda w: z3.Implies(w < v.t, z3.Not(self.pred(w))))))
        return v

    def insert(self, i, x):
        self.append(x)

    def append(self, x):
        p, x = self.pred, term(x)
        self.pred = lambda v: z3.Or(p(v), v == x)


class NLen:
    def __init__(self, x):
        self.x = x

    def __gt__(self, k):
        if k != 0:
            raise Unsupported('length')
        return bool(self.x)

    def __ne__(self, k):
        return self > k

    def __eq__(self, k):
        return not self > k

    def __ge__(self, k):
        if k != 1:
            raise Unsupported('length')
        return bool(self.x)
    __hash__ = None


class Tree:
    """what steiner_tree(root, nodes, upper) yields"""
    def __init__(self, W, root, nodes, upper):
        p = path()
        self.W = W
        self.par, self.ch = fn('par', I, I), fn('ch', I, I)
        self.m = z3.Int('edges!%d' % nx())
        self.root, self.upper = term(root), upper
        par, ch, m, r, R = self.par, self.ch, self.m, self.root, W.m.R
        N = nodes.pred
        W.rt.prove('tree: the root is a row and the terminals lie on its side', z3.And(r >= 0, r < R, fa(1, lambda v: z3.Implies(N(v), z3.And(v >= r, v < R) if upper else z3.And(v >= 0, v <= r)))))
        q = lambda f: fa(1, lambda i: z3.Implies(z3.And(i >= 0, i < m), f(i)))
        idx = fn('idx', I, I)      # the edge a tree vertex is the child of
        self.idx = idx
        p.assume(z3.And(m >= 0, z3.Or(m == 0, par(0) == r)))
        p.assume(q(lambda i: z3.And(ch(i) != r, idx(ch(i)) == i, W.adj(par(i), ch(i)), W.adj(ch(i), par(i)), par(i) != ch(i))))
        p.assume(q(lambda i: z3.Or(par(i) == r, z3.And(idx(par(i)) >= 0, idx(par(i)) < i, ch(idx(par(i))) == par(i)))))
        p.assume(q(lambda i: z3.And(ch(i) > r, ch(i) < R, par(i) >= r, par(i) < R) if upper else z3.And(ch(i) >= 0, ch(i) < r, par(i) <= r, par(i) > ch(i))))
        p.assume(fa(1, lambda v: z3.Implies(N(v), z3.Or(v == r, z3.And(idx(v) >= 0, idx(v) < m, ch(idx(v)) == v)))))
        kid = fn('kid', I, I)
        p.assume(q(lambda i: z3.Or(N(ch(i)), z3.And(kid(i) > i, kid(i) < m, par(kid(i)) == ch(i)))))
        self.phase, self.j = 1, Z(z3.IntVal(0))

    def next(self):
        """phase 1: edges 0, 1, ... then None; phase 2: edges m-1, ..., 0 then None"""
        j = term(self.j)
        if self.phase == 1:
            if path().branch(j < self.m):
                self.j = Z(z3.simplify(j + 1))
                return Z(self.par(j)), Z(self.ch(j))
            self.phase, self.j = 2, Z(self.m)
            return None
        if self.phase == 2:
            if path().branch(j > 0):
                self.j = Z(z3.simplify(j - 1))
                return Z(self.par(j - 1)), Z(self.ch(j - 1))
            self.phase = 3
            return None
        raise StopIteration


class Zeros:
    """the list of edges collected: edge number i is in it if mem(i); they were appended in order"""
    def __init__(self):
        self.mem = lambda i: z3.BoolVal(False)
        self.hi = None
        self.tree = None

    def append(self, e):
        t = self.tree
        i = t.idx(term(e[1]))
        t.W.rt.prove('collected edges are edges of the tree in order', z3.And(i >= 0, i < t.m, term(e[0]) == t.par(i), term(e[1]) == t.ch(i), i == term(t.j) - 1))
        m = self.mem
        self.mem = lambda k: z3.Or(m(k), k == i)

    def __bool__(self):
        p = path()
        if p.choose(2):
            p.assume(fa(1, lambda v: z3.Not(self.mem(v))))
            return False
        p.assume(ex(self.mem))
        return True

    def pop(self, k=-1):
        if k != -1:
            raise Unsupported('pop')
        i = Z.fresh('last').t
        m, t = self.mem, self.tree
        path().assume(z3.And(m(i), fa(1, lambda w: z3.Implies(w > i, z3.Not(m(w))))))
        self.mem = lambda k: z3.And(m(k), k != i)
        self.hi = i
        return Z(t.par(i)), Z(t.ch(i))


class Pivots(G.PC):
    def __getitem__(self, i):
        i = term(i)
        path().memo['rt'].prove('pivot list index', z3.And(i >= 0, i < self.n))
        return Z(self.f(i))


class W_:
    pass


def steiner(P, tracks, full):
    import pyzx.routing.steiner as M
    P.under_contract('pyzx.routing.steiner.steiner_gauss')
    V = {}

    def run(p):
        p.drop = L.quantified
        rt = L.Runtime({}, V)
        p.memo['rt'] = rt
        W = W_()
        W.rt = rt
        m = W.m = Matrix(rt)
        m.trackers = list(tracks)
        adj = fn('adj', I, I, B)
        W.adj = m.adj = lambda a, b: adj(a, b)
        pc = Pivots(lambda i: z3.IntVal(-1), z3.IntVal(0), z3.IntVal(0))
        st = {}

        def ech(K, lim):
            f = pc.f
            return [('0 <= rows done <= rows', z3.And(0 <= K, K <= m.R, lim <= m.C)),
                    ('one pivot column per row done', pc.n == K),
                    ('the remaining rows are zero so far', fa(2, lambda i, j: z3.Implies(z3.And(i >= K, i < m.R, j >= 0, j < lim), z3.Not(m.M(i, j))))),
                    ('the pivot entries are 1', fa(1, lambda t: z3.Implies(z3.And(t >= 0, t < K), z3.And(f(t) >= 0, f(t) < lim, m.M(t, f(t)))))),
                    ('rows are zero left of their pivots', fa(2, lambda t, j: z3.Implies(z3.And(t >= 0, t < K, j >= 0, j < f(t)), z3.Not(m.M(t, j))))),
                    ('pivot columns increase', fa(2, lambda t, u: z3.Implies(z3.And(t >= 0, t < u, u < K), f(t) < f(u))))]

        def frame(e):
            """what every loop of steiner_reduce keeps"""
            r, col = term(e['root']), term(e['col'])
            if e['upper']:
                # the pivot column was appended already: rows < root are echelon with pivots left of col
                f = pc.f
                return [('rows above stay', fa(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < r), m.M(i, j) == st['Mu'](i, j)))),
                        ('the remaining rows are zero left of the column', fa(2, lambda i, j: z3.Implies(z3.And(i >= r, i < m.R, j >= 0, j < col), z3.Not(m.M(i, j))))),
                        ('rows outside the tree stay zero in the column', fa(1, lambda v: z3.Implies(z3.And(v >= r, v < m.R, v != r, z3.Not(tree_v(v))), z3.Not(m.M(v, col)))))]
            return red(r) + [('rows outside the tree stay zero in the column', fa(1, lambda v: z3.Implies(z3.And(v >= 0, v < r, z3.Not(tree_v(v))), z3.Not(m.M(v, col)))))]

        def red(q):
            K = term(st['K'])
            return ech(K, m.C) + [('finished pivot columns are unit columns', fa(2, lambda t, i: z3.Implies(z3.And(t > q, t >= 0, t < K, i >= 0, i < t), z3.Not(m.M(i, pc.f(t))))))]

        def tree_v(v):
            t = st['tree']
            return z3.And(t.idx(v) >= 0, t.idx(v) < t.m, t.ch(t.idx(v)) == v)

        def at(e, name, phase):
            """the edge in hand; returns (its number, formulas tying it to the walk)"""
            t, x = st['tree'], e[name]
            if phase == 1:
                if x is None:
                    return t.m, [('walk', z3.BoolVal(t.phase == 2))] + ([('walk position', term(t.j) == t.m)] if t.phase == 2 else [])
                c = term(t.j) - 1
                return c, [('walk', z3.And(z3.BoolVal(t.phase == 1), c >= 0, c < t.m, term(x[0]) == t.par(c), term(x[1]) == t.ch(c)))]
            if x is None:
                return z3.IntVal(-1), [('walk', z3.BoolVal(t.phase == 3))]
            c = term(t.j)
            return c, [('walk', z3.And(z3.BoolVal(t.phase == 2), c >= 0, c < t.m, term(x[0]) == t.par(c), term(x[1]) == t.ch(c)))]

        def q(f, lo=0):
            t = st['tree']
            return fa(1, lambda i: z3.Implies(z3.And(i >= lo, i < t.m), f(i)))

        def u1(e, _):
            t, z, col = st['tree'], e['zeros'], term(e['col'])
            z.tree = t
            c, w = at(e, 'next_check', 1)
            if 'M1' not in rt.act[0]:
                rt.act[0]['M1'] = m.M
            M1 = rt.act[0]['M1']
            return w + frame(e) + [('a root without edges is 1', z3.Or(t.m > 0, m.M(term(e['root']), col))), ('the matrix is only read', fa(2, lambda i, j: m.M(i, j) == M1(i, j))),
                                   ('zero parents are collected', fa(1, lambda i: z.mem(i) == z3.And(i >= 0, i < c, z3.Not(m.M(t.par(i), col))))),
                                   ('terminals are 1', ones(e))]

        def ones(e):
            N, col, r = e['nodes'].pred, term(e['col']), term(e['root'])
            return fa(1, lambda v: z3.Implies(z3.And(N(v), v != r), m.M(v, col)))

        def u2(e, _):
            t, z, col = st['tree'], e['zeros'], term(e['col'])
            a = rt.act[1]
            if 'M1' not in a:
                a['M1'] = m.M
                z.hi = t.m
            M1 = a['M1']
            return frame(e) + [('a root without edges is 1', z3.Or(t.m > 0, m.M(term(e['root']), col))), ('range', z3.And(z.hi >= 0, z.hi <= t.m, z3.BoolVal(t.phase == 2), term(t.j) == t.m)),
                               ('edges left', fa(1, lambda i: z3.Implies(z3.And(i >= 0, i < t.m), z.mem(i) == z3.And(i < z.hi, z3.Not(M1(t.par(i), col)))))),
                               ('only edges', fa(1, lambda i: z3.Implies(z.mem(i), z3.And(i >= 0, i < t.m)))),
                               ('parents of the edges done are 1', q(lambda i: z3.Implies(i >= z.hi, m.M(t.par(i), col)))),
                               ('ones stay', fa(1, lambda v: z3.Implies(M1(v, col), m.M(v, col)))), ('terminals are 1', ones(e))]

        def d1(e, _):
            t, col = st['tree'], term(e['col'])
            c, w = at(e, 'next_check', 1)
            return w + frame(e) + [('the root is 1', m.M(term(e['root']), col)), ('children of the edges done are 1', q(lambda i: z3.Implies(i < c, m.M(t.ch(i), col))))]

        def u3(e, _):
            t, col = st['tree'], term(e['col'])
            c, w = at(e, 'next_add', 2)
            return w + frame(e) + [('the root is 1', m.M(term(e['root']), col)),
                                   ('children of the edges done are 0', q(lambda i: z3.Implies(i > c, z3.Not(m.M(t.ch(i), col))))),
                                   ('children of the edges left are 1', q(lambda i: z3.Implies(i <= c, m.M(t.ch(i), col))))]

        def fresh(n, old):
            if n in ('next_check', 'next_add'):
                return None if path().choose(2) else (Z.fresh('s0'), Z.fresh('s1'))
            if isinstance(old, (bool, Bit)):
                return Bit(z3.Bool('b!%d' % nx()))
            if n == 'nodes':
                g = fn('nodes', I, B)
                return Nodes(lambda v: g(v))
            if isinstance(old, (Z, int)):
                return Z.fresh(n)
            return old

        def heap(e):
            m.fresh()

        def heap_tree(phases):
            def h(e):
                m.fresh()
                t = st['tree']
                t.j = Z.fresh('j')
                x = e.get('next_check' if phases == 1 else 'next_add')
                t.phase = phases + (x is None)
                if isinstance(e.get('zeros'), Zeros):
                    g = fn('zmem', I, B)
                    e['zeros'].mem = lambda i: g(i)
            return h

        def heap_zeros(e):
            m.fresh()
            g = fn('zmem', I, B)
            e['zeros'].mem, e['zeros'].hi = (lambda i: g(i)), z3.Int('hi!%d' % nx())

        def heap_main(e):
            m.fresh()
            g = fn('pc', I, I)
            pc.f, pc.n = (lambda i: g(i)), z3.Int('pn!%d' % nx())

        def b(x):
            return x.t if isinstance(x, Bit) else z3.BoolVal(bool(x))

        def search(e, _):
            k, pv = term(e['current_row']), term(e['pivot'])
            a = rt.act[5]
            if 'pc0' not in a:
                a['pc0'] = (pc.f, pc.n, m.M)
            f0, n0, M0 = a['pc0']
            fd, N = b(e['found_pivot']), e['nodes']
            Np = N.pred if isinstance(N, Nodes) else (lambda v: z3.BoolVal(False))
            return [('the matrix is only read', fa(2, lambda i, j: m.M(i, j) == M0(i, j))), ('columns', z3.And(pv >= 0, pv <= m.C)),
                    ('no pivot left of the column', fa(2, lambda i, j: z3.Implies(z3.And(i >= k, i < m.R, j >= 0, j < pv), z3.Not(m.M(i, j))))),
                    ('pivot columns lie left', fa(1, lambda t: z3.Implies(z3.And(t >= 0, t < k), pc.f(t) < pv))),
                    ('pivot list', z3.And(pc.n == z3.If(fd, n0 + 1, n0), fa(1, lambda t: z3.Implies(t < n0, pc.f(t) == f0(t))), z3.Implies(fd, z3.And(pc.f(n0) == pv, pv < m.C)))),
                    ('found: the rows with a 1', z3.Implies(fd, z3.And(ex(Np), fa(1, lambda v: Np(v) == z3.And(v >= k, v < m.R, m.M(v, pv))))))]
        rt.specs = {
            0: L.Inv('collect zero parents', u1, fresh, heap_tree(1)),
            1: L.Inv('fill zero parents', u2, fresh, heap_zeros),
            2: L.Inv('fill zero children', d1, fresh, heap_tree(1)),
            3: L.Inv('clear the children', u3, fresh, heap_tree(2)),
            4: L.Inv('rows', lambda e, k: ech(term(k), term(e['pivot'])) + [('pivot', term(e['pivot']) >= 0)], fresh, heap_main),
            5: L.Inv('search for a pivot', search, fresh, heap_main),
            6: L.Inv('rows backwards', lambda e, k: red(term(k)) + [('rows left', z3.And(term(k) >= -1, term(k) < term(st['K'])))], fresh, heap),
        }
        rt.boundary = m.settle

        class Arch:
            def steiner_tree(self, root, nodes, upper=True):
                if not isinstance(nodes, Nodes) or not isinstance(upper, bool):
                    raise Unsupported('steiner_tree arguments')
                st['tree'] = Tree(W, root, nodes, upper)
                st['Mu'] = m.M
                for a in rt.act.values():
                    a.pop('M1', None)
                return st['tree']

        def filt(it, f, conds):
            v0 = Z.fresh('probe')
            if f(v0) is not v0:
                raise Unsupported('comprehension')
            lo, hi = term(it.lo), term(it.hi)
            m.guard, m.lazy = z3.And(v0.t >= lo, v0.t < hi), True
            try:
                fs = [c(v0).t for c in conds]
            finally:
                m.guard, m.lazy = z3.BoolVal(True), False
            return Nodes(lambda v: z3.And(v >= lo, v < hi, *[z3.substitute(f, (v0.t, v)) for f in fs]))

        class R2(L.SymRange):
            def comp(self, f, conds):
                return filt(self, f, conds)

        def rev(x):
            if not isinstance(x, L.SymRange):
                return reversed(x)
            r = L.SymRange(Z.of(x.hi) - 1, x.lo, -1)
            r.lo, r.hi, r.step = Z(Z.of(x.hi) - 1), x.lo - 1 if not isinstance(x.lo, int) else x.lo - 1, -1
            return r

        def ln(x):
            if isinstance(x, (Nodes, Zeros)):
                return NLen(x)
            if isinstance(x, G.PC):
                return st.setdefault('K', Z(x.n))
            return len(x)
        f = L.instrument(M.steiner_gauss, rt, comps=True, sets=True, range=R2, reversed=rev, len=ln, next=lambda g, *d: g.next(), print=lambda *a: None, debug=False)
        rt.empties = (Zeros, lambda: pc, lambda: Nodes(lambda v: z3.BoolVal(False)))
        if f.loops != 7:
            raise Unsupported('steiner_gauss has %d loops' % f.loops)
        r = f(m, Arch(), full, G.Tracker(m, 'x') if 'x' in tracks else None, G.Tracker(m, 'y') if 'y' in tracks else None)
        m.settle('return')
        K = term(r)
        for n, g in ech(K, m.C):
            rt.prove('result: ' + n, g)
        rt.prove('result: the remaining rows are zero', fa(2, lambda i, j: z3.Implies(z3.And(i >= K, i < m.R, j >= 0, j < m.C), z3.Not(m.M(i, j)))))
        if full:
            rt.prove('result: pivot columns are unit columns', fa(2, lambda t, i: z3.Implies(z3.And(t >= 0, t < K, i >= 0, i < m.R, i != t), z3.Not(m.M(i, pc.f(t))))))
    G.finish(P, 'steiner_gauss(full_reduce=%s, trackers %s)' % (bool(full), tracks or 'none'), run, V, hunter('Steiner'))


def register(S):
    _S[0] = S
    S.trusted.append('steiner_gauss is proved against the contract of Architecture.steiner_tree (a tree of architecture edges containing the requested rows, every leaf a requested row, on the side of the root): the contract itself is checked on bounded inputs')
    for full in (0, 1):
        for tr in ('', 'xy'):
            S.proof('steiner_gauss, full_reduce=%d, trackers %s' % (full, tr or 'none'), functions=['steiner_gauss'], limit=200)(lambda P, full=full, tr=tr: steiner(P, tr, full))
