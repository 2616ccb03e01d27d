"""C07, deductive part: Mat2.gauss for matrices of every size, every block size and every combination of trackers.

The source of gauss is instrumented on every run (pyvc.loops): its nine loops are cut by the invariants below, everything else runs as it
stands on a matrix that is an uninterpreted function of two indices.  row_add is replaced by its contract, which is proved separately."""
import z3
from pyvc import loops as L
from pyvc.core import path, Unsupported, discharge, guarded, PathAbort
from pyvc.heap import Z

I = z3.IntSort()
B = z3.BoolSort()
_c = [0]
_S = [None]


def fn(name, *sorts):
    _c[0] += 1
    return z3.Function('%s!%d' % (name, _c[0]), *sorts)


def term(x):
    t = Z.of(x)
    if t is None:
        raise Unsupported('index %r' % (x,))
    return t


def fa(n, f):
    vs = [z3.Int('q%d!%d' % (i, nx())) for i in range(n)]
    return z3.ForAll(vs, f(*vs))


class Bit:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return path().branch(self.t)

    def __eq__(self, o):
        if isinstance(o, int):
            return path().branch(self.t if o == 1 else z3.Not(self.t) if o == 0 else z3.BoolVal(False))
        if isinstance(o, Bit):
            return path().branch(self.t == o.t)
        return False

    def __ne__(self, o):
        return not self == o
    __hash__ = None


class Chunk:
    """the bits of a block of a row; nothing is assumed about them"""


class Row:
    def __init__(self, m, i):
        self.m, self.i = m, i

    def __getitem__(self, j):
        if isinstance(j, slice):
            return Chunk()
        j = term(j)
        self.m.rt.prove('column index in range', z3.And(j >= 0, j < self.m.C))
        return Bit(self.m.M(self.i, j))


class Matrix:
    """self: rows and columns are arbitrary, the entries an arbitrary function"""
    def __init__(self, rt):
        self.rt = rt
        self.R, self.C = z3.Int('rows'), z3.Int('cols')
        self.fresh('M')
        path().assume(z3.And(self.R >= 0, self.C >= 0, z3.Implies(self.R == 0, self.C == 0)))
        self.trackers, self.log, self.seen = [], [], {'x': [], 'y': []}
        self.data = self

    def fresh(self, name='M'):
        f = fn(name, I, I, B)
        self.M = lambda i, j: f(i, j)

    def rows(self): return Z(self.R)
    def cols(self): return Cols(self.C)

    def __getitem__(self, i):
        i = term(i)
        self.rt.prove('row index in range', z3.And(i >= 0, i < self.R))
        return Row(self, i)

    def row_add(self, a, b):
        """contract of Mat2.row_add: for two different rows of the matrix, row b becomes the sum of both, nothing else changes"""
        a, b = term(a), term(b)
        self.rt.prove('row_add: two different rows of the matrix', z3.And(a >= 0, a < self.R, b >= 0, b < self.R, a != b))
        old = self.M
        self.M = lambda i, j: z3.If(i == b, z3.Xor(old(i, j), old(a, j)), old(i, j))
        self.log.append((a, b))

    def settle(self, where):
        """since the last loop boundary every tracker saw the same operations in the same order"""
        for k in self.trackers:
            self.rt.prove('each row operation reaches every tracker exactly once', len(self.log) == len(self.seen[k]))
            for (a, b), (c, d) in zip(self.log, self.seen[k]):
                self.rt.prove('tracker %s sees the operation on the same rows' % k, z3.And(a == c, b == d) if k == 'x' else z3.And(a == d, b == c))
        self.log, self.seen = [], {'x': [], 'y': []}

    def track(self, kind, a, b):
        self.seen[kind].append((term(a), term(b)))


class Tracker:
    def __init__(self, m, kind):
        self._m, self._k = m, kind

    def row_add(self, a, b):
        if self._k != 'x':
            raise AttributeError('row_add')
        self._m.track('x', a, b)

    def col_add(self, a, b):
        if self._k != 'y':
            raise AttributeError('col_add')
        self._m.track('y', a, b)


class Cols(Z):
    __slots__ = ()

    def __truediv__(self, o):
        return Quot(self, o)

    def __rmul__(self, o):
        if o == [0]:
            return Vec(path().memo['rt'], self.t)
        return Z.__rmul__(self, o)


class Quot:
    def __init__(self, a, b):
        self.a, self.b = a, b


class Block(Z):
    """block size b >= 1; the product k*b is S(k), with S(0) = 0, S(k+1) = S(k)+b, S(k)+b <= S(l) for k < l (facts of arithmetic)"""
    __slots__ = ('S',)

    def __init__(self):
        Z.__init__(self, z3.Int('blocksize'))
        self.S = fn('S', I, I)
        path().assume(self.t >= 1)
        path().assume(self.S(z3.IntVal(0)) == 0)
        path().assume(fa(1, lambda k: self.S(k + 1) == self.S(k) + self.t))
        path().assume(fa(2, lambda k, l: z3.Implies(k < l, self.S(k) + self.t <= self.S(l))))

    def __mul__(self, o):
        return Z(self.S(term(o)))
    __rmul__ = __mul__


class Idx(Z):
    """a loop counter: its product with the block size is Block.__mul__"""
    __slots__ = ()

    def __mul__(self, o):
        return o * self if isinstance(o, Block) else Z.__mul__(self, o)

    def __add__(self, o):
        r = Z.__add__(self, o)
        return Idx(r.t) if isinstance(r, Z) else r


class PC:
    """a list of pivot columns: any number off of earlier entries (index < 0 of f), then this run's (f(0), ..., f(n-1))"""
    def __init__(self, f, n, off):
        self.f, self.n, self.off = f, n, off

    def append(self, p):
        f, n, p = self.f, self.n, term(p)
        self.f = lambda i: z3.If(i == n, p, f(i))
        self.n = z3.simplify(n + 1)

    lo, step = 0, 1

    @property
    def hi(self):
        return Z(self.n)

    def at(self, i):
        return Z(self.f(term(i)))

    def copy(self):
        return PC(self.f, self.n, self.off)

    def __bool__(self):
        return path().branch(self.n + self.off != 0)

    def __getitem__(self, k):
        if k != -1:
            raise Unsupported('pivot list index')
        if path().branch(self.n + self.off <= 0):
            raise IndexError('list index out of range')
        return Z(self.f(self.n - 1))

    def pop(self):
        if path().branch(self.n + self.off <= 0):
            raise IndexError('pop from empty list')
        self.n = z3.simplify(self.n - 1)
        return Z(self.f(self.n))


class Chunks:
    """the dictionary of chunks: its values are a set of row numbers"""
    def __init__(self, mem=None):
        self.mem = mem or (lambda v: z3.BoolVal(False))

    def __contains__(self, k):
        if not path().choose(2):
            return False
        self.hit = Z.fresh('hit')
        path().assume(self.mem(self.hit.t))
        if not path().feasible():
            raise PathAbort()
        return True

    def __getitem__(self, k):
        return self.hit

    def get(self, k, d=None):
        return self.hit if k in self else d

    def __setitem__(self, k, v):
        m, v = self.mem, term(v)
        self.mem = lambda q: z3.Or(m(q), q == v)


class FakeMath:
    @staticmethod
    def ceil(q):
        """n with (n-1)*b < cols <= n*b"""
        if not isinstance(q, Quot) or not isinstance(q.b, Block):
            raise Unsupported('ceil')
        n = Idx(z3.Int('nsec'))
        S = q.b.S
        path().assume(z3.And(n.t >= 0, q.a.t <= S(n.t), S(n.t - 1) < q.a.t))
        path().memo['nsec'] = n
        return n


def zmin(*a):
    if len(a) != 2:
        raise Unsupported('min')
    x, y = term(a[0]), term(a[1])
    return Z(z3.If(x <= y, x, y))


def zlen(x):
    if isinstance(x, PC):
        return Z(x.n + x.off)
    return len(x)


def zany(x):
    return bool(path().choose(2)) if isinstance(x, Chunk) else any(x)


def make(tracks, full):
    """everything the proof of one variant needs"""
    V = {}

    def run(p):
        rt = L.Runtime({}, V)
        p.drop = L.quantified
        m = Matrix(rt)
        m.trackers = list(tracks)
        bs = Block()
        S = bs.S
        L0 = z3.Int('L0')
        p.assume(L0 >= 0)
        f0 = fn('pc', I, I)
        pc = PC(lambda i: f0(i), z3.IntVal(0), L0)

        def k_of(env):
            return term(env['pivot_row'])

        def ech(K, P, strict=True):
            """rows < K are in echelon form with their pivots left of column P, rows >= K are zero there"""
            f = pc.f
            return [('0 <= pivot_row <= rows', z3.And(0 <= K, K <= m.R)),
                    ('one pivot column per pivot row', pc.n == K),
                    ('the remaining rows are zero so far', fa(2, lambda i, j: z3.Implies(z3.And(i >= K, i < m.R, j >= 0, j < P), z3.Not(m.M(i, j))))),
                    ('the pivot entries are 1', fa(1, lambda t: z3.Implies(z3.And(t >= 0, t < K), z3.And(f(t) >= 0, f(t) < P, m.M(t, f(t)))))),
                    ('rows are zero left of their pivots', fa(2, lambda t, j: z3.Implies(z3.And(t >= 0, t < K, j >= 0, j < f(t)), z3.Not(m.M(t, j))))),
                    ('earlier entries of pivot_cols stay', fa(1, lambda t: z3.Implies(t < 0, f(t) == f0(t)))),
                    ('pivot columns increase', fa(2, lambda t, u: z3.Implies(z3.And(t >= 0, t < u, u < K), f(t) < f(u))))]

        def mn(x, y):
            return z3.If(x <= y, x, y)

        def red(env, q, hi):
            """the pivot columns of the rows > q are unit columns; those of the rows <= q lie left of hi"""
            p1 = env['pivot_cols1']
            K = term(env['rank'])
            return ech(K, m.C) + [
                ('the pivots are taken from the last one down', z3.And(p1.n == q + 1, q < K, p1.n >= -L0)),
                ('the list of pivots is read only', fa(1, lambda i: z3.Implies(z3.And(i < p1.n), p1.f(i) == pc.f(i)))),
                ('finished pivot columns are unit columns', fa(2, lambda t, i: z3.Implies(z3.And(t > q, t >= 0, t < K, i >= 0, i < t), z3.Not(m.M(i, pc.f(t)))))),
                ('the open pivots lie in the blocks left', fa(1, lambda t: z3.Implies(z3.And(t >= 0, t <= q), pc.f(t) < hi)))]

        def members(env, lo, hi):
            c = env['chunks']
            if not isinstance(c, Chunks):
                raise Unsupported('chunks')
            return [('chunks name rows already seen', fa(1, lambda v: z3.Implies(c.mem(v), z3.And(lo <= v, v < hi))))]

        def in_block(env):
            i0, i1 = term(env['i0']), term(env['i1'])
            return [('block bounds', z3.And(i0 >= 0, i0 <= i1, i1 <= m.C))]

        def fresh(n, old):
            if n == 'pivot_row':
                return Z.fresh(n)
            if n == 'chunks':
                g = fn('mem', I, B)
                return Chunks(lambda v: g(v))
            return Z.fresh(n) if isinstance(old, Z) else Idx(Z.fresh(n).t) if isinstance(old, int) else old

        def heap(env):
            m.fresh()
            g, n = fn('pc', I, I), z3.Int('npc!%d' % _c[0])
            pc.f, pc.n = (lambda i: g(i)), n
            if isinstance(env.get('chunks'), Chunks):
                gm = fn('mem', I, B)
                env['chunks'].mem = lambda v: gm(v)
            if 'pivot_cols1' in env:
                h, n1 = fn('pc1', I, I), z3.Int('npc1!%d' % _c[0])
                env['pivot_cols1'].f, env['pivot_cols1'].n = (lambda i: h(i)), n1

        def secof(env):
            return term(env['sec'])

        def up_bounds(env):
            return in_block(env) + [('block', z3.And(term(env['i0']) == S(secof(env)), term(env['i1']) == mn(m.C, S(secof(env) + 1)), secof(env) >= 0))]

        def down_bounds(env):
            return up_bounds(env)

        rt.specs = {
            0: L.Inv('blocks', lambda e, s: ech(k_of(e), mn(m.C, S(term(s)))) + [('sec', term(s) >= 0)], fresh, heap),
            1: L.Inv('duplicate chunks below', lambda e, r: down_bounds(e) + ech(k_of(e), term(e['i0'])) + members(e, k_of(e), term(r)), fresh, heap),
            2: L.Inv('columns of the block', lambda e, _: down_bounds(e) + ech(k_of(e), term(e['p'])) + [('p in the block', z3.And(term(e['i0']) <= term(e['p']), term(e['p']) <= term(e['i1'])))], fresh, heap),
            3: L.Inv('search for a pivot', lambda e, r: down_bounds(e) + ech(k_of(e), term(e['p'])) + [
                ('the search starts at the pivot row', k_of(e) == term(rt.act[3]['it'].lo)),
                ('no pivot so far', fa(1, lambda i: z3.Implies(z3.And(i >= k_of(e), i < term(r)), z3.Not(m.M(i, term(e['p'])))))),
                ('p in the block', z3.And(term(e['i0']) <= term(e['p']), term(e['p']) < term(e['i1'])))], fresh, heap),
            4: L.Inv('clear below the pivot', lambda e, r: down_bounds(e) + ech(k_of(e), term(e['p'])) + [
                ('pivot row is a row', k_of(e) < m.R), ('pivot entry', m.M(k_of(e), term(e['p']))),
                ('cleared so far', fa(1, lambda i: z3.Implies(z3.And(i > k_of(e), i < term(r)), z3.Not(m.M(i, term(e['p'])))))),
                ('p in the block', z3.And(term(e['i0']) <= term(e['p']), term(e['p']) < term(e['i1'])))], fresh, heap),
            5: L.Inv('blocks backwards', lambda e, s: red(e, k_of(e), S(term(s) + 1)) + [('sec', z3.And(term(s) >= -1))], fresh, heap),
            6: L.Inv('duplicate chunks above', lambda e, r: up_bounds(e) + red(e, k_of(e), S(secof(e) + 1)) + members(e, term(r) + 1, k_of(e) + 1), fresh, heap),
            7: L.Inv('pivots of the block', lambda e, _: up_bounds(e) + red(e, k_of(e), S(secof(e) + 1)), fresh, heap),
            8: L.Inv('clear above the pivot', lambda e, r: up_bounds(e) + [(n, g) for n, g in red(dict(e, pivot_cols1=PC(e['pivot_cols1'].f, e['pivot_cols1'].n + 1, L0)), k_of(e), S(secof(e) + 1))] + [
                ('pcol is the pivot column of the pivot row', z3.And(term(e['pcol']) == pc.f(k_of(e)), L0 + k_of(e) >= 0)),
                ('cleared so far', fa(1, lambda i: z3.Implies(z3.And(i >= 0, i < term(r)), z3.Not(m.M(i, term(e['pcol']))))))], fresh, heap),
        }
        rt.boundary = m.settle
        from pyzx.linalg import Mat2
        f = L.instrument(Mat2.gauss, rt, range=L.SymRange, math=FakeMath, min=zmin, len=zlen, tuple=lambda x: x, any=zany, dict=Chunks)
        if f.loops != 9:
            raise Unsupported('gauss has %d loops' % f.loops)
        r = f(m, full, Tracker(m, 'x') if 'x' in tracks else None, Tracker(m, 'y') if 'y' in tracks else None, bs, pc)
        m.settle('return')
        K = term(r)
        for n, g in ech(K, m.C):
            rt.prove('result: ' + n, g)
        rt.prove('result: columns of pivots are zero below them', fa(2, lambda t, i: z3.Implies(z3.And(t >= 0, t < K, i > t, i < m.R), z3.Not(m.M(i, pc.f(t))))))
        if full:
            rt.prove('result: columns of pivots are zero above them', fa(2, lambda t, i: z3.Implies(z3.And(t >= 0, t < K, i >= 0, i < t), z3.Not(m.M(i, pc.f(t))))))
        return None
    return run, V


def finish(P, name, run, V, rep, backend='z3'):
    for rt_name in [n for n in V if n.startswith('reachable')]:
        del V[rt_name]

    def whole(p):
        r = run(p)
        p.memo.get('runtime', L.Runtime({}, V)).reached('end')
        return r
    discharge(P, name + ' ends normally', guarded(whole), backend, rep)
    for n, (ok, msg, t, cnt) in V.items():
        P.record('%s: %s' % (name, n), ok, backend, t, detail=msg, replay=rep)


def hunter(prefix):
    def rep():
        SU = _S[0]
        return SU.hunt(prefix, 1500, 1, seconds=15) or False
    return rep


def gauss(P, tracks, full):
    P.under_contract('pyzx.linalg.Mat2.gauss')
    run, V = make(tracks, full)
    finish(P, 'gauss(full_reduce=%s, trackers %s)' % (bool(full), tracks or 'none'), run, V, hunter('random matrices'))


# ---- the other methods; a matrix is a function of two indices, its rows are views
def val(x):
    if isinstance(x, Bit):
        return x.t
    if isinstance(x, int) and x in (0, 1):
        return z3.BoolVal(bool(x))
    if isinstance(x, Z):
        return x.t == 1
    raise Unsupported('entry %r' % (x,))


class View:
    """row i of a matrix, as the code sees it"""
    def __init__(self, m, i):
        self.m, self.i = m, i

    lo, step = 0, 1

    @property
    def hi(self):
        return Z(self.m.C)
    n = hi

    def at(self, j):
        return self[j]

    def __getitem__(self, j):
        j = term(j)
        self.m.rt.prove('column index in range', z3.And(j >= 0, j < self.m.C))
        return Bit(self.m.M(self.i, j))

    def __setitem__(self, j, v):
        j, v, i = term(j), val(v), self.i
        self.m.rt.prove('column index in range', z3.And(j >= 0, j < self.m.C))
        old = self.m.M
        self.m.M = lambda a, b: z3.If(z3.And(a == i, b == j), v, old(a, b))


class Mat:
    """a Mat2 whose data is a function"""
    def __init__(self, rt, name, nonempty=False):
        self.rt, self.name = rt, name
        self.R, self.C = z3.Int(name + '.rows'), z3.Int(name + '.cols')
        self.fresh()
        path().assume(z3.And(self.R >= (1 if nonempty else 0), self.C >= 0, z3.Implies(self.R == 0, self.C == 0)))
        self.M0 = self.M

    def fresh(self):
        f = fn(self.name, I, I, B)
        self.M = lambda i, j: f(i, j)

    def rows(self): return Z(self.R)
    def cols(self): return Cols(self.C)

    lo, step = 0, 1

    @property
    def hi(self):
        return Z(self.R)
    n = hi

    @property
    def data(self):
        return self

    def at(self, i):
        return self[i]

    def __getitem__(self, i):
        i = term(i)
        self.rt.prove('row index in range', z3.And(i >= 0, i < self.R))
        return View(self, i)

    def same(self):
        M, M0 = self.M, self.M0
        return fa(2, lambda i, j: M(i, j) == M0(i, j))


def length(x):
    if isinstance(x, (PC,)):
        return zlen(x)
    if hasattr(x, 'hi') and hasattr(x, 'at'):
        return x.hi if isinstance(x.hi, (Z, int)) else Z(x.hi)
    return len(x)


class Enum:
    lo, step = 0, 1

    def __init__(self, x):
        self.x, self.hi = x, length(x)

    def at(self, i):
        return (i, self.x.at(i))


class Zip:
    lo, step = 0, 1

    def __init__(self, *xs):
        self.xs = xs
        h = Z.of(length(xs[0]))
        for x in xs[1:]:
            k = Z.of(length(x))
            h = z3.If(h <= k, h, k)
        self.hi = Z(z3.simplify(h))

    def at(self, i):
        return tuple(x.at(i) for x in self.xs)


class Copy(L.GList):
    """list(x): a new list with the elements of x"""
    def __init__(self, x):
        L.GList.__init__(self, length(x), lambda i: x.at(i))


class ModSum:
    def __init__(self, g):
        self.g = g

    def __mod__(self, k):
        if k != 2:
            raise Unsupported('sum modulo %r' % (k,))
        return self


def zsum(x):
    return ModSum(x) if isinstance(x, L.GList) else sum(x)


def zlist(x=()):
    return Copy(x) if hasattr(x, 'at') and hasattr(x, 'hi') else list(x)


NAMES = dict(range=L.SymRange, len=length, list=zlist, sum=zsum, enumerate=Enum, zip=Zip, min=zmin, any=zany)


def idx(name, n):
    i = Z.fresh(name)
    path().assume(z3.And(i.t >= 0, i.t < n))
    return i


def spec_matrix(rt, what, data, n, k, entry):
    """data is a list of n new lists of k entries, the entries given by entry(i, j)"""
    rt.prove(what + ': number of rows', isinstance(data, L.GList) and term(length(data)) == n)
    if not isinstance(data, L.GList):
        return
    i = idx('i', n)
    if not path().feasible():
        return
    row = data.at(i)
    rt.prove(what + ': rows are new lists', isinstance(row, L.GList))
    if not isinstance(row, L.GList):
        return
    rt.prove(what + ': number of columns', term(length(row)) == k)
    j = idx('j', k)
    if not path().feasible():
        return
    e = row.at(j)
    entry(i.t, j.t, e)


class Made:
    """Mat2(data): the constructor stores its argument"""
    def __init__(self, data):
        self.data = data


def pointwise(P, method):
    """the methods that are comprehensions"""
    V = {}
    from pyzx.linalg import Mat2
    P.under_contract('pyzx.linalg.Mat2.' + method)

    def run(p):
        rt = L.Runtime({}, V)
        # id, zeros and unit_vector are also called as Mat2.id(...); here only Mat2(...) occurs
        f = L.instrument(Mat2.__dict__[method].__func__ if isinstance(Mat2.__dict__[method], staticmethod) else Mat2.__dict__[method],
                         rt, comps=True, Mat2=Made, **NAMES)
        if method in ('id', 'zeros', 'unit_vector'):
            n, k = Z.fresh('n'), Z.fresh('k')
            p.assume(z3.And(n.t >= 1, k.t >= 0))

            def eq(g):
                return lambda i, j, e: rt.prove('entries', val(e) == g(i, j))
            if method == 'id':
                return spec_matrix(rt, 'id', f(n).data, n.t, n.t, eq(lambda i, j: i == j))
            if method == 'zeros':
                return spec_matrix(rt, 'zeros', f(n, k).data, n.t, k.t, eq(lambda i, j: z3.BoolVal(False)))
            r = f(n, k).data
            rt.prove('unit_vector: number of rows', term(length(r)) == n.t)
            i = idx('i', n.t)
            row = r.at(i)
            rt.prove('unit_vector: one column', len(row) == 1)
            rt.prove('entries', val(row[0]) == (i.t == k.t))
            return
        m = Mat(rt, 'M', nonempty=method == '__mul__')
        e = lambda g: (lambda i, j, x: rt.prove('entries', val(x) == g(i, j)))
        if method == 'copy':
            spec_matrix(rt, 'copy', f(m).data, m.R, m.C, e(lambda i, j: m.M0(i, j)))
        elif method == 'transpose':
            spec_matrix(rt, 'transpose', f(m).data, m.C, m.R, e(lambda i, j: m.M0(j, i)))
        elif method == '__mul__':
            o = Mat(rt, 'N', nonempty=True)
            p.assume(o.R == m.C)

            def entry(i, j, x):
                rt.prove('entries are sums modulo 2', isinstance(x, ModSum))
                rt.prove('the sum runs over the inner index', term(length(x.g)) == m.C)
                k = idx('k', m.C)
                if p.feasible():
                    rt.prove('terms are the products of entries', val(x.g.at(k)) == z3.And(m.M0(i, k.t), o.M0(k.t, j)))
            spec_matrix(rt, 'product', f(m, o).data, m.R, o.C, entry)
            rt.prove('the factors stay', o.same())
        elif method in ('permute_rows', 'permute_cols'):
            h = fn('p', I, I)
            N = m.R if method == 'permute_rows' else m.C
            p.assume(fa(1, lambda t: z3.Implies(z3.And(t >= 0, t < N), z3.And(h(t) >= 0, h(t) < N))))

            class Self:
                rows, cols = m.rows, m.cols
                now = m

                def _set(self, v): self.new = v     # the old list is still what a pending comprehension reads
                data = property(lambda self: self.now, _set)
            s = Self()
            f(s, L.GList(Z(N), lambda i: Z(h(term(i)))))
            if method == 'permute_rows':
                rt.prove('permute_rows: number of rows', isinstance(s.new, L.GList) and term(length(s.new)) == m.R)
                i = idx('i', m.R)
                if p.feasible():
                    row = s.new.at(i)
                    rt.prove('row i becomes the old row p[i]', isinstance(row, View) and row.i == h(i.t))
            else:
                spec_matrix(rt, 'permute_cols', s.new, m.R, m.C, e(lambda i, j: m.M0(i, h(j))))
        rt.prove('the matrix stays', m.same())
    finish(P, method, run, V, hunter('elementary operations' if method not in ('__mul__', 'transpose') else 'random matrices'))


class BitMul(Bit):
    pass


def _bitmul(a, o):
    return Bit(z3.And(a.t, val(o)))


Bit.__mul__ = _bitmul
Bit.__rmul__ = _bitmul


def elementary(P, method):
    V = {}
    from pyzx.linalg import Mat2
    P.under_contract('pyzx.linalg.Mat2.' + method)

    def run(p):
        rt = L.Runtime({}, V)
        p.drop = L.quantified
        m = Mat(rt, 'M')
        a, b = Z.fresh('a'), Z.fresh('b')
        N = m.R if method.startswith('row') else m.C
        p.assume(z3.And(a.t >= 0, a.t < N, b.t >= 0, b.t < N))
        if method.endswith('add'):
            p.assume(a.t != b.t)
        M0 = m.M0

        def post(lim):
            """the state after the rows (columns) < lim have been handled"""
            if method == 'row_add':
                return fa(2, lambda i, j: m.M(i, j) == z3.If(z3.And(i == b.t, j < lim, j >= 0), z3.Xor(M0(i, j), M0(a.t, j)), M0(i, j)))
            if method == 'col_add':
                return fa(2, lambda i, j: m.M(i, j) == z3.If(z3.And(j == b.t, i < lim, i >= 0), z3.Xor(M0(i, j), M0(i, a.t)), M0(i, j)))
            return fa(2, lambda i, j: m.M(i, j) == z3.If(z3.And(i < lim, i >= 0), z3.If(j == a.t, M0(i, b.t), z3.If(j == b.t, M0(i, a.t), M0(i, j))), M0(i, j)))
        rt.specs = {0: L.Inv('entries', lambda e, i: [('done up to here', post(term(i))), ('index', term(i) >= 0)],
                             fresh=lambda n, old: old, heap=lambda e: m.fresh())}
        f = L.instrument(Mat2.__dict__[method], rt, comps=True, **NAMES)
        if method == 'row_swap':
            rows = RowList(m)

            class Self:
                data = rows
            f(Self(), a, b)
            i = idx('i', m.R)
            r = rows[i]
            rt.prove('rows a and b are exchanged', r.i == z3.If(i.t == a.t, b.t, z3.If(i.t == b.t, a.t, i.t)))
            rt.prove('rows stay', m.same())
            return
        f(m, a, b)
        N2 = m.C if method.startswith('row') else m.R
        rt.prove('result', post(N2))
    finish(P, method, run, V, hunter('elementary operations'))


class RowList:
    def __init__(self, m):
        self.m, self.w = m, []

    def __getitem__(self, i):
        for j, r in reversed(self.w):
            if i == j:
                return r
        return self.m[i]

    def __setitem__(self, i, r):
        self.m[i]
        self.w.append((i, r))


# ---- methods that use gauss through its contract
class Reduced(Mat):
    """copy of a matrix; gauss is its contract"""
    def gauss(self, full_reduce=False, x=None, y=None, blocksize=None, pivot_cols=None):
        if pivot_cols is not None:
            raise Unsupported('pivot_cols')
        self.gaussed = (full_reduce, x, y)
        self.fresh()
        K = z3.Int('rank')
        f = fn('piv', I, I)
        M = self.M
        p = path()
        p.assume(z3.And(K >= 0, K <= self.R, K <= self.C))
        p.assume(fa(2, lambda i, j: z3.Implies(z3.And(i >= K, i < self.R, j >= 0, j < self.C), z3.Not(M(i, j)))))
        p.assume(fa(1, lambda t: z3.Implies(z3.And(t >= 0, t < K), z3.And(f(t) >= 0, f(t) < self.C, M(t, f(t))))))
        p.assume(fa(2, lambda t, j: z3.Implies(z3.And(t >= 0, t < K, j >= 0, j < f(t)), z3.Not(M(t, j)))))
        p.assume(fa(2, lambda t, u: z3.Implies(z3.And(t >= 0, t < u, u < K), f(t) < f(u))))
        if full_reduce is True:
            p.assume(fa(2, lambda i, t: z3.Implies(z3.And(t >= 0, t < K, i >= 0, i < self.R, i != t), z3.Not(M(i, f(t))))))
        self.K, self.piv, self.red = K, f, full_reduce is True
        for kind, tr in (('x', x), ('y', y)):
            if tr is not None:
                tr.tracked(self, kind)
        return Z(K)


def derived(P, method):
    V = {}
    from pyzx.linalg import Mat2
    P.under_contract('pyzx.linalg.Mat2.' + method)

    def run(p):
        rt = L.Runtime({}, V)
        p.drop = L.quantified
        base = Mat(rt, 'A', nonempty=method in ('solve', 'nullspace', 'factor', 'inverse'))
        m = Reduced(rt, 'm')
        p.assume(z3.And(m.R == base.R, m.C == base.C))
        base.copy = lambda: m
        made = []

        class Tracked(Mat):
            def tracked(self, mm, kind):
                rt.prove('one tracker per elimination', not hasattr(self, 'of'))
                self.of = (mm, kind)
                self.fresh()

        class FM(Made):
            @staticmethod
            def id(n):
                t = Tracked(rt, 'id%d' % len(made))
                p.assume(z3.And(t.R == term(n), t.C == term(n)))
                t.kind = 'identity'
                made.append(t)
                return t

            @staticmethod
            def zeros(a, b):
                t = Mat(rt, 'zero%d' % len(made))
                p.assume(z3.And(t.R == term(a), t.C == term(b)))
                t.M = lambda i, j: z3.BoolVal(False)
                t.kind = 'zero'
                made.append(t)
                return t
        names = dict(NAMES, Mat2=FM, gauss_fast=None)
        if method == 'rank':
            f = L.instrument(Mat2.rank, rt, comps=True, **names)
            r = f(base)
            rt.prove('the rank is the number of pivots of an echelon form', term(r) == m.K)
        elif method == 'inverse':
            f = L.instrument(Mat2.inverse, rt, comps=True, **names)
            r = f(base)
            if r is None:
                rt.prove('None only for rectangular matrices or those of lower rank', z3.Or(m.R != m.C, m.K < m.R) if hasattr(m, 'K') else m.R != m.C)
            else:
                rt.prove('the inverse is the identity after the row operations', getattr(r, 'kind', '') == 'identity' and getattr(r, 'of', None) == (m, 'x'))
                rt.prove('the elimination is complete', m.red)
                rt.prove('square of full rank', z3.And(m.R == m.C, m.K == m.R, r.R == m.R))
        elif method == 'factor':
            f = L.instrument(Mat2.factor, rt, comps=True, **names)
            m0, m1 = f(base)
            t = made[0]
            rt.prove('the left factor is the identity after the inverse column operations', t.of == (m, 'y') and m.gaussed[1] is None)
            rt.prove('identity of the number of rows', t.R == m.R)
            i = idx('i', m.R)
            row = m0.data.at(i)
            rt.prove('left factor: shape', z3.And(term(length(m0.data)) == m.R, term(length(row)) == m.K))
            j = idx('j', m.K)
            if p.feasible():
                rt.prove('left factor: the first rank columns', val(row.at(j)) == t.M(i.t, j.t))
                r1 = m1.data.at(j)
                rt.prove('right factor: the first rank rows', isinstance(r1, View) and r1.m is m and r1.i == j.t)
            rt.prove('right factor: shape', term(length(m1.data)) == m.K)
            # the columns and rows left out contribute nothing: rows >= rank are zero
        elif method == 'solve':
            b = Mat(rt, 'b')
            b1 = Tracked(rt, 'b1')
            p.assume(z3.And(b.R == m.R, b1.R == b.R, b.C == 1, b1.C == 1))
            b.copy = lambda: b1
            z = z3.IntVal(0)

            def x():
                return made[0]

            def sol(lim):
                K, f = m.K, m.piv
                return [('pivot variables', fa(1, lambda t: z3.Implies(z3.And(t >= 0, t < lim, t < K), x().M(f(t), z) == b1.M(t, z)))),
                        ('other variables are zero', fa(1, lambda j: z3.Implies(z3.And(x().M(j, z), j >= 0, j < m.C), z3.Exists([z3.Int('tt')], z3.And(z3.Int('tt') >= 0, z3.Int('tt') < lim, z3.Int('tt') < K, f(z3.Int('tt')) == j))))),
                        ('no zero row with nonzero right side', fa(1, lambda t: z3.Implies(z3.And(t >= K, t >= 0, t < lim), z3.Not(b1.M(t, z)))))]

            def gp(e):
                g = e['got_pivot']
                return g.t if isinstance(g, Bit) else z3.BoolVal(bool(g))
            rt.specs = {
                0: L.Inv('rows', lambda e, i: sol(term(i)) + [('index', term(i) >= 0)], fresh=lambda n, old: old if not isinstance(old, (bool, Bit)) else Bit(z3.Bool('gp!%d' % nx())), heap=lambda e: x().fresh()),
                1: L.Inv('first entry of the row', lambda e, j: sol(term(e['i'])) + [
                    ('nothing found so far', z3.And(z3.Not(gp(e)), fa(1, lambda q: z3.Implies(z3.And(q >= 0, q < term(j)), z3.Not(m.M(term(e['i']), q)))))), ('index', term(j) >= 0)],
                    fresh=lambda n, old: Bit(z3.Bool('gp!%d' % nx())) if n == 'got_pivot' else old, heap=lambda e: x().fresh())}
            f = L.instrument(Mat2.solve, rt, comps=True, **names)
            if f.loops != 2:
                raise Unsupported('solve has %d loops' % f.loops)
            r = f(base, b)
            rt.prove('complete elimination of a copy, right side tracked by row operations', m.red and getattr(b1, 'of', None) == (m, 'x') and m.gaussed[2] is None)
            if r is None:
                rt.prove('None only if a zero row has a nonzero right side', z3.Exists([z3.Int('tt')], z3.And(z3.Int('tt') >= m.K, z3.Int('tt') < m.R, b1.M(z3.Int('tt'), z))))
            else:
                rt.prove('the result is the vector written', r is x() and r.kind == 'zero')
                rt.prove('shape of the solution', z3.And(r.R == m.C, r.C == 1))
                for n, g in sol(m.R):
                    rt.prove('solution: ' + n, g)
            rt.prove('right side stays', b.same())
        elif method == 'nullspace':
            p.memo['cols'], p.memo['rt'] = base.C, rt
            NP = NonPivots(rt)
            piv = PC(lambda i: z3.IntVal(-1), z3.IntVal(0), z3.IntVal(0))
            vecs = Vectors(rt)

            def found(lim):
                K, f = m.K, m.piv
                mn = lambda a: z3.If(a <= K, a, K)
                return [('pivots found so far', z3.And(piv.n == mn(lim), fa(1, lambda t: z3.Implies(z3.And(t >= 0, t < mn(lim)), piv.f(t) == f(t))))),
                        ('the others are left', fa(1, lambda j: z3.Implies(z3.And(j >= 0, j < m.C), z3.And(
                            z3.Implies(NP.mem(j), fa(1, lambda t: z3.Implies(z3.And(t >= 0, t < mn(lim)), f(t) != j))),
                            z3.Implies(z3.Not(NP.mem(j)), z3.Exists([z3.Int('tt')], z3.And(z3.Int('tt') >= 0, z3.Int('tt') < mn(lim), f(z3.Int('tt')) == j)))))))]

            def heap(e):
                NP.fresh()
                g = fn('pv', I, I)
                piv.f, piv.n = (lambda i: g(i)), z3.Int('pn!%d' % nx())

            def vec(e, lim):
                v, n = e['v'], term(e['n'])
                K, f = m.K, m.piv
                return [('entries so far', fa(1, lambda j: z3.Implies(z3.And(j >= 0, j < m.C), v.f(j) == z3.Or(
                    j == n, z3.Exists([z3.Int('tt')], z3.And(z3.Int('tt') >= 0, z3.Int('tt') < lim, z3.Int('tt') < K, f(z3.Int('tt')) == j, m.M(z3.Int('tt'), n)))))))]
            rt.specs = {
                0: L.Inv('rows', lambda e, i: found(term(i)) + [('index', term(i) >= 0)], fresh=lambda n, old: old, heap=heap),
                1: L.Inv('first entry of the row', lambda e, j: found(term(e['i'])) + [
                    ('nothing found so far', fa(1, lambda q: z3.Implies(z3.And(q >= 0, q < term(j)), z3.Not(m.M(term(e['i']), q))))), ('index', term(j) >= 0)], fresh=lambda n, old: old, heap=heap),
                2: L.Inv('free variables', lambda e, i: [], fresh=lambda n, old: old, heap=lambda e: setattr(vecs, 'new', [])),
                3: L.Inv('pivot variables', lambda e, i: vec(e, term(i)) + [('index', term(i) >= 0)], fresh=lambda n, old: old, heap=lambda e: e['v'].havoc())}
            def mklist(x=()):
                if isinstance(x, L.SymRange):
                    rt.prove('free variables start as all columns', z3.And(term(x.lo) == 0, term(x.hi) == m.C))
                    return NP
                return zlist(x)
            names.update(list=mklist)
            rt.empties = [lambda: piv, lambda: vecs]
            f = L.instrument(Mat2.nullspace, rt, comps=True, **names)
            if f.loops != 4:
                raise Unsupported('nullspace has %d loops' % f.loops)
            vecs.spec = lambda v, n: [('vector of a free variable', fa(1, lambda j: z3.Implies(z3.And(j >= 0, j < m.C), v.f(j) == z3.Or(
                j == n, z3.Exists([z3.Int('tt')], z3.And(z3.Int('tt') >= 0, z3.Int('tt') < m.K, m.piv(z3.Int('tt')) == j, m.M(z3.Int('tt'), n)))))))]
            vecs.item = lambda: rt.act[2]['pos']
            vecs.NP = NP
            rt.boundary = vecs.boundary
            r = f(base)
            rt.prove('complete elimination of a copy', m.red)
            rt.prove('the result is the list of vectors', r is vecs)
            for n, g in found(m.R):
                rt.prove('one vector for each column without pivot: ' + n, g)
        if method != 'nullspace':
            rt.prove('the matrix stays', base.same())
    finish(P, method, run, V, hunter('random matrices'))


def nx():
    _c[0] += 1
    return _c[0]


class NonPivots:
    """list(range(cols)) with columns removed: ascending, without repetition"""
    lo, step = 0, 1

    def __init__(self, rt):
        self.rt = rt
        self.mem = lambda j: z3.BoolVal(True)
        self.hi = Z(z3.Int('nfree'))
        path().assume(self.hi.t >= 0)

    def fresh(self):
        g = fn('np', I, B)
        self.mem = lambda j: g(j)

    def remove(self, j):
        m, j = self.mem, term(j)
        self.rt.prove('only columns still in the list are removed', m(j))
        self.mem = lambda q: z3.And(m(q), q != j)

    def at(self, i):
        """element i: a member; distinct positions have distinct members"""
        n = Z.fresh('n')
        path().assume(self.mem(n.t))
        path().assume(n.t >= 0)
        path().memo['free'] = n
        path().assume(n.t < path().memo['cols'])
        return n


class Vec:
    def __init__(self, rt, n):
        self.rt, self.n = rt, n
        self.f = lambda j: z3.BoolVal(False)

    def havoc(self):
        g = fn('v', I, B)
        self.f = lambda j: g(j)

    def __setitem__(self, j, v):
        f, j, v = self.f, term(j), val(v)
        self.rt.prove('index of the vector in range', z3.And(j >= 0, j < self.n))
        self.f = lambda q: z3.If(q == j, v, f(q))


class Vectors:
    def __init__(self, rt):
        self.rt, self.new = rt, []

    def append(self, v):
        self.new.append(v)

    def boundary(self, where):
        if where == 'end of loop 2':
            self.rt.prove('one vector for each free variable', len(self.new) == 1 and isinstance(self.new[0], Vec))
            for v in self.new:
                for n, g in self.spec(v, path().memo['free'].t):
                    self.rt.prove(n, g)
        elif where in ('entry of loop 0', 'entry of loop 2'):
            self.rt.prove('no vector before the loop', not self.new)


GAUSS = [('', False), ('', True), ('x', True), ('y', False), ('xy', True), ('xy', False)]
POINT = ['id', 'zeros', 'unit_vector', 'copy', 'transpose', '__mul__', 'permute_rows', 'permute_cols']


def register(S):
    _S[0] = S
    S.trusted += ['pyvc.loops: the source of each function is parsed on every run, loops are replaced by their cuts (partial correctness), '
                  'comprehensions without conditions by the pointwise map; a matrix is a function of two integer indices',
                  'math.ceil(cols / blocksize) is the number of blocks (floating point division idealised)',
                  'rank, inverse, solve, factor and nullspace: that equal row spaces give equal rank, inverse, solutions and kernel is linear algebra '
                  'not redone by the solver; what they compute from the reduced matrix is']

    @S.proof('gauss: echelon form and trackers', functions=['Mat2.gauss'], limit=600)
    def _(P):
        for t, full in GAUSS:
            gauss(P, t, full)

    @S.proof('elementary operations', functions=['Mat2.row_add', 'Mat2.col_add', 'Mat2.row_swap', 'Mat2.col_swap'] + ['Mat2.' + x for x in POINT], limit=300)
    def _(P):
        for m in POINT:
            pointwise(P, m)
        for m in ('row_add', 'col_add', 'row_swap', 'col_swap'):
            elementary(P, m)

    @S.proof('rank, inverse, factor, solve, nullspace', functions=['Mat2.' + x for x in ('rank', 'inverse', 'factor', 'solve', 'nullspace')], limit=300)
    def _(P):
        for m in ('rank', 'inverse', 'factor', 'solve', 'nullspace'):
            derived(P, m)
