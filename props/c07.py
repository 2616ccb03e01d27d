"""C07: binary linear algebra is exact and its recorded operations are faithful."""
import itertools
from lib.harness import Suite, Skip

S = Suite('C07', 'proof',
          note='Contract on Mat2: gauss computes G*M in (reduced) echelon form with rank many nonzero rows, x -> G*x, y -> y*G^-1 for the same G; '
               'the other methods are specified through it.',
          rule='bounded part: a matrix with all options; non-trivial = distinct (matrix, options)')


def mul(a, b, k=None):
    return [[sum(a[i][t] & b[t][j] for t in range(len(b))) & 1 for j in range(len(b[0]) if b else 0)] for i in range(len(a))]


def ident(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


def rank(m):
    rows = [int(''.join(map(str, r)) or '0', 2) for r in m]
    r = 0
    rows = rows[:]
    while rows:
        p = rows.pop()
        if p:
            r += 1
            low = p & -p
            rows = [x ^ p if x & low else x for x in rows]
    return r


def echelon(m, reduced):
    last, zero = -1, False
    for i, r in enumerate(m):
        piv = next((j for j, v in enumerate(r) if v), None)
        if piv is None:
            zero = True
            continue
        if zero or piv <= last:
            return False
        last = piv
        if any(m[k][piv] for k in range(len(m)) if k != i and (reduced or k > i)):
            return False
    return True


class RowLog:
    def __init__(self):
        self.ops = []

    def row_add(self, a, b):
        self.ops.append((a, b))


class ColLog(RowLog):
    def col_add(self, a, b):
        self.ops.append((a, b))


def gauss_contract(c, data, full, bs):
    from pyzx.linalg import Mat2
    m = Mat2([list(r) for r in data])
    n, k = len(data), len(data[0])
    x, y = Mat2(ident(n)), Mat2(ident(n))
    piv = []
    r = m.gauss(full_reduce=full, x=x, y=y, blocksize=bs, pivot_cols=piv)
    c.check(r == rank(data), 'rank %s instead of %s' % (r, rank(data)), key='gauss rank')
    c.check(echelon(m.data, full), 'not in %sechelon form: %s' % ('reduced ' if full else '', m.data), key='gauss echelon')
    c.check(sum(any(q) for q in m.data) == r, 'number of nonzero rows', key='gauss rank rows')
    c.check(mul(x.data, data) == m.data, 'x-tracker: x*M is not the reduced matrix', key='gauss x tracker')
    c.check(mul(y.data, m.data) == [list(q) for q in data], 'y-tracker: y*M\' is not the matrix', key='gauss y tracker')
    c.check(mul(x.data, y.data) == ident(n), 'x and y trackers are not inverse', key='gauss trackers inverse')
    c.check(piv == [next(j for j, v in enumerate(q) if v) for q in m.data[:r]], 'pivot_cols %s' % piv, key='gauss pivots')
    lx, ly = RowLog(), ColLog()
    m2 = Mat2([list(q) for q in data])
    m2.gauss(full_reduce=full, x=lx, y=ly, blocksize=bs)
    c.check(m2.data == m.data, 'result depends on the trackers', key='gauss determinism')
    rep = [list(q) for q in data]
    for a, b in lx.ops:
        c.check(a != b, 'a row is added to itself', key='gauss ops')
        rep[b] = [u ^ v for u, v in zip(rep[a], rep[b])]
    c.check(rep == m.data, 'recorded row operations do not give the result', key='gauss x ops')
    c.check(ly.ops == [(b, a) for a, b in lx.ops], 'column tracker saw other operations', key='gauss y ops')
    m3 = Mat2([list(q) for q in data])
    c.check(m3.gauss(full_reduce=full, blocksize=bs) == r and m3.data == m.data, 'result depends on optional arguments', key='gauss determinism')


def cnot_matrix(cn, n):
    M = ident(n)
    for g in cn:
        M[g.target] = [u ^ v for u, v in zip(M[g.target], M[g.control])]
    return M


def all_contract(c, data):
    from pyzx.linalg import Mat2
    n, k = len(data), len(data[0])
    rk = rank(data)
    M = Mat2([list(r) for r in data])
    keep = [list(r) for r in data]

    def frame(what):
        c.check(M.data == keep, '%s changed the matrix' % what, key=what + ' frame')
    c.check(M.rank() == rk, 'rank()', key='rank')
    frame('rank')
    inv = M.inverse()
    frame('inverse')
    if n == k and rk == n:
        c.check(inv is not None and mul(inv.data, keep) == ident(n) and mul(keep, inv.data) == ident(n), 'inverse is wrong', key='inverse')
    else:
        c.check(inv is None, 'inverse of a singular or rectangular matrix', key='inverse none')
    ns = M.nullspace()
    frame('nullspace')
    c.check(len(ns) == k - rk and all(any(v) for v in ns), 'nullspace dimension', key='nullspace dim')
    c.check(all(len(v) == k and not any(sum(a & b for a, b in zip(r, v)) & 1 for r in keep) for v in ns), 'nullspace vector not in the kernel', key='nullspace kernel')
    c.check(not ns or rank(ns) == len(ns), 'nullspace vectors dependent', key='nullspace independent')
    m0, m1 = M.factor()
    frame('factor')
    c.check(len(m1.data) == rk and all(len(r) == rk for r in m0.data) and len(m0.data) == n, 'shapes of the factorisation', key='factor shape')
    if rk:
        c.check(mul(m0.data, m1.data) == keep and (m0 * m1).data == keep, 'factorisation', key='factor')
    t = M.transpose()
    frame('transpose')
    c.check(t.data == [[keep[i][j] for i in range(n)] for j in range(k)], 'transpose', key='transpose')
    c.check(t.transpose() == M and (t == M) == (t.data == M.data), 'equality', key='eq')
    rng = c.rng
    bs = [[[rng.randrange(2)] for _ in range(n)]]
    xx = [[rng.randrange(2)] for _ in range(k)]
    bs.append(mul(keep, xx))
    for b in bs:
        B = Mat2([list(r) for r in b])
        x = M.solve(B)
        frame('solve')
        c.check(B.data == b, 'solve changed the right-hand side', key='solve frame b')
        consistent = rank([r + s for r, s in zip(keep, b)]) == rk
        c.check((x is not None) == consistent, 'solve reports %s' % ('a solution of an inconsistent system' if x else 'no solution'), key='solve exists')
        if x is not None:
            c.check(len(x.data) == k and mul(keep, x.data) == b, 'solve: wrong solution', key='solve')
    if n == k and rk == n:
        for kw in ({}, dict(optimize=True), dict(use_log_blocksize=True)):
            cn = M.to_cnots(**kw)
            frame('to_cnots')
            got = cnot_matrix(cn, n)
            c.check(all(g.control != g.target for g in cn), 'CNOT on one qubit', key='to_cnots self')
            # convention of the code: the CNOTs act on basis states (as row vectors) by the matrix
            c.check(got == [[keep[j][i] for j in range(n)] for i in range(n)], 'to_cnots%s does not implement the matrix' % kw, key='to_cnots')
            # the sequence of recorded operations reduces the matrix to the identity
            R = [list(r) for r in keep]
            for g in cn:
                R[g.control] = [u ^ v for u, v in zip(R[g.control], R[g.target])]
            c.check(R == ident(n), 'to_cnots%s: the recorded operations do not reduce the matrix to the identity' % kw, key='to_cnots ops')
    other = [[rng.randrange(2) for _ in range(rng.randint(1, 4))] for _ in range(1)]
    w = rng.randint(1, 4)
    other = [[rng.randrange(2) for _ in range(w)] for _ in range(k)]
    O = Mat2([list(r) for r in other])
    c.check((M * O).data == mul(keep, other) and O.data == other, 'product', key='product')
    frame('product')


SMALL = [(n, k) for n in range(1, 4) for k in range(1, 4)]
NSMALL = sum(2 ** (n * k) for n, k in SMALL)


def small(i):
    for n, k in SMALL:
        if i < 2 ** (n * k):
            return [[(i >> (r * k + s)) & 1 for s in range(k)] for r in range(n)]
        i -= 2 ** (n * k)


@S.bounded('all matrices up to 3x3, all options', quick=NSMALL, thorough=NSMALL, bound='shapes up to 3x3, exhaustive', split=8, exhaustive=True,
           functions=['Mat2.' + f for f in 'gauss rank factor inverse solve nullspace to_cnots transpose __mul__ __eq__'.split()])
def _(c):
    d = small(c.i)
    c.note(matrix=d)
    c.sig(d)
    for full in (False, True):
        for bs in range(1, 5):
            c.note(full=full, blocksize=bs)
            gauss_contract(c, d, full, bs)
    all_contract(c, d)


def rand_matrix(rng, mx=9):
    n, k = rng.randint(1, mx), rng.randint(1, mx)
    if rng.random() < 0.45:
        k = n
    kind = rng.randrange(4)
    if kind == 0:
        return [[rng.randrange(2) for _ in range(k)] for _ in range(n)]
    if kind == 1:
        p = rng.choice([0.1, 0.8])
        return [[int(rng.random() < p) for _ in range(k)] for _ in range(n)]
    if kind == 2:  # low rank
        r = rng.randint(0, min(n, k))
        a = [[rng.randrange(2) for _ in range(r)] for _ in range(n)]
        b = [[rng.randrange(2) for _ in range(k)] for _ in range(r)]
        return [[sum(a[i][t] & b[t][j] for t in range(r)) & 1 for j in range(k)] for i in range(n)]
    m = ident(n)
    for _ in range(3 * n):
        a, b = rng.randrange(n), rng.randrange(n)
        if a != b:
            m[b] = [u ^ v for u, v in zip(m[a], m[b])]
    rng.shuffle(m)
    return m


@S.bounded('random matrices, all options', quick=1500, thorough=30000, bound='up to 9x9 (thorough: 14x14)', split=8, functions=['Mat2'])
def _(c):
    d = rand_matrix(c.rng, 9 if c.tier == 'quick' else 14)
    full, bs = c.rng.random() < 0.6, c.rng.randint(1, 7)
    c.note(matrix=d, full=full, blocksize=bs)
    c.sig((d, full, bs))
    gauss_contract(c, d, full, bs)
    all_contract(c, d)


@S.bounded('elementary operations and slices', quick=800, thorough=5000, bound='up to 7x7', split=4,
           functions=['Mat2.row_add', 'Mat2.col_add', 'Mat2.row_swap', 'Mat2.col_swap', 'Mat2.permute_rows', 'Mat2.permute_cols', 'Mat2.__getitem__', 'Mat2.__setitem__', 'Mat2.id', 'Mat2.zeros', 'Mat2.unit_vector', 'Mat2.copy'])
def _(c):
    from pyzx.linalg import Mat2
    rng = c.rng
    d = rand_matrix(rng, 7)
    n, k = len(d), len(d[0])
    m = Mat2([list(r) for r in d])
    a, b = rng.randrange(n), rng.randrange(n)
    p, q = rng.randrange(k), rng.randrange(k)
    c.note(matrix=d, rows=(a, b), cols=(p, q))
    c.sig((d, a, b, p, q))
    cp = m.copy()
    w = [list(r) for r in d]
    if a != b:
        m.row_add(a, b)
        w[b] = [u ^ v for u, v in zip(w[a], w[b])]
        c.check(m.data == w, 'row_add', key='row_add')
    if p != q:
        m.col_add(p, q)
        for r in w:
            r[q] ^= r[p]
        c.check(m.data == w, 'col_add', key='col_add')
    m.row_swap(a, b)
    w[a], w[b] = w[b], w[a]
    c.check(m.data == w, 'row_swap', key='row_swap')
    m.col_swap(p, q)
    for r in w:
        r[p], r[q] = r[q], r[p]
    c.check(m.data == w, 'col_swap', key='col_swap')
    pr, pc = rng.sample(range(n), n), rng.sample(range(k), k)
    m.permute_rows(pr)
    w = [w[i] for i in pr]
    c.check(m.data == w, 'permute_rows', key='permute_rows')
    m.permute_cols(pc)
    w = [[r[j] for j in pc] for r in w]
    c.check(m.data == w, 'permute_cols', key='permute_cols')
    i0, j0 = rng.randrange(n), rng.randrange(k)
    i1, j1 = rng.randint(i0 + 1, n), rng.randint(j0 + 1, k)
    c.check(m[i0:i1, j0:j1].data == [r[j0:j1] for r in w[i0:i1]] and m[i0, j0] == w[i0][j0] and m[i0, j0:j1].data == [w[i0][j0:j1]] and m[i0:i1, j0].data == [[r[j0]] for r in w[i0:i1]], 'slices', key='getitem')
    m[i0, j0] = 1 - w[i0][j0]
    w[i0][j0] = 1 - w[i0][j0]
    c.check(m.data == w, 'setitem', key='setitem')
    blk = [[rng.randrange(2) for _ in range(j0, j1)] for _ in range(i0, i1)]
    m[i0:i1, j0:j1] = Mat2([list(r) for r in blk])
    for i in range(i0, i1):
        w[i][j0:j1] = blk[i - i0]
    c.check(m.data == w, 'block setitem', key='setitem block')
    c.check(cp.data == d, 'copy shares rows', key='copy')
    c.check(Mat2.id(n).data == ident(n) and Mat2.zeros(n, k).data == [[0] * k for _ in range(n)] and Mat2.unit_vector(n, a).data == [[int(i == a)] for i in range(n)], 'constructors', key='constructors')


from props import c07p  # noqa: E402
c07p.register(S)
