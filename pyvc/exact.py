"""Exact arithmetic of amplitudes: finite sums of q * e^{i pi (c0 + sum c_k s_k)} with rational q, c and symbols s_k
(real phases or integers).  Equality of two such sums for *all* values of the symbols is decidable by a normal form:
distinct characters are linearly independent, and coefficients are reduced modulo a cyclotomic polynomial.
Also: SymPhase, a phase argument given to the real code, and the exact contraction of diagrams."""
import functools
from fractions import Fraction
from math import gcd
import numpy as np
from .core import Unsupported, path, Path

_syms = {}


def sym(name, integer=False):
    _syms[name] = integer
    return name


def is_int(name):
    return _syms[name]


# ---------------------------------------------------------------- linear forms: (const, ((sym, coef), ...))
def lf(const=0, **c):
    return (Fraction(const), tuple(sorted((k, Fraction(v)) for k, v in c.items() if v)))


def lf_add(a, b, s=1):
    d = dict(a[1])
    for k, v in b[1]:
        d[k] = d.get(k, 0) + s * v
    return (a[0] + s * b[0], tuple(sorted((k, v) for k, v in d.items() if v)))


def lf_scale(a, q):
    q = Fraction(q)
    return (a[0] * q, tuple((k, v * q) for k, v in a[1] if v * q))


def lf_subst(a, sub):
    if not sub:
        return a
    for _ in range(50):
        hit = [(k, v) for k, v in a[1] if k in sub]
        if not hit:
            return a
        for k, v in hit:
            a = lf_add((a[0], tuple(x for x in a[1] if x[0] != k)), lf_scale(sub[k], v))
    raise Unsupported('cyclic substitution')


class SymPhase(Fraction):
    """a phase in units of pi, linear in symbols; subclass of Fraction so that the code's isinstance tests and
    reflected arithmetic treat it as an ordinary phase"""
    __slots__ = ('lf',)

    def __new__(cls, form):
        self = _fnew(cls, 0)
        self.lf = form
        return self

    def _n(self):
        p = Path.current
        return lf_subst(self.lf, p.subst) if p else self.lf

    @staticmethod
    def of(x):
        if isinstance(x, SymPhase):
            return x._n()
        if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
            return (Fraction(x), ())
        if isinstance(x, float) and x == int(x * 1024) / 1024:
            return (Fraction(x), ())
        return None

    def __add__(self, o):
        b = self.of(o)
        return NotImplemented if b is None else mk(lf_add(self._n(), b))
    __radd__ = __add__

    def __sub__(self, o):
        b = self.of(o)
        return NotImplemented if b is None else mk(lf_add(self._n(), b, -1))

    def __rsub__(self, o):
        b = self.of(o)
        return NotImplemented if b is None else mk(lf_add(b, self._n(), -1))

    def __neg__(self):
        return mk(lf_scale(self._n(), -1))

    def __pos__(self):
        return self

    def __mul__(self, o):
        b = self.of(o)
        if b is None:
            return NotImplemented
        a = self._n()
        if not a[1]:
            return mk(lf_scale(b, a[0]))
        if not b[1]:
            return mk(lf_scale(a, b[0]))
        raise Unsupported('product of symbolic phases')
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self.of(o)
        if b is None or b[1]:
            raise Unsupported('division by symbolic phase')
        return mk(lf_scale(self._n(), 1 / b[0]))

    def __mod__(self, m):
        b = self.of(m)
        if b is None or b[1]:
            raise Unsupported('symbolic modulus')
        a = self._n()
        p = path()
        mods = p.memo.setdefault('mods', {})
        a = lf_subst(a, p.subst)
        q = b[0]
        for (src, mod), res in mods.items():
            if mod == q:
                if lf_subst(res, p.subst) == a:
                    return mk(a)  # already reduced
                if lf_subst(src, p.subst) == a:
                    return mk(res)
        a = (a[0], tuple((k, v) for k, v in a[1] if not (is_int(k) and (v / q).denominator == 1)))  # integer multiples of the modulus
        if not a[1]:
            return Fraction(a[0] % q)
        key = (a, q)
        if key not in mods:
            k = sym('k%d' % len(mods), integer=True)
            mods[key] = lf_add(a, ((Fraction(0)), ((k, b[0]),)), -1)
        return mk(mods[key])

    def _eq(self, o):
        b = self.of(o)
        if b is None:
            return False
        d = lf_subst(lf_add(self._n(), b, -1), path().subst)
        if not d[1]:
            return d[0] == 0
        return decide_zero(d)

    def __eq__(self, o):
        if o is self:
            return True
        return self._eq(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        raise Unsupported('hash of symbolic phase')

    def __bool__(self):
        return not self._eq(0)

    def _cmp(self, o, tag):
        b = self.of(o)
        if b is None:
            raise Unsupported('comparison of phase with %r' % (o,))
        d = lf_add(self._n(), b, -1)
        if not d[1]:
            return d[0]
        p = path()
        key = ('cmp', d)
        if key not in p.memo:
            p.memo[key] = [Fraction(-1), Fraction(1)][p.choose(2)]  # unconstrained: sound over-approximation
        return p.memo[key]

    def __lt__(self, o):
        return self._cmp(o, '<') < 0

    def __le__(self, o):
        return self._cmp(o, '<=') <= 0

    def __gt__(self, o):
        return self._cmp(o, '>') > 0

    def __ge__(self, o):
        return self._cmp(o, '>=') >= 0

    def __float__(self):
        raise Unsupported('float of symbolic phase')
    __int__ = __floor__ = __trunc__ = __round__ = __abs__ = __pow__ = __complex__ = __floordiv__ = __float__

    @property
    def denominator(self):
        a = self._n()
        if not a[1]:
            return a[0].denominator
        return SymDen(self)

    @property
    def numerator(self):
        a = self._n()
        den = 1
        for v in [a[0]] + [v for k, v in a[1]]:
            den = den * v.denominator // gcd(den, v.denominator)
        if all(is_int(k) for k, v in a[1]):
            p = path()
            d = p.memo.get(('den', a))
            if d:
                return SymInt(lf_scale(a, d))
        raise Unsupported('numerator of symbolic phase')

    def limit_denominator(self, *_):
        return self

    def __repr__(self):
        return 'SymPhase(%s)' % (self.lf,)

    def __str__(self):
        raise Unsupported('printing of symbolic phase')
    __format__ = __str__

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __reduce__(self):
        raise Unsupported('pickle')


def decide_zero(d):
    """fork on 'linear form d is zero'"""
    p = path()
    d0 = d
    lead = d[1][0][1]
    d = lf_scale(d, 1 / lead)
    if ('ne', d) in p.memo:
        return False
    rl = [(k, v) for k, v in d[1] if not is_int(k)]
    if len(rl) == 1 and ('nonquarter', rl[0][0]) in p.memo:  # a real that is no multiple of 1/4
        q = lf_scale(d, 4 / rl[0][1])
        if q[0].denominator == 1 and all(v.denominator == 1 for k, v in q[1]):
            return False
    if p.choose(2) == 0:
        reals = [(k, v) for k, v in d[1] if not is_int(k)]
        cand = reals or [(k, v) for k, v in d[1] if abs(v) == 1 and all((w / v).denominator == 1 for _, w in d[1]) and (d[0] / v).denominator == 1]
        if not cand:
            if len(d[1]) == 1:  # single integer symbol, non-integral solution: infeasible
                from .core import PathAbort
                raise PathAbort()
            raise Unsupported('integer equation')
        k, v = cand[0]
        rest = lf_scale((d[0], tuple(x for x in d[1] if x[0] != k)), -1 / v)
        p.subst[k] = rest
        return True
    p.memo[('ne', d)] = True
    return False


class SymDen:
    """denominator of a symbolic phase: only comparisons with small integers"""
    def __init__(self, ph):
        self.ph = ph

    def __eq__(self, n):
        p = path()
        a = self.ph._n()
        if not a[1]:
            return a[0].denominator == n
        key = ('dn', a, n)
        if key in p.memo:
            return p.memo[key]
        known = p.memo.get(('den', a))
        if known:
            return known == n
        if n not in (1, 2, 4):
            raise Unsupported('denominator test %r' % n)
        if p.choose(2) == 0:
            k = sym('m%d' % len(p.memo), integer=True)
            val = (Fraction(0), ((k, Fraction(1)),)) if n == 1 else (Fraction(1, n), ((k, Fraction(2, n)),))
            eq = lf_add(a, val, -1)
            reals = [(s, v) for s, v in eq[1] if not is_int(s)]
            if not reals:
                raise Unsupported('denominator of integer form %s' % (self.ph._n(),))
            s, v = reals[0]
            p.subst[s] = lf_scale((eq[0], tuple(x for x in eq[1] if x[0] != s)), -1 / v)
            p.memo[('den', self.ph._n())] = n
            return True
        p.memo[key] = False
        return False

    def __ne__(self, n):
        return not (self == n)
    __hash__ = None

    def _ord(self, n):
        """denominators 1, 2, 4 are split off; larger ones remain generic"""
        for d in (1, 2, 4):
            if self == d:
                return d
        return 10 ** 9

    def __gt__(self, n):
        return self._ord(n) > n

    def __ge__(self, n):
        return self._ord(n) >= n

    def __lt__(self, n):
        return self._ord(n) < n

    def __le__(self, n):
        return self._ord(n) <= n


class SymInt:
    """integer linear in integer symbols; comparisons after reduction mod n fork over residues"""
    def __init__(self, form):
        self.lf = form

    def __mod__(self, n):
        p = path()
        a = lf_subst(self.lf, p.subst)
        fixed = {}
        for k, v in a[1]:
            per = n // gcd(int(v) % n if int(v) % n else n, n)
            if per > 1:
                r = p.choose(per)
                k2 = sym('r%d' % len(p.memo), integer=True)
                p.memo[('res', k)] = True
                new = (Fraction(r), ((k2, Fraction(per)),))
                old = lf_subst(self.lf, p.subst)
                p.subst[k] = new
        a = lf_subst(self.lf, p.subst)
        return int(a[0]) % n

    def __mul__(self, q):
        return SymInt(lf_scale(self.lf, q))
    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(lf_scale(self.lf, -1))

    def __add__(self, q):
        if isinstance(q, int):
            return SymInt(lf_add(self.lf, (Fraction(q), ())))
        raise Unsupported('symint')
    __radd__ = __add__

    def _eq(self, o):
        if not isinstance(o, int):
            raise Unsupported('symint')
        d = lf_subst(lf_add(self.lf, (Fraction(o), ()), -1), path().subst)
        return d[0] == 0 if not d[1] else decide_zero(d)
    __eq__ = _eq

    def __ne__(self, o):
        return not self._eq(o)
    __hash__ = None

    def __gt__(self, o):
        p = path()
        return p.choose(2) == 0
    __lt__ = __ge__ = __le__ = __gt__


_fnew = Fraction.__new__


def _new(cls, numerator=0, denominator=None, **kw):
    """Fraction(x) of a symbolic phase is that phase (the exact value)"""
    if isinstance(numerator, SymPhase):
        if denominator is None:
            return mk(numerator._n())
        return numerator / denominator
    return _fnew(cls, numerator, denominator, **kw)


def install():
    """active only inside proof worker processes"""
    Fraction.__new__ = staticmethod(_new)


def mk(form):
    return SymPhase(form) if form[1] else Fraction(form[0])


def phase_sym(name):
    sym(name)
    return SymPhase((Fraction(0), ((name, Fraction(1)),)))


# ---------------------------------------------------------------- amplitudes
@functools.lru_cache(None)
def cyclo(n):
    import sympy
    x = sympy.Symbol('x')
    return [int(c) for c in reversed(sympy.Poly(sympy.cyclotomic_poly(n, x), x).all_coeffs())]


class Amp:
    """dict: linear form -> rational coefficient"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def of(x):
        if isinstance(x, Amp):
            return x
        if isinstance(x, (int, Fraction)):
            return Amp({(Fraction(0), ()): Fraction(x)} if x else {})
        if isinstance(x, float) and x == int(x):
            return Amp.of(int(x))
        if isinstance(x, complex) and x.imag == 0 and x.real == int(x.real):
            return Amp.of(int(x.real))
        raise Unsupported('amplitude from %r' % (x,))

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Amp.of(o)
        d = dict(self.d)
        for k, v in o.d.items():
            w = d.get(k, 0) + v
            if w:
                d[k] = w
            else:
                d.pop(k, None)
        return Amp(d)
    __radd__ = __add__

    def __neg__(self):
        return Amp({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-Amp.of(o))

    def __rsub__(self, o):
        return Amp.of(o) - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Amp.of(o)
        d = {}
        for k, v in self.d.items():
            for l, w in o.d.items():
                f = canon(lf_add(k, l))
                x = d.get(f, 0) + v * w
                if x:
                    d[f] = x
                else:
                    d.pop(f, None)
        return Amp(d)
    __rmul__ = __mul__

    @staticmethod
    def exact(x):
        """the exact value of a Gaussian-dyadic literal"""
        if isinstance(x, complex):
            return Amp.of(Fraction(x.real)) + Amp({(Fraction(1, 2), ()): Fraction(1)}) * Fraction(x.imag)
        return Amp.of(Fraction(x)) if not isinstance(x, Amp) else x

    def inverse(self):
        """of a nonzero constant a + b*sqrt2 + c*i + d*i*sqrt2 style number (no symbols): product of Galois conjugates"""
        if any(k[1] for k in self.d):
            raise Unsupported('division by a symbolic amplitude')
        num = ONE
        for g in (3, 5, 7):
            for k in self.d:
                if 4 % k[0].denominator:
                    raise Unsupported('division outside Q(zeta_8)')
            num = num * Amp({canon(lf_scale(k, g)): v for k, v in self.d.items()})
        n = (num * self).rational()
        if n == 0:
            raise ZeroDivisionError
        return num * (1 / n)

    def rational(self):
        """the rational number this constant is"""
        z = Fraction(0)
        for q in (Fraction(sum(float(v) * __import__('math').cos(__import__('math').pi * float(k[0])) for k, v in self.d.items())).limit_denominator(10 ** 6),):
            z = q
        if not (self - Amp.of(z)).is_zero():
            raise Unsupported('not rational')
        return z

    def __truediv__(self, o):
        o = Amp.exact(o)
        return self * o.inverse()

    def __rtruediv__(self, o):
        return Amp.exact(o) * self.inverse()

    def __pow__(self, n):
        r = ONE
        b = self if n >= 0 else self.inverse()
        for _ in range(abs(int(n))):
            r = r * b
        return r

    def conj(self):
        return Amp({canon(lf_scale(k, -1)): v for k, v in self.d.items()})

    def conjugate(self):
        return self.conj()

    def subst(self, sub):
        d = {}
        for k, v in self.d.items():
            f = canon(lf_subst(k, sub))
            d[f] = d.get(f, 0) + v
        return Amp({k: v for k, v in d.items() if v})

    def is_zero(self):
        groups = {}
        for (c, ss), v in self.d.items():
            groups.setdefault(ss, {})
            groups[ss][c % 2] = groups[ss].get(c % 2, 0) + v
        for g in groups.values():
            den = 1
            for c in g:
                den = den * c.denominator // gcd(den, c.denominator)
            n = 2 * den
            poly = [Fraction(0)] * n
            for c, v in g.items():
                poly[int(c * den) % n] += v
            phi = cyclo(n)
            deg = len(phi) - 1
            for i in range(n - 1, deg - 1, -1):
                if poly[i]:
                    q = poly[i] / phi[-1]
                    for j in range(deg + 1):
                        poly[i - deg + j] -= q * phi[j]
            if any(poly[:deg]):
                return False
        return True

    def __repr__(self):
        return ' + '.join('%s*e[%s%s]' % (v, k[0], ''.join('%+g%s' % (float(c), s) for s, c in k[1])) for k, v in self.d.items()) or '0'

    def value(self, env):
        import cmath
        return sum(float(v) * cmath.exp(1j * cmath.pi * (float(k[0]) + sum(float(c) * env[s] for s, c in k[1]))) for k, v in self.d.items())


def canon(f):
    """e^{i pi f}: constant mod 2, coefficients of integer symbols mod 2"""
    return (f[0] % 2, tuple((k, v % 2 if _syms.get(k) else v) for k, v in f[1] if not (_syms.get(k) and v % 2 == 0)))


ONE = Amp.of(1)
ZERO = Amp()


def e(form):
    """e^{i pi x} for a phase x"""
    x = SymPhase.of(form) if not isinstance(form, tuple) else form
    if x is None:
        raise Unsupported('phase %r' % (form,))
    p = Path.current
    if p:
        x = lf_subst(x, p.subst)
    return Amp({canon(x): Fraction(1)})


SQ2 = e(Fraction(1, 4)) + e(Fraction(-1, 4))
ISQ2 = SQ2 * Fraction(1, 2)


def sqrt2pow(n):
    n = int(n)
    r = Amp.of(Fraction(2) ** (n // 2))
    return r * SQ2 if n % 2 else r


def arr(rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = Amp.of(x)
    return a


I2 = arr([[1, 0], [0, 1]])
H = np.vectorize(lambda x: x * ISQ2, otypes=[object])(arr([[1, 1], [1, -1]]))
X = arr([[0, 1], [1, 0]])


def zp(x):
    return arr([[ONE, ZERO], [ZERO, e(x)]])


def xp(x):
    return H.dot(zp(x)).dot(H)


def equal(a, b):
    """entrywise identity for all symbol values; returns (bool, first differing entry)"""
    if a.shape != b.shape:
        return False, 'shape %s vs %s' % (a.shape, b.shape)
    sub = Path.current.subst if Path.current else {}
    for ix in np.ndindex(a.shape):
        d = (Amp.of(a[ix]) - Amp.of(b[ix])).subst(sub)
        if not d.is_zero():
            return False, 'entry %s: %r  vs  %r' % (ix, a[ix], b[ix])
    return True, None


def proportional(a, b):
    """a = c*b for a unit-modulus or arbitrary nonzero c: cross products equal (b not identically zero)"""
    ref = None
    sub = Path.current.subst if Path.current else {}
    a = np.vectorize(lambda x: Amp.of(x).subst(sub), otypes=[object])(a)
    b = np.vectorize(lambda x: Amp.of(x).subst(sub), otypes=[object])(b)
    if a.shape != b.shape:
        return False, 'shape'
    for ix in np.ndindex(b.shape):
        if len(b[ix].d) and not b[ix].is_zero():
            ref = ix
            break
    if ref is None:
        return False, 'zero map'
    for ix in np.ndindex(a.shape):
        d = a[ix] * b[ref] - b[ix] * a[ref]
        if not d.is_zero():
            return False, 'entry %s vs reference entry %s' % (ix, ref)
    return True, None


# ---------------------------------------------------------------- exact contraction
def full(shape, fill=ZERO):
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        a[ix] = fill
    return a


def app1(t, m, axis):
    return np.moveaxis(np.tensordot(m, t, axes=(1, axis)), 0, axis)


def spider(n, c):
    if n == 0:
        a = np.empty((), dtype=object)
        a[()] = ONE + c
        return a
    t = full((2,) * n)
    t[(0,) * n] = ONE
    t[(1,) * n] = Amp.of(c)
    return t


def xspider(n, c):
    t = spider(n, c)
    for i in range(n):
        t = app1(t, H, i)
    return t


def hbox(n, c):
    if n == 0:
        a = np.empty((), dtype=object)
        a[()] = Amp.of(c)
        return a
    t = full((2,) * n, ONE)
    t[(1,) * n] = Amp.of(c)
    return t


def contract(ts, out):
    ts = list(ts)
    outs = set(out)

    def trace(t, labels):
        while True:
            rep = [l for l in labels if labels.count(l) == 2]
            if not rep:
                return t, labels
            i = labels.index(rep[0])
            j = labels.index(rep[0], i + 1)
            t2 = np.moveaxis(t, (i, j), (0, 1))
            t = t2[0, 0] + t2[1, 1]
            if not isinstance(t, np.ndarray):
                a = np.empty((), dtype=object)
                a[()] = t
                t = a
            labels = [x for k, x in enumerate(labels) if k not in (i, j)]
    ts = [trace(t, list(l)) for t, l in ts]
    while True:
        where = {}
        for i, (_, ls) in enumerate(ts):
            for l in ls:
                where.setdefault(l, []).append(i)
        best = None
        for l, idx in where.items():
            if l in outs or len(idx) != 2:
                continue
            i, j = idx
            cost = len(set(ts[i][1]) ^ set(ts[j][1]))
            if best is None or cost < best[0]:
                best = (cost, i, j)
        if best is None:
            break
        _, i, j = best
        a, la = ts[i]
        b, lb = ts[j]
        common = [l for l in la if l in lb and l not in outs]
        t = np.tensordot(a, b, axes=([la.index(l) for l in common], [lb.index(l) for l in common]))
        if not isinstance(t, np.ndarray):
            z = np.empty((), dtype=object)
            z[()] = t
            t = z
        ls = [l for l in la if l not in common] + [l for l in lb if l not in common]
        if t.ndim > 12:
            raise Unsupported('exact contraction too large')
        ts = [x for k, x in enumerate(ts) if k not in (i, j)] + [(t, ls)]
    res = np.empty((), dtype=object)
    res[()] = ONE
    ls = []
    for t, l in ts:
        res = np.multiply.outer(res, t)
        ls += l
    return np.transpose(res, [ls.index(o) for o in out]) if out else res


def scalar_amp(s):
    if hasattr(s, 'val'):
        return s.val
    if s.is_zero:
        return ZERO
    v = e(s.phase) * sqrt2pow(s.power2) * Amp.of(s.floatfactor)
    for p in s.phasenodes:
        v = v * (ONE + e(p))
    return v


def graph_amp(g):
    """exact tensor (outputs..., inputs...) of a real graph with symbolic phases"""
    ins, outs = list(g.inputs()), list(g.outputs())
    legs = {v: [] for v in g.vertices()}
    ts = []
    n = 0
    for ed in g.edges():
        s, t = g.edge_st(ed)
        la, lb = ('e', n, 0), ('e', n, 1)
        n += 1
        legs[s].append(la)
        legs[t].append(lb)
        et = int(g.edge_type(ed))
        if et not in (1, 2):
            raise Unsupported('edge type')
        ts.append((I2 if et == 1 else H, [la, lb]))
    for v, ls in legs.items():
        ty = int(g.type(v))
        if ty == 0:
            l2 = list(ls) + ([('in', v)] if v in ins else []) + ([('out', v)] if v in outs else [])
            if len(l2) != 2:
                raise Unsupported('boundary arity')
            ts.append((I2, l2))
            continue
        c = Amp.of(g.vdata(v, 'label', 1)) if ty == 6 else e(g.phase(v))
        ts.append(({1: spider, 2: xspider, 3: hbox, 6: spider}[ty](len(ls), c), ls))
    r = contract(ts, [('out', v) for v in outs] + [('in', v) for v in ins])
    sc = scalar_amp(g.scalar)
    if not getattr(r, 'shape', ()):
        a = np.empty((), dtype=object)
        a[()] = (r[()] if isinstance(r, np.ndarray) else r) * sc
        return a
    return np.vectorize(lambda x: x * sc, otypes=[object])(r)


def graph_amp_matrix(g):
    t = graph_amp(g)
    return np.asarray(t, dtype=object).reshape(2 ** len(g.outputs()), 2 ** len(g.inputs()))


def on_qubits(m, qs, n):
    """matrix m on qubits qs (first is most significant) of n"""
    k = len(qs)
    t = np.asarray(m, dtype=object).reshape((2,) * (2 * k))
    full_ = eye(2 ** n).reshape((2,) * (2 * n))
    r = np.tensordot(t, full_, axes=(list(range(k, 2 * k)), list(qs)))
    return np.moveaxis(r, list(range(k)), list(qs)).reshape(2 ** n, 2 ** n)


def eye(n):
    a = full((n, n))
    for i in range(n):
        a[i, i] = ONE
    return a


def dagger(m):
    return np.vectorize(lambda x: Amp.of(x).conj(), otypes=[object])(m).T


def ctrl(u):
    k = u.shape[0]
    r = eye(2 * k)
    r[k:, k:] = u
    return r
