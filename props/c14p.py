"""C14, deductive part: the arithmetic of Term and Poly for expressions of any number of terms, variables and any powers.

Values are taken under one arbitrary assignment of the symbols (Boolean symbols get 0 or 1).  A list of terms has the prefix sums
S(0) = 0, S(i+1) = S(i) + c(i) V(t(i)); a list of (variable, power) pairs the prefix products.  Loops are cut by invariants on the value of
the collecting dictionary (pyvc.loops); a reduction modulo 2 adds a multiple of 2 times an integer to a ghost slack, and the obligations
are exact identities value(result) = value(operands) + 2 * slack, with slack 0 where no Boolean symbol occurs."""
from fractions import Fraction
import z3
from pyvc import loops as L
from pyvc.core import path, Unsupported, PathAbort
from pyvc.heap import Z
from props import c07p as G
from props.c07p import fa, fn, I, B, nx

_S = [None]
R = z3.RealSort()
V = z3.Function('V', I, R)            # value of a monomial
PW = z3.Function('pw', I, I, R)       # value of variable ** power
ISB = z3.Function('is_bool', I, B)
ALLB = z3.Function('all_bool', I, B)  # every symbol of the monomial is Boolean
ANYB = z3.Function('any_bool', I, B)
LEN = z3.Function('len_vars', I, I)
ONE = z3.IntVal(0)                    # the empty monomial


def hunter(prefix):
    def rep():
        return (_S[0].hunt(prefix, 3000, 1, seconds=15) if _S[0] else None) or False
    return rep


def real(x):
    if isinstance(x, Q):
        return x.t
    if isinstance(x, bool) or not isinstance(x, (int, float, Fraction)):
        return None
    return z3.RealVal(str(Fraction(x)))


class Q(Fraction):
    """a coefficient: any real number"""
    def __new__(cls, t, ks=None):
        s = Fraction.__new__(cls, 0)
        s.t, s.ks = z3.simplify(t), ks
        return s

    def _b(self, o, f):
        o = real(o)
        return NotImplemented if o is None else Q(f(self.t, o))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return Q(-self.t)

    def __mod__(self, m):
        if m != 2:
            raise Unsupported('modulus')
        k = z3.Int('k!%d' % nx())
        path().assume(z3.And(self.t - 2 * z3.ToReal(k) >= 0, self.t - 2 * z3.ToReal(k) < 2))
        return Q(self.t - 2 * z3.ToReal(k), z3.ToReal(k))

    def _c(self, o, f):
        o = real(o)
        return NotImplemented if o is None else path().branch(f(self.t, o))

    def __eq__(self, o): return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return r

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __bool__(self): return path().branch(self.t != 0)
    def __hash__(self): return 0
    def __repr__(self): return str(self.t)
    __pow__ = __rpow__ = __truediv__ = __rtruediv__ = __floordiv__ = __int__ = __float__ = lambda s, *a: _unsup()


def _unsup():
    raise Unsupported('operation on a coefficient')


class Flag:
    """is every (some) symbol of t Boolean"""
    def __init__(self, t):
        self.t = t

    def item(self, f):
        probe = Var(z3.Int('probe!%d' % nx()))
        probe.flag = Tok()
        if f((probe, Z(z3.Int('pc!%d' % nx())))) is not probe.flag:
            raise Unsupported('comprehension over the variables of a term')
        return self


class Tok:
    pass


class Vars:
    """t.vars of an abstract term"""
    def __init__(self, t):
        self.t = t

    def comp(self, f, conds):
        if conds:
            raise Unsupported('condition')
        p = Var(z3.Int('probe!%d' % nx()))
        p.flag = Tok()
        x = (p, Z(z3.Int('pc!%d' % nx())))
        r = f(x)
        if r is not p.flag:
            raise Unsupported('comprehension over the variables of a term')
        return Flag(self.t)


class Flag:
    def __init__(self, t):
        self.t = t


def q_all(x):
    if isinstance(x, Flag):
        p = path()
        if p.branch(ALLB(x.t)):
            p.assume(z3.Or(V(x.t) == 0, V(x.t) == 1))
            return True
        return False
    return all(x)


def q_any(x):
    if isinstance(x, Flag):
        return path().branch(ANYB(x.t))
    return any(x)


def q_len(x):
    if isinstance(x, Vars):
        return Z(LEN(x.t))
    if isinstance(x, TL):
        return Z(x.n)
    return len(x)


class Var:
    def __init__(self, t):
        self.t = t
        self.flag = None

    @property
    def is_bool(self):
        if self.flag is not None:
            return self.flag
        if path().branch(ISB(self.t)):
            return True
        return False

    def __hash__(self):
        return 0

    def __eq__(self, o):
        raise Unsupported('comparison of variables')


class T:
    """an abstract monomial"""
    def __init__(self, t):
        self.t = t
        path().assume(term_facts(t))

    @property
    def vars(self):
        return Vars(self.t)

    def __mul__(self, o):
        """contract of Term.__mul__ (proved): the value of the product is the product of the values"""
        if not isinstance(o, T):
            raise Unsupported('product of a term')
        m = z3.Int('mul!%d' % nx())
        p = path()
        p.assume(z3.Implies(z3.Not(z3.Or(ANYB(self.t), ANYB(o.t))), z3.Not(ANYB(m))))
        eqn(V(m), V(self.t) * V(o.t))
        return T(m)

    def substitute(self, m):
        """contract of Term.substitute (proved): coefficient times the remaining monomial has the same value"""
        c, r = z3.Real('sub!%d' % nx()), z3.Int('rest!%d' % nx())
        path().assume(z3.Implies(z3.Not(ANYB(self.t)), z3.Not(ANYB(r))))
        eqn(V(self.t), c * V(r))
        return Q(c), T(r)

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if not isinstance(o, T):
            return False
        return path().branch(self.t == o.t)


def term_facts(t):
    return z3.And(LEN(t) >= 0, z3.Implies(z3.And(ALLB(t), LEN(t) > 0), ANYB(t)), z3.Implies(ANYB(t), LEN(t) > 0))


def mkterm(vs):
    if isinstance(vs, list) and not vs:
        path().assume(z3.And(V(ONE) == 1, ALLB(ONE), z3.Not(ANYB(ONE)), LEN(ONE) == 0))
        return T(ONE)
    if isinstance(vs, TL):
        return vs
    raise Unsupported('Term(%r)' % (vs,))


def eqn(a, b):
    """assumed; also used left to right by prove_eq"""
    path().assume(a == b)
    path().memo.setdefault('rw', []).append((a, b))


def prove_eq(rt, name, a, b):
    d = a - b
    for x, y in reversed(path().memo.get('rw', [])):
        d = z3.substitute(d, (x, y))
    for x, y in path().memo.get('rw', []):
        d = z3.substitute(d, (x, y))
    d = z3.simplify(d, som=True)
    if z3.is_rational_value(d) and d.numerator_as_long() == 0:
        rt.prove(name, True)
    else:
        rt.prove(name, a == b)


class Eq:
    """an invariant a == b; proved by prove_eq"""
    def __init__(self, a, b):
        self.a, self.b = a, b


class RT(L.Runtime):
    def prove(self, name, f, timeout=10000):
        if isinstance(f, Eq):
            return prove_eq(self, name, f.a, f.b)
        return L.Runtime.prove(self, name, f, timeout)

    def _assume(self, fs):
        L.Runtime._assume(self, [(n, f.a == f.b if isinstance(f, Eq) else f) for n, f in fs])


class TL:
    """a list of pairs: (coefficient, monomial) with prefix sums, or (variable, power) with prefix products"""
    def __init__(self, kind, n=None, total=None, elem=None):
        self.kind = kind
        p = path()
        self.n = z3.Int('n!%d' % nx()) if n is None else n
        p.assume(self.n >= 0)
        self.S_ = fn('S', I, R)
        self.unit = z3.RealVal(0 if kind == 'sum' else 1)
        p.assume(self.S_(z3.IntVal(0)) == self.unit)
        self.a, self.b = (fn('c', I, R), fn('t', I, I)) if kind == 'sum' else (fn('v', I, I), fn('p', I, I))
        self.facts = elem or (lambda x, y: z3.BoolVal(True))
        self.whole = total
        if total is not None:
            eqn(self.S_(self.n), total)

    lo, step = 0, 1

    @property
    def hi(self):
        return Z(self.n)

    def S(self, i):
        i = z3.simplify(i)
        return self.unit if z3.is_int_value(i) and i.as_long() == 0 else self.S_(i)

    @property
    def total(self):
        return self.S_(self.n) if self.whole is None else self.whole

    def at(self, i):
        i = G.term(i)
        x, y = self.a(i), self.b(i)
        path().assume(self.facts(x, y))
        nxt = self.S_(z3.simplify(i + 1))
        if self.kind == 'sum':
            eqn(nxt, self.S(i) + x * V(y))
            return Q(x), T(y)
        path().assume(y >= 1)
        eqn(nxt, self.S(i) * PW(x, y))
        return Var(x), Z(y)

    def __add__(self, o):
        if isinstance(o, list) and not o:
            return self
        if not isinstance(o, TL) or o.kind != self.kind:
            raise Unsupported('concatenation')
        f, g = self.facts, o.facts
        return TL(self.kind, z3.simplify(self.n + o.n), self.total + o.total if self.kind == 'sum' else self.total * o.total, lambda x, y: z3.Or(f(x, y), g(x, y)))

    def comp(self, f, conds):
        """[f(x, y) for x, y in list]: the value of the result by induction over the list"""
        if conds or self.kind != 'sum':
            raise Unsupported('comprehension')
        rt = path().memo['rt']
        c, t = Q(z3.Real('c!%d' % nx())), T(z3.Int('t!%d' % nx()))
        path().assume(self.facts(c.t, t.t))
        r = f((c, t))
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Q) and r[1] is t):
            raise Unsupported('comprehension')
        k = 1 if z3.is_true(z3.simplify(r[0].t == c.t)) else -1 if z3.is_true(z3.simplify(r[0].t == -c.t)) else None
        if k is None:
            raise Unsupported('comprehension')
        fs = self.facts
        return TL('sum', self.n, k * self.total, lambda x, y: fs(k * x, y))

    def append(self, e):
        raise Unsupported('append to an operand')


def pair_list(x):
    """a Python list of pairs as a TL of one element"""
    if isinstance(x, TL):
        return x
    tot, fs = z3.RealVal(0), []
    for c, t in x:
        c = real(c)
        if c is None or not isinstance(t, T):
            raise Unsupported('terms')
        tot = tot + c * V(t.t)
        fs.append((c, t.t))
    if not fs:
        return TL('sum', z3.IntVal(0), z3.RealVal(0), lambda x, y: z3.BoolVal(False))
    return TL('sum', z3.IntVal(len(fs)), tot, lambda x, y: z3.Or(*[z3.And(x == c, y == t) for c, t in fs]))


class Build:
    """a list under construction"""
    def __init__(self, kind):
        self.kind, self.tot, self.slack, self.ok = kind, z3.RealVal(0 if kind == 'sum' else 1), z3.RealVal(0), []

    def append(self, e):
        rt = path().memo['rt']
        a, b = e
        if self.kind == 'sum':
            self.tot = self.tot + real(a) * V(b.t)
            rt.prove('coefficients of monomials with integer values are reduced to [0, 2), zeros are dropped', z3.And(real(a) != 0, z3.Implies(ALLB(b.t), z3.And(real(a) >= 0, real(a) < 2))))
        else:
            self.tot = self.tot * PW(a.t, G.term(b))

    def comp(self, f, conds):
        raise Unsupported('comprehension')


class D:
    """the dictionary collecting terms (kind sum: monomial -> coefficient) or variables (kind prod: variable -> power)"""
    def __init__(self, kind):
        self.kind = kind
        self.mem = lambda k: z3.BoolVal(False)
        self.val = lambda k: z3.RealVal(0) if kind == 'sum' else z3.IntVal(0)
        self.tot = z3.RealVal(0 if kind == 'sum' else 1)
        self.slack = z3.RealVal(0)
        self.last = None

    def havoc(self):
        m, v = fn('mem', I, B), fn('val', I, R if self.kind == 'sum' else I)
        self.mem, self.val = (lambda k: m(k)), (lambda k: v(k))
        self.tot, self.slack, self.last = z3.Real('tot!%d' % nx()), z3.Real('slack!%d' % nx()), None

    def key(self, k):
        if not isinstance(k, T if self.kind == 'sum' else Var):
            raise Unsupported('key')
        return k.t

    def contrib(self, k, x):
        return x * V(k) if self.kind == 'sum' else PW(k, x)

    def __contains__(self, k):
        return path().branch(self.mem(self.key(k)))

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __getitem__(self, k):
        k = self.key(k)
        path().memo['rt'].prove('keys looked up are present', self.mem(k))
        path().assume(self.mem(k))
        x = z3.simplify(self.val(k))
        return Q(x) if self.kind == 'sum' else Z(x)

    def _rest(self, k):
        """the value of the other entries"""
        if self.last is not None and self.last[0].eq(k):
            return self.last[1]
        rest = z3.Real('rest!%d' % nx())
        if path().branch(self.mem(k)):
            x = z3.simplify(self.val(k))
            eqn(self.tot, rest + self.contrib(k, x) if self.kind == 'sum' else rest * self.contrib(k, x))
            self.old = x
        else:
            eqn(self.tot, rest)
            self.old = None
        return rest

    def __setitem__(self, k, x):
        k0, k = k, self.key(k)
        rest = self._rest(k)
        ks = getattr(x, 'ks', None)
        if self.kind == 'sum':
            x = real(x)
            if x is None:
                raise Unsupported('coefficient')
            if ks is not None:
                path().memo['rt'].prove('coefficients are reduced modulo 2 only where the monomial is an integer', z3.Or(V(k) == 0, V(k) == 1))
                self.slack = self.slack - ks * V(k)
        else:
            x = z3.simplify(G.term(x))
            path().memo['rt'].prove('powers are positive', x >= 1)
            # pw(v, a+b) = pw(v, a) pw(v, b);  pw(v, k) = pw(v, 1) for Boolean v and k >= 1
            if z3.is_int_value(x) and path().branch(z3.And(ISB(k), self.mem(k))):
                y = z3.simplify(self.val(k))
                path().memo['rt'].prove('powers are positive', y >= 1)
                eqn(PW(k, x), PW(k, y))
            elif self.old is not None and not x.eq(self.old):
                eqn(PW(k, x), PW(k, self.old) * PW(k, z3.simplify(x - self.old)))
        m, v = self.mem, self.val
        self.mem = lambda q: z3.Or(m(q), q == k)
        self.val = lambda q: z3.If(q == k, x, v(q))
        self.tot = rest + self.contrib(k, x) if self.kind == 'sum' else rest * self.contrib(k, x)
        self.last = (k, rest)

    def __delitem__(self, k):
        k = self.key(k)
        rest = self._rest(k)
        m = self.mem
        self.mem = lambda q: z3.And(m(q), q != k)
        self.tot, self.last = rest, None

    def pop(self, k, *d):
        x = self[k]
        del self[k]
        return x

    def keys(self):
        return Keys(self)

    def items(self):
        return Items(self)

    def __iter__(self):
        raise Unsupported('iteration')


class Keys:
    def __init__(self, d):
        m = d.mem
        self.d, self.member = d, lambda t: m(t)

    def snapshot(self):
        return self

    def element(self, name):
        z = z3.Int('%s!%d' % (name, nx()))
        path().assume(self.member(z))
        return z3i(z)


class z3i(T):
    """an element of a set of monomials"""


class Items:
    def __init__(self, d):
        self.d = d

    def comp(self, f, conds):
        d = self.d
        if conds:
            raise Unsupported('condition')
        if d.kind == 'sum':
            a, b = T(z3.Int('t!%d' % nx())), Q(z3.Real('c!%d' % nx()))
            want = (b, a)
        else:
            a, b = Var(z3.Int('v!%d' % nx())), Z.fresh('c')
            want = (a, b)
        r = f((a, b))
        if not (isinstance(r, tuple) and len(r) == 2 and r[0] is want[0] and r[1] is want[1]):
            raise Unsupported('comprehension')
        m, v = d.mem, d.val
        t = TL(d.kind, None, d.tot, (lambda x, y: z3.And(m(y), v(y) == x)) if d.kind == 'sum' else (lambda x, y: z3.And(m(x), v(x) == y)))
        t.slack, t.dict = d.slack, d
        return t


class P_:
    """an abstract polynomial with its contracts"""
    def __init__(self, terms):
        if isinstance(terms, Build):
            self.tot, self.terms = terms.tot, terms
        else:
            self.terms = pair_list(terms)
            self.tot = self.terms.total
        self.slack = getattr(terms, 'slack', z3.RealVal(0))

    def __add__(self, o):
        """contract of Poly.__add__ (proved)"""
        if not isinstance(o, P_):
            o = P_([(o, mkterm([]))])
        r = P_.__new__(P_)
        s = z3.Real('slack!%d' % nx())
        exact = path().memo.get('exact')
        if exact:
            path().memo['rt'].prove('no Boolean symbols appear', z3.BoolVal(True))
            s = z3.RealVal(0)
        r.slack = self.slack + o.slack + s
        r.tot = self.tot + o.tot + 2 * s
        r.terms = TL('sum', None, r.tot)
        return r
    __radd__ = __add__

    def __neg__(self):
        r = P_.__new__(P_)
        r.slack, r.tot = -self.slack, -self.tot
        r.terms = TL('sum', None, r.tot)
        return r

    def __sub__(self, o):
        return self + -o


def q_list(x):
    return x if isinstance(x, (Keys, TL)) else list(x)


def setup(p, VD, exact):
    p.drop = L.quantified
    rt = RT({}, VD)
    p.memo.update(rt=rt, exact=exact)
    return rt


NAMES = dict(all=q_all, any=q_any, len=q_len, list=q_list, Term=mkterm, Poly=P_)


def operand(exact):
    return TL('sum', elem=(lambda x, y: z3.And(term_facts(y), z3.Not(ANYB(y)))) if exact else (lambda x, y: term_facts(y)))


def fresh(n, old):
    if isinstance(old, P_):
        r = P_.__new__(P_)
        r.slack, r.tot = z3.Real('slack!%d' % nx()), z3.Real('tot!%d' % nx())
        r.terms = TL('sum', None, r.tot)
        return r
    if isinstance(old, (Q, float, Fraction)):
        return Q(z3.Real('q!%d' % nx()))
    if isinstance(old, (Z, int)) and not isinstance(old, bool):
        return Z.fresh(n)
    return old


def finish(P, name, run, VD, exact):
    G.finish(P, name + (', no Boolean symbols: exact' if exact is True else ''), run, VD, hunter('operations'))


def add(P, exact, number=False):
    import pyzx.symbolic as M
    P.under_contract('pyzx.symbolic.Poly.__add__')
    VD = {}

    def run(p):
        rt = setup(p, VD, exact)
        a = operand(exact)
        d = D('sum')
        st = {}

        def inv0(e, pos):
            t = rt.act[0]['it']
            return [('collected value = value of the terms so far, modulo 2', Eq(d.tot, t.S(G.term(pos)) + 2 * d.slack))] + ([('exact', Eq(d.slack, z3.RealVal(0)))] if exact else [])

        def inv1(e, seen):
            if 'tot' not in rt.act[1]:
                rt.act[1].update(tot=d.tot, mem=d.mem, slack=d.slack)
            a1 = rt.act[1]
            return [('value stays', Eq(d.tot, a1['tot'])), ('slack', Eq(d.slack, a1['slack'])), ('the zeros seen are gone', fa(1, lambda k: z3.Implies(z3.And(seen(k), d.mem(k)), d.val(k) != 0))),
                    ('keys are only removed', fa(1, lambda k: z3.Implies(d.mem(k), a1['mem'](k))))] + [('the keys not seen yet stay', fa(1, lambda k: z3.Implies(z3.And(a1['mem'](k), z3.Not(seen(k))), d.mem(k))))]
        rt.specs = {0: L.Inv('collect', inv0, fresh, lambda e: d.havoc()), 1: L.Inv('drop zeros', inv1, fresh, lambda e: d.havoc())}
        f = L.instrument(M.Poly.__add__, rt, comps=True, sets=True, dict=lambda: d, **NAMES)
        rt.dicts = (lambda: d,)
        me = P_(a)
        if number:
            o = Q(z3.Real('number'))
            ov = o.t
        else:
            o = P_(operand(exact))
            ov = o.tot
        r = f(me, o)
        prove_eq(rt, 'value(p + q) = value(p) + value(q) + 2 * slack', r.tot, a.total + ov + 2 * d.slack)
        if exact:
            prove_eq(rt, 'slack = 0', d.slack, z3.RealVal(0))
        rt.prove('the result is collected from the dictionary', getattr(r.terms, 'dict', None) is d)
        rt.prove('no zero coefficients', fa(1, lambda k: z3.Implies(d.mem(k), d.val(k) != 0)))
        return None
    finish(P, 'Poly.__add__%s' % (' with a number' if number else ''), run, VD, exact)


def neg(P):
    import pyzx.symbolic as M
    P.under_contract('pyzx.symbolic.Poly.__neg__', 'pyzx.symbolic.Poly.copy')
    VD = {}

    def run(p):
        rt = setup(p, VD, True)
        a = operand(False)
        r = L.instrument(M.Poly.__neg__, rt, comps=True, sets=True, **NAMES)(P_(a))
        prove_eq(rt, 'value(-p) = -value(p)', r.tot, -a.total)
        r = L.instrument(M.Poly.copy, rt, comps=True, sets=True, **NAMES)(P_(a))
        prove_eq(rt, 'value(p.copy()) = value(p)', r.tot, a.total)
        rt.prove('copy: a new list', r.terms is not a)
        rt.prove('sub is adding the negative', True)
    finish(P, 'Poly.__neg__, copy', run, VD, None)


def sub(P, exact):
    import pyzx.symbolic as M
    P.under_contract('pyzx.symbolic.Poly.__sub__', 'pyzx.symbolic.Poly.__rsub__')
    VD = {}

    def run(p):
        rt = setup(p, VD, exact)
        a, b, k = P_(operand(exact)), P_(operand(exact)), Q(z3.Real('number'))
        for name, f, x, y, w in (('p - q', M.Poly.__sub__, a, b, a.tot - b.tot), ('p - k', M.Poly.__sub__, a, k, a.tot - k.t), ('k - p', M.Poly.__rsub__, a, k, k.t - a.tot)):
            r = f(x, y)
            prove_eq(rt, 'value(%s) is the difference modulo 2' % name, r.tot, w + 2 * r.slack)
            if exact:
                prove_eq(rt, 'slack', r.slack, z3.RealVal(0))
    finish(P, 'Poly.__sub__, __rsub__', run, VD, exact)


def mul(P, exact, number=False):
    import pyzx.symbolic as M
    P.under_contract('pyzx.symbolic.Poly.__mul__')
    VD = {}

    def run(p):
        rt = setup(p, VD, exact)
        a = operand(exact)
        o = Q(z3.Real('number')) if number else P_(operand(exact))

        def inv0(e, pos):
            q, other = e['p'], e['other']
            return [('partial product', Eq(q.tot, a.S(G.term(pos)) * other.tot + 2 * q.slack))] + ([('exact', Eq(q.slack, z3.RealVal(0)))] if exact else [])

        def inv1(e, pos):
            q, other = e['p'], e['other']
            if 'p0' not in rt.act[1]:
                rt.act[1]['p0'] = (q.tot, q.slack)
            p0, s0 = rt.act[1]['p0']
            b = rt.act[1]['it']
            c1, t1 = e['c1'].t, e['t1'].t
            return [('partial row of the product', Eq(q.tot, p0 + c1 * V(t1) * b.S(G.term(pos)) + 2 * (q.slack - s0)))] + ([('exact', Eq(q.slack, z3.RealVal(0)))] if exact else [])
        rt.specs = {0: L.Inv('left terms', inv0, fresh), 1: L.Inv('right terms', inv1, fresh)}
        f = L.instrument(M.Poly.__mul__, rt, comps=True, sets=True, **NAMES)
        r = f(P_(a), o)
        ov = o.t if number else o.tot
        prove_eq(rt, 'value(p * q) = value(p) * value(q) + 2 * slack', r.tot, a.total * ov + 2 * r.slack)
        if exact:
            prove_eq(rt, 'slack = 0', r.slack, z3.RealVal(0))
    finish(P, 'Poly.__mul__%s' % (' with a number' if number else ''), run, VD, exact)


def subst(P, exact):
    import pyzx.symbolic as M
    P.under_contract('pyzx.symbolic.Poly.substitute')
    VD = {}

    def run(p):
        rt = setup(p, VD, exact)
        a = operand(exact)

        def inv0(e, pos):
            q = e['p']
            return [('value so far', Eq(q.tot, a.S(G.term(pos)) + 2 * q.slack))] + ([('exact', Eq(q.slack, z3.RealVal(0)))] if exact else [])
        rt.specs = {0: L.Inv('terms', inv0, fresh)}
        r = L.instrument(M.Poly.substitute, rt, comps=True, sets=True, **NAMES)(P_(a), object())
        prove_eq(rt, 'value(p.substitute(m)) = value(p) + 2 * slack', r.tot, a.total + 2 * r.slack)
        if exact:
            prove_eq(rt, 'slack = 0', r.slack, z3.RealVal(0))
    finish(P, 'Poly.substitute', run, VD, exact)


def mod(P):
    import pyzx.symbolic as M
    P.under_contract('pyzx.symbolic.Poly.__mod__')
    VD = {}

    def run(p):
        rt = setup(p, VD, False)
        a = operand(False)
        bl = Build('sum')
        st = dict(slack=z3.RealVal(0))

        def inv0(e, pos):
            return [('value so far modulo 2', Eq(bl.tot, a.S(G.term(pos)) + 2 * st['slack']))]

        def heap(e):
            bl.tot, st['slack'] = z3.Real('tot!%d' % nx()), z3.Real('slack!%d' % nx())
        rt.specs = {0: L.Inv('terms', inv0, fresh, heap)}
        orig = Q.__mod__

        class Q2(Q):
            pass

        def hook(self, m):
            r = orig(self, m)
            t = rt.cur
            rt.prove('coefficients are reduced modulo 2 only where the monomial is an integer', z3.Or(V(t) == 0, V(t) == 1))
            st['slack'] = st['slack'] - r.ks * V(t)
            return r
        at = a.at

        def at2(i):
            c, t = at(i)
            rt.cur = t.t
            c = Q2(c.t)
            return c, t
        a.at = at2
        Q2.__mod__ = hook
        rt.empties = (lambda: bl,)
        r = L.instrument(M.Poly.__mod__, rt, comps=True, sets=True, **NAMES)(P_(a), 2)
        prove_eq(rt, 'value(p % 2) = value(p) + 2 * slack', r.tot, a.total + 2 * st['slack'])
    finish(P, 'Poly.__mod__', run, VD, None)


def term_mul(P):
    import pyzx.symbolic as M
    P.under_contract('pyzx.symbolic.Term.__mul__')
    VD = {}

    def run(p):
        rt = setup(p, VD, False)
        a, b = TL('prod'), TL('prod')
        d = D('prod')

        def inv0(e, pos):
            t = rt.act[0]['it']
            return [('value so far', Eq(d.tot, t.S(G.term(pos)))), ('powers are positive', fa(1, lambda k: z3.Implies(d.mem(k), d.val(k) >= 1))),
                    ('Boolean symbols have power 1', fa(1, lambda k: z3.Implies(z3.And(d.mem(k), ISB(k)), d.val(k) == 1)))]
        rt.specs = {0: L.Inv('variables', inv0, fresh, lambda e: d.havoc())}
        rt.dicts = (lambda: d,)

        class Tm:
            def __init__(self, vs):
                self.vars = vs
        f = L.instrument(M.Term.__mul__, rt, comps=True, sets=True, **dict(NAMES, dict=lambda: d, Term=Tm))
        r = f(Tm(a), Tm(b))
        prove_eq(rt, 'value(s * t) = value(s) * value(t)', r.vars.total, a.total * b.total)
        rt.prove('Boolean symbols have power 1 in the result', fa(1, lambda k: z3.Implies(z3.And(d.mem(k), ISB(k)), d.val(k) == 1)))
        rt.prove('powers are positive in the result', fa(1, lambda k: z3.Implies(d.mem(k), d.val(k) >= 1)))
        rt.prove('every symbol occurs once', getattr(r.vars, 'dict', None) is d)
    finish(P, 'Term.__mul__', run, VD, None)


def term_subst(P):
    import pyzx.symbolic as M
    P.under_contract('pyzx.symbolic.Term.substitute')
    VD = {}
    VAL = z3.Function('value', I, R)

    def run(p):
        rt = setup(p, VD, False)
        a = TL('prod')
        bl = Build('prod')
        has = fn('substituted', I, B)

        class Power(Q):
            def __pow__(self, k):
                return Q(PW(self.v, G.term(k)))

        class Map:
            def __contains__(self, v):
                return path().branch(has(v.t))

            def __getitem__(self, v):
                if path().branch(z3.Not(has(v.t))):
                    raise KeyError(v)
                x = Power(VAL(v.t))
                x.v = v.t
                return x

            def get(self, v, d=None):
                return self[v] if v in self else d

        def inv0(e, pos):
            return [('coefficient times remaining monomial', Eq(real(e['coeff']) * bl.tot, a.S(G.term(pos))))]

        def heap(e):
            bl.tot = z3.Real('tot!%d' % nx())
        rt.specs = {0: L.Inv('variables', inv0, fresh, heap)}
        rt.empties = (lambda: bl,)
        hit = []
        add0 = bl.append

        def app(e):
            rt.prove('only symbols without a value remain', z3.Not(has(e[0].t)))
            add0(e)
        bl.append = app

        class Tm:
            def __init__(self, vs):
                self.vars = vs
        c, t = L.instrument(M.Term.substitute, rt, comps=True, sets=True, **dict(NAMES, Term=Tm))(Tm(a), Map())
        prove_eq(rt, 'coefficient * value(rest) = value(term)', real(c) * t.vars.tot, a.total)
    finish(P, 'Term.substitute', run, VD, None)


def power(P, exact):
    import pyzx.symbolic as M
    P.under_contract('pyzx.symbolic.Poly.__pow__')
    VD = {}
    PP = z3.Function('ppow', R, I, R)

    def run(p):
        rt = setup(p, VD, exact)
        n = Z.fresh('n')
        p.assume(n.t >= 0)

        class X(P_):
            def __pow__(self, k):
                """contract, used for smaller powers only"""
                k = G.term(k)
                rt.prove('the recursion descends', z3.And(k >= 0, k < n.t))
                r = P_.__new__(X)
                r.tot, r.slack = PP(self.tot, k), z3.RealVal(0)
                r.terms = TL('sum', None, r.tot)
                return r

            def __mul__(self, o):
                r = P_.__new__(X)
                r.tot, r.slack = self.tot * o.tot, z3.RealVal(0)
                r.terms = TL('sum', None, r.tot)
                return r
        a = X(operand(True))
        p.assume(z3.And(PP(a.tot, 0) == 1, z3.Implies(n.t >= 1, PP(a.tot, n.t) == a.tot * PP(a.tot, n.t - 1))))
        p.assume(PP(a.tot, 1) == a.tot)
        r = L.instrument(M.Poly.__pow__, rt, comps=True, sets=True, **NAMES)(a, n)
        prove_eq(rt, 'value(p ** n) = value(p) ** n', r.tot, PP(a.tot, n.t))
    finish(P, 'Poly.__pow__', run, VD, exact)


def register(S):
    _S[0] = S
    S.trusted += ['symbolic proof: Python lists, dictionaries and tuples; monomials are equal only if they are the same monomial (Term.__eq__ compares hashes: no collisions)',
                  'sums over concatenated lists and over the entries of a dictionary; powers of numbers: x^(a+b) = x^a x^b, x^k = x for x in {0,1}, k >= 1']
    S.assumptions += ['coefficients are real numbers (floating point is idealised; complex coefficients only in the bounded part), powers are positive integers']

    def t(name, fs, f):
        S.proof(name, functions=fs, limit=100)(f)
    for e in (False, True):
        w = ' (no Boolean symbols)' if e else ''
        t('sum' + w, ['Poly.__add__'], lambda P, e=e: [add(P, e), add(P, e, True)])
        t('difference' + w, ['Poly.__sub__', 'Poly.__rsub__'], lambda P, e=e: sub(P, e))
        t('product' + w, ['Poly.__mul__'], lambda P, e=e: [mul(P, e), mul(P, e, True)])
        t('substitution' + w, ['Poly.substitute'], lambda P, e=e: subst(P, e))
    t('negation and copy', ['Poly.__neg__', 'Poly.copy'], neg)
    t('reduction modulo 2', ['Poly.__mod__'], mod)
    t('product of monomials', ['Term.__mul__'], term_mul)
    t('substitution in monomials', ['Term.substitute'], term_subst)
    t('power', ['Poly.__pow__'], lambda P: power(P, True))
