"""C13, deductive part: every method of the real Scalar class on an arbitrary record.

The record is sqrt2^n e^{i pi phase} prod(1+e^{i pi p}) f with n an arbitrary integer, phase a real symbol, an arbitrary list of nodes
(an opaque prefix whose product is a formal unknown) and f a formal unknown; all these enter multiplicatively, so an identity in the
formal unknowns holds for every value."""
from fractions import Fraction
from pyvc import exact as X, mods
from pyvc.core import path, Unsupported


class Off:
    """an arbitrary integer plus a constant"""
    def __init__(self, base, c=0):
        self.base, self.c = tuple(sorted(base)), c

    def __add__(self, o):
        if isinstance(o, Off):
            return Off(self.base + o.base, self.c + o.c)
        if isinstance(o, int):
            return Off(self.base, self.c + o)
        raise Unsupported('power + %r' % (o,))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            return self + -o
        raise Unsupported('power - %r' % (o,))

    def __eq__(self, o):
        if isinstance(o, Off):
            return (self.base, self.c) == (o.base, o.c)
        raise Unsupported('test on the power')
    __hash__ = None

    def amp(self):
        r = X.sqrt2pow(self.c)
        for b in self.base:
            r = r * X.e(X.phase_sym('w_' + b))
        return r

    def __repr__(self):
        return '+'.join(self.base) + '%+d' % self.c


class Rest:
    """the nodes already in the list: product rho (formal), or its conjugate"""
    def __init__(self, name, conj=False):
        self.name, self.conj = name, conj

    def __neg__(self):
        return Rest(self.name, not self.conj)

    def amp(self):
        return X.e(X.phase_sym('rho_%s%s' % (self.name, '_c' if self.conj else '')))

    def __eq__(self, o):
        return isinstance(o, Rest) and (self.name, self.conj) == (o.name, o.conj)
    __hash__ = None

    def __repr__(self):
        return '<nodes %s%s>' % (self.name, '*' if self.conj else '')


class FF(X.Amp):
    """an arbitrary complex number: comparisons with constants fork, f == 0 makes it zero"""
    __slots__ = ('name', 'known')

    @staticmethod
    def mk(name):
        f = FF(X.e(X.phase_sym('f_' + name)).d)
        f.name = name
        return f

    def __eq__(self, o):
        if isinstance(o, X.Amp):
            return self is o
        m = path().memo
        k = ('ff', self.name, complex(o))
        if k not in m:
            m[k] = not any(kk[0] == 'ff' and kk[1] == self.name and v for kk, v in m.items() if isinstance(kk, tuple) and len(kk) == 3) and path().choose(2) == 1
        return m[k]

    def __ne__(self, o): return not self == o
    def __hash__(self): return id(self)
    def __bool__(self): return self != 0

    def val(self):
        for kk, v in path().memo.items():
            if isinstance(kk, tuple) and len(kk) == 3 and kk[0] == 'ff' and kk[1] == self.name and v:
                return X.Amp.exact(kk[2])
        return X.Amp(self.d)

    def conjugate(self):
        return FF.mk(self.name + '_c')


class Pi:
    def __mul__(self, p): return Angle(p)
    __rmul__ = __mul__


class Angle:
    def __init__(self, p): self.p = p
    def __mul__(self, o):
        if o == 1j:
            return IAngle(self.p)
        raise Unsupported('angle')
    __rmul__ = __mul__


class IAngle(Angle): pass


class PI_I:
    def __mul__(self, p): return IAngle(p)


class JPi(Pi):
    def __rmul__(self, o):
        if o == 1j:
            return PI_I()
        return Angle(o)


class Root2:
    def __pow__(self, n):
        return n.amp() if isinstance(n, Off) else X.sqrt2pow(n)


class Math:
    pi = JPi()

    @staticmethod
    def cos(a): return (X.e(a.p) + X.e(-a.p)) * Fraction(1, 2)

    @staticmethod
    def sqrt(n):
        if n == 2:
            return Root2()
        raise Unsupported('sqrt')


class CMath:
    @staticmethod
    def exp(a):
        if isinstance(a, IAngle):
            return NodeExp(a.p) if isinstance(a.p, Rest) else X.e(a.p)
        raise Unsupported('exp')


class NodeExp:
    """e^{i pi p} of the opaque nodes: only 1 + it (their product) has a meaning"""
    def __init__(self, r): self.r = r

    def __radd__(self, o):
        if o == 1:
            return self.r.amp()
        raise Unsupported('opaque node')
    __add__ = __radd__


def any_phase(p, name):
    """every real phase: j/4 + 2k, or a real that is not a multiple of 1/4, plus 2k"""
    k2 = X.mk((Fraction(0), ((X.sym('k_' + name, integer=True), Fraction(2)),)))
    j = p.memo['j_' + name] = p.choose(9)
    if j < 8:
        return Fraction(j, 4) + k2
    a = X.phase_sym(name)
    form = X.SymPhase.of(a)
    p.memo.setdefault('mods', {})[(form, Fraction(2))] = form   # a stands for the representative in [0, 2)
    p.memo[('nonquarter', name)] = True
    for n in (1, 2, 4):
        p.memo[('dn', form, n)] = False
    return a + k2


def two_phases(p):
    """every pair of reals: multiples of 1/4 or not, and when both are not, opposite modulo 2 or not"""
    a, b = any_phase(p, 'a'), any_phase(p, 'b')
    if p.memo['j_a'] == 8 == p.memo['j_b']:
        A, B = X.SymPhase.of(X.phase_sym('a')), X.SymPhase.of(X.phase_sym('b'))
        mods_ = p.memo['mods']
        two = Fraction(2)
        if p.choose(2):  # b = 2 - a for the representatives
            p.subst['b'] = B2 = X.lf_add((two, ()), A, -1)
            mods_[(X.lf_scale(A, -1), two)] = B2
            mods_[(B2, two)] = B2
            for n in (1, 2, 4):
                p.memo[('dn', B2, n)] = False
        else:
            S = X.lf_add(A, B)
            k = X.mk((Fraction(0), ((X.sym('k_ab', integer=True), Fraction(2)),)))
            form = X.SymPhase.of(X.mk(S) - k)
            mods_[(S, two)] = form
            p.memo[('ne', form)] = True
    return a, b


def module(**kw):
    X.install()
    return mods.clone('pyzx.graph.scalar', math=Math, cmath=CMath, **kw)


def state(mod, name, zero):
    s = mod.Scalar()
    s.power2 = Off((name,))
    s.phase = X.phase_sym('t_' + name)
    s.phasenodes = [Rest(name)] if path().choose(2) == 0 else []     # any number of nodes, also none
    s.floatfactor = FF.mk(name)
    s.is_zero = zero
    return s


def fval(f):
    return f.val() if isinstance(f, FF) else X.Amp.of(f)


def den(s):
    """the number a record denotes"""
    if s.is_zero:
        return X.ZERO
    v = X.e(s.phase) * (s.power2.amp() if isinstance(s.power2, Off) else X.sqrt2pow(s.power2)) * fval(s.floatfactor)
    for p in s.phasenodes:
        v = v * (p.amp() if isinstance(p, Rest) else X.ONE + X.e(p))
    return v


def same(a, b):
    return (a - b).subst(path().subst).is_zero()


FIELDS = ('power2', 'phase', 'phasenodes', 'floatfactor', 'is_unknown', 'is_zero')


def snap(s):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in s.__dict__.items()}


def unchanged(s, b):
    return set(s.__dict__) == set(b) and all((s.__dict__[k] is b[k]) or (isinstance(b[k], list) and len(b[k]) == len(s.__dict__[k]) and all(x is y for x, y in zip(b[k], s.__dict__[k]))) for k in b)


def method(P, name):
    mod = module()

    def run(p):
        zero = p.choose(2) == 1
        s = state(mod, 's', zero)
        unknown = p.choose(2) == 1
        s.is_unknown = unknown
        D0 = X.ZERO if zero else den(s)
        a, b = two_phases(p) if name == 'add_spider_pair' else (X.phase_sym('a'), X.phase_sym('b'))
        fz = None   # when is the factor zero (decided after the call)
        extra = None
        if name == 'add_power':
            n = Off(('n',), 0)
            s.add_power(n)
            f, fz = n.amp(), lambda: False
        elif name == 'add_phase':
            s.add_phase(a)
            f, fz = X.e(a), lambda: False
        elif name == 'add_node':
            s.add_node(a)
            f, fz = X.ONE + X.e(a), lambda: a % 2 == 1
        elif name == 'add_float':
            ff = FF.mk('g')
            s.add_float(ff)
            fz = lambda: ff == 0
            f = None
        elif name == 'add_spider_pair':
            s.add_spider_pair(a, b)
            f = (X.ONE + X.e(a) + X.e(b) - X.e(a + b)) * X.ISQ2
            # the factor is zero iff the phases are 1/2 and 3/2 (|1+e^a| = |1-e^a| forces a = 1/2 or 3/2, then e^b is determined)
            fz = lambda: (p.memo['j_a'], p.memo['j_b']) in ((2, 6), (6, 2))
        elif name == 'mult_with_scalar':
            oz, ou = p.choose(2) == 1, p.choose(2) == 1
            o = state(mod, 'o', oz)
            o.is_unknown = ou
            ob = snap(o)
            f = X.ZERO if oz else den(o)
            s.mult_with_scalar(o)
            if not unchanged(o, ob):
                return 'the operand changed'
            if s.phasenodes is o.phasenodes:
                return 'node list shared with the operand'
            if bool(s.is_unknown) != (unknown or ou):
                return 'is_unknown'
            fz = lambda: oz
        isz = fz()
        if name == 'add_float':
            f = ff.val()
        if bool(s.is_zero) != (zero or isz):
            return 'is_zero is %s but the number is %szero' % (s.is_zero, '' if zero or isz else 'non')
        if name != 'mult_with_scalar' and bool(s.is_unknown) != unknown:
            return 'is_unknown changed'
        if not same(den(s), D0 * f):
            return 'number %r instead of %r' % (den(s), D0 * f)
        if set(s.__dict__) != set(FIELDS):
            return 'record fields'
        return None
    paths = P.explore(run)
    bad = [r for _, r in paths if r]
    P.record('Scalar.%s: multiplies an arbitrary scalar by its factor; zero exactly when the number is (%d paths)' % (name, len(paths)), not bad, 'normal form of exponential sums', detail=str(bad[:2]), replay=lambda: concrete(name))


def views(P):
    mod = module()

    def run(p):
        s = state(mod, 's', p.choose(2) == 1)
        s.is_unknown = p.choose(2) == 1
        k = p.choose(5)
        b = snap(s)
        t = (s.copy, s.conjugate, lambda: s.copy(conjugate=True), lambda: s.copy(conjugate=False), s.to_number)[k]()
        if not unchanged(s, b):
            return 'the scalar changed'
        if k == 4:
            return None if same(X.Amp.exact(t), den(s)) else 'to_number'
        if t is s or t.phasenodes is s.phasenodes or set(t.__dict__) != set(FIELDS):
            return 'shared state'
        if bool(t.is_zero) != bool(s.is_zero) or bool(t.is_unknown) != bool(s.is_unknown):
            return 'flags'
        if k in (0, 3):
            return None if t.power2 == s.power2 and t.phase == s.phase and t.phasenodes == s.phasenodes and t.floatfactor == s.floatfactor else 'copy not equal'
        want = X.ZERO if s.is_zero else X.e(-s.phase) * s.power2.amp() * (Rest('s', True).amp() if s.phasenodes else X.ONE) * X.e(X.phase_sym('f_s_c'))
        return None if same(den(t), want) else 'conjugate: %r' % den(t)
    paths = P.explore(run)
    bad = [r for _, r in paths if r]
    P.record('copy, conjugate and to_number of an arbitrary scalar (%d paths)' % len(paths), not bad, 'normal form of exponential sums', detail=str(bad[:2]), replay=lambda: concrete('views'))

    def run2(p):
        """conjugating explicit nodes of any phase"""
        s = mod.Scalar()
        s.phase, s.phasenodes = X.phase_sym('t'), [X.phase_sym('a'), X.phase_sym('b')]
        t = s.conjugate()
        return None if same(den(t), den(s).conj()) else 'conjugate of nodes'
    bad = [r for _, r in P.explore(run2) if r]
    P.record('conjugate negates the phase of every node', not bad, 'normal form of exponential sums', detail=str(bad[:1]), replay=lambda: concrete('views'))


class Txt:
    """the text of a phase (contract of str and Fraction/parse: reading the text of a number gives the number)"""
    def __init__(self, x): self.x = x
    def __repr__(self): return 'Txt(%r)' % (self.x,)


class Real(float):
    pass


class Cplx(complex):
    @property
    def real(self): return Part(self, 're')
    @property
    def imag(self): return Part(self, 'im')


class Part(float):
    def __new__(cls, of, which):
        s = float.__new__(cls, 0.25)
        s.of, s.which = of, which
        return s


def frac_reader(tok, *a):
    if isinstance(tok, Txt):
        return tok.x
    return Fraction(tok, *a)


class Json:
    @staticmethod
    def _cp(d):
        if isinstance(d, dict):
            if not all(type(k) is str for k in d):
                raise Unsupported('json key')
            return {k: Json._cp(v) for k, v in d.items()}
        if isinstance(d, (list, tuple)):
            return [Json._cp(v) for v in d]
        if isinstance(d, (Txt, Off, Rest, str, bool, int, float)) or d is None:
            return d
        raise TypeError('not JSON serialisable: %r' % (d,))

    @staticmethod
    def dumps(d): return ('json', Json._cp(d))

    @staticmethod
    def loads(s): return Json._cp(s[1])


def roundtrip(P):
    def cplx(*a):
        if len(a) == 2 and all(isinstance(x, Part) for x in a) and a[0].of is a[1].of and (a[0].which, a[1].which) == ('re', 'im'):
            return a[0].of
        raise Unsupported('complex number from other parts')
    X.install()
    # complex stays the type for isinstance; only the call is contracted

    class Meta(type):
        def __instancecheck__(cls, o): return isinstance(o, complex)
        def __call__(cls, *a): return cplx(*a)
    Cx = Meta('complex', (), {})
    mod = module(json=Json, str=Txt, complex=Cx)
    mod.Fraction = frac_reader

    def run(p):
        s = mod.Scalar()
        s.power2 = Off(('n',))
        s.phase = X.phase_sym('t')
        s.phasenodes = [[], [X.phase_sym('a')], [X.phase_sym('a'), X.phase_sym('b')]][p.choose(3)]
        s.floatfactor = [1.0, Real(0.7), Cplx(0.3, 0.4), 0.0][p.choose(4)]
        s.is_zero, s.is_unknown = p.choose(2) == 1, p.choose(2) == 1
        b = snap(s)
        try:
            t = mod.Scalar.from_json(s.to_json())
        except TypeError as ex:
            return str(ex)
        if not unchanged(s, b):
            return 'the scalar changed'
        if set(t.__dict__) != set(FIELDS):
            return 'fields'
        if not (t.power2 == s.power2 and t.phase is s.phase and len(t.phasenodes) == len(s.phasenodes) and all(x is y for x, y in zip(t.phasenodes, s.phasenodes))):
            return 'phase or nodes differ'
        if not (t.floatfactor is s.floatfactor or (t.floatfactor == s.floatfactor and s.floatfactor in (0.0, 1.0))):
            return 'floatfactor differs'
        if t.is_zero != s.is_zero or t.is_unknown != s.is_unknown:
            return 'flags differ'
        return None
    paths = P.explore(run)
    bad = [r for _, r in paths if r]
    P.record('from_json(to_json(s)) restores every field (%d paths)' % len(paths), not bad, 'symbolic execution', detail=str(bad[:2]), replay=lambda: concrete('json'))


def concrete(name):
    import random
    from props import c13
    from pyzx.graph.scalar import Scalar
    rng = random.Random(5)

    class C:
        pass
    for i in range(3000):
        c = C()
        c.rng = rng
        bad = []
        c.check = lambda ok, what, **k: ok or bad.append(what)
        s = c13.mkscalar(rng)
        st = repr(s.__dict__)
        d0 = c13.den(s)
        try:
            if name in c13.OPS:
                arg, f = c13.OPS[name](c, s)
                if not c13.near(c13.den(s), d0 * f) or s.is_zero != (abs(d0 * f) < 1e-12) or bad:
                    return dict(what='Scalar.%s(%r) on %s' % (name, arg, st), data=dict(state=st, op=name, arg=repr(arg)))
            else:
                for n, t, d in (('copy', s.copy(), d0), ('conjugate', s.conjugate(), d0.conjugate()), ('json', Scalar.from_json(s.to_json()), d0)):
                    fl = (t.is_zero, t.is_unknown) == (s.is_zero, s.is_unknown)
                    t.add_node(Fraction(1, 5))
                    alias = repr(s.__dict__) != st
                    t.phasenodes.pop()
                    if not c13.near(c13.den(t), d) or not c13.near(s.to_number(), d0) or alias or not fl:
                        return dict(what='Scalar.%s on %s' % (n, st), data=dict(state=st, op=n))
        except Exception as ex:
            return dict(what='Scalar.%s on %s raises %s' % (name, st, type(ex).__name__), data=dict(state=st, op=name))
    return None


METHODS = ('add_power', 'add_phase', 'add_node', 'add_float', 'add_spider_pair', 'mult_with_scalar')


def register(S):
    for m in METHODS:
        S.proof(m, functions=['pyzx.graph.scalar.Scalar.' + m], limit=60)(lambda P, m=m: method(P, m))
    S.proof('copy, conjugate, to_number', functions=['pyzx.graph.scalar.Scalar.' + m for m in ('copy', 'conjugate', 'to_number')], limit=60)(views)
    S.proof('save and load', functions=['pyzx.graph.scalar.Scalar.to_json', 'pyzx.graph.scalar.Scalar.from_json'], limit=60)(roundtrip)
