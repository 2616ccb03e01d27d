"""C13: global scalar arithmetic is exact."""
import cmath, json, math
from fractions import Fraction
from lib.harness import Suite, Skip
from lib import gens

S = Suite('C13', 'proof',
          note='Contract: a view D(s) of the Scalar record; every mutator multiplies D by the documented factor, copy/conjugate/json map D as documented, '
               'and is_zero holds exactly when D is zero.',
          rule='bounded part: a random scalar and a random operation with random operands; non-trivial = distinct (state, operation, operands)')


def E(x):
    return cmath.exp(1j * math.pi * float(x))


def den(s):
    """the number a Scalar record denotes"""
    if s.is_zero:
        return 0j
    v = E(s.phase) * math.sqrt(2) ** s.power2 * s.floatfactor
    for p in s.phasenodes:
        v *= 1 + E(p)
    return complex(v)


def near(a, b):
    return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))


def ph(rng):
    r = rng.random()
    if r < 0.6:
        return Fraction(rng.randrange(0, 8), 4)
    if r < 0.7:
        return rng.randrange(-3, 4)
    if r < 0.85:
        return Fraction(rng.randrange(-12, 13), rng.choice([1, 2, 3, 4]))
    return Fraction(rng.randrange(0, 40), rng.randrange(1, 21))


def flt(rng):
    r = rng.random()
    if r < 0.15:
        return 0.0
    if r < 0.4:
        return rng.choice([1.0, -1.0, 2, 0.5, 1 + 1e-7, 1.000004])
    return complex(rng.uniform(-2, 2), rng.uniform(-2, 2))


def mkscalar(rng, zero_ok=True):
    from pyzx.graph.scalar import Scalar
    s = Scalar()
    s.add_power(rng.randrange(-6, 7))
    s.add_phase(ph(rng))
    for _ in range(rng.randrange(0, 3)):
        p = ph(rng)
        if p % 2 == 1 and rng.random() < 0.8:
            continue
        s.add_node(p)
    if rng.random() < 0.5:
        f = flt(rng)
        if f != 0 or (zero_ok and rng.random() < 0.3):
            s.add_float(f)
    return s


def op_power(c, s):
    n = c.rng.randrange(-5, 6)
    s.add_power(n)
    return n, math.sqrt(2) ** n


def op_phase(c, s):
    p = ph(c.rng)
    s.add_phase(p)
    return p, E(p)


def op_node(c, s):
    p = ph(c.rng)
    s.add_node(p)
    return p, 0 if p % 2 == 1 else 1 + E(p)


def op_float(c, s):
    f = flt(c.rng)
    s.add_float(f)
    return f, f


def op_pair(c, s):
    p, q = ph(c.rng), ph(c.rng)
    r = c.rng.random()
    if r < 0.3:
        q = -p + 2 * c.rng.randrange(-1, 3)
    elif r < 0.5:
        p = Fraction(c.rng.randrange(0, 8), 4)
        q = (-p) % 2
    elif r < 0.6:
        q = c.rng.choice([Fraction(1, 2), Fraction(3, 2)]) + c.rng.choice([0, 1])
    s.add_spider_pair(p, q)
    z = (p % 2 == Fraction(1, 2) and q % 2 == Fraction(3, 2)) or (p % 2 == Fraction(3, 2) and q % 2 == Fraction(1, 2))
    return (p, q), (1 + E(p) + E(q) - E(p + q)) / math.sqrt(2)


def op_mult(c, s):
    o = mkscalar(c.rng)
    d = den(o)
    before = repr(o.__dict__)
    s.mult_with_scalar(o)
    c.check(repr(o.__dict__) == before, 'mult_with_scalar changed its operand')
    s2 = s.copy()
    o.add_node(Fraction(1, 3))
    c.check(near(den(s2), den(s)) and s.__dict__ == s2.__dict__, 'mult_with_scalar aliases its operand')
    return 'scalar', d


OPS = dict(add_power=op_power, add_phase=op_phase, add_node=op_node, add_float=op_float, add_spider_pair=op_pair, mult_with_scalar=op_mult)


@S.bounded('mutators multiply the denoted number', quick=3000, thorough=60000, bound='random scalars and operands', split=4,
           functions=['Scalar.' + o for o in OPS])
def _(c):
    s = mkscalar(c.rng)
    d0, st = den(s), repr(s.__dict__)
    op = c.rng.choice(sorted(OPS))
    c.note(state=st, op=op)
    arg, f = OPS[op](c, s)
    c.note(arg=repr(arg))
    c.sig((st, op, repr(arg)))
    c.check(near(den(s), d0 * f), '%s multiplied by %s instead of %s' % (op, den(s) / d0 if d0 else den(s), f), key=op)
    c.check(near(s.to_number(), den(s)) and near(complex(s), den(s)), 'to_number is not the denoted number', key='to_number')
    c.check(s.is_zero == (abs(d0 * f) < 1e-12), 'is_zero=%s but the number is %s after %s' % (s.is_zero, d0 * f, op), key='is_zero ' + op)
    c.check(not s.is_unknown, 'became unknown', key='unknown')


@S.bounded('copy, conjugate, save and load', quick=1500, thorough=20000, bound='random scalars', split=4,
           functions=['Scalar.copy', 'Scalar.conjugate', 'Scalar.to_json', 'Scalar.from_json'])
def _(c):
    from pyzx.graph.scalar import Scalar
    s = mkscalar(c.rng)
    if c.rng.random() < 0.1:
        s.is_unknown = True
    st = repr(s.__dict__)
    c.note(state=st)
    c.sig(st)
    for name, t, d in (('copy', s.copy(), den(s)), ('conjugate', s.conjugate(), den(s).conjugate()), ('copy(conjugate=True)', s.copy(conjugate=True), den(s).conjugate()),
                       ('from_json(to_json)', Scalar.from_json(s.to_json()), den(s))):
        c.check(near(den(t), d), '%s denotes %s instead of %s' % (name, den(t), d), key=name)
        c.check(t.is_unknown == s.is_unknown and t.is_zero == s.is_zero, '%s changes the flags' % name, key=name + ' flags')
        c.check(repr(s.__dict__) == st, '%s changed the scalar' % name, key=name + ' frame')
        if 'conj' not in name:
            c.check(t.power2 == s.power2 and t.phase == s.phase and t.phasenodes == s.phasenodes and t.floatfactor == s.floatfactor, '%s is not equal field by field: %s' % (name, t.__dict__), key=name + ' exact')
        t.add_node(Fraction(1, 5))
        t.add_power(1)
        t.add_phase(Fraction(1, 7))
        t.add_float(2)
        c.check(repr(s.__dict__) == st, '%s shares state with the original' % name, key=name + ' alias')


@S.bounded('symbolic phases in scalars', quick=300, thorough=3000, bound='random polynomials in three variables',
           functions=['Scalar with Poly phases'])
def _(c):
    from pyzx.graph.scalar import Scalar
    from pyzx.symbolic import new_var
    rng = c.rng
    vs = [new_var(n, rng.random() < 0.5) for n in 'abx']

    def poly():
        p = ph(rng)
        for v in rng.sample(vs, rng.randint(1, 3)):
            p = p + v * Fraction(rng.randrange(1, 8), 4)
        return p
    s = mkscalar(rng, zero_ok=False)
    if s.is_zero:
        raise Skip()
    p, q = poly(), poly()
    env = {}
    for v in vs:
        (var,) = v.free_vars()
        env[var] = rng.choice([0, 1]) if var.is_bool else Fraction(rng.randrange(0, 24), 12)

    def val(x):
        if hasattr(x, 'terms'):
            r = x.substitute(env)
            return sum(co for co, t in r.terms)
        return x

    def d(t):
        v = E(val(t.phase)) * math.sqrt(2) ** t.power2 * t.floatfactor
        for n in t.phasenodes:
            v *= 1 + E(val(n))
        return 0 if t.is_zero else v
    d0 = d(s)
    op = rng.randrange(5)
    c.note(state=repr(s.__dict__), op=op, p=str(p), q=str(q))
    c.sig((repr(s.__dict__), op, str(p), str(q)))
    if op == 0:
        s.add_phase(p)
        f = E(val(p))
    elif op == 1:
        s.add_node(p)
        f = 1 + E(val(p))
    elif op == 2:
        s.add_spider_pair(p, q)
        if s.is_unknown:
            raise Skip()
        f = (1 + E(val(p)) + E(val(q)) - E(val(p) + val(q))) / math.sqrt(2)
    elif op == 3:
        k = rng.choice([0, 1])
        s.add_spider_pair(*rng.sample([k, p], 2))
        f = (1 + E(k) + E(val(p)) - E(val(p) + k)) / math.sqrt(2)
    else:
        s.add_phase(p)
        s.add_node(q)
        f = E(val(p)) * (1 + E(val(q)))
        t = s.copy(conjugate=True)
        c.check(near(d(t), complex(d(s)).conjugate()), 'conjugate of a symbolic scalar', key='sym conj')
        t = Scalar.from_json(s.to_json())
        c.check(t.phase == s.phase and t.phasenodes == s.phasenodes, 'symbolic scalar not restored from json', key='sym json')
    c.check(near(d(s), d0 * f), 'symbolic operation %d multiplies by the wrong factor' % op, key='sym op %d' % op)


from props import c13p  # noqa: E402
c13p.register(S)
