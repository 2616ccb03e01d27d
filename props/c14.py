"""C14: symbolic phases obey polynomial arithmetic."""
from fractions import Fraction
from lib.harness import Suite, Skip

S = Suite('C14', 'proof',
          note='Contract: val(p, env) of the term list; every operation commutes with val for every assignment (exactly for continuous symbols, modulo 2 where '
               'Boolean symbols or reduction are involved); == and hash are functions of the normal form; str/parse is a retraction.',
          rule='bounded part: random polynomials in up to five symbols, random assignments; non-trivial = distinct (operation, operands)')

NAMES = ['a', 'b', 'c', 'x', 'y1', 'theta', 'z_2']
BOOL = dict(a=True, b=True, c=True, x=False, y1=False, theta=False, z_2=False)


def mkpoly(rng, kinds=None, maxterms=4, coef='frac', deg=3):
    """a normal-form polynomial built from the public constructors; returns (poly, dict monomial->coef)"""
    from pyzx.symbolic import Poly, Term, Var
    kinds = kinds or NAMES
    d = {}
    for _ in range(rng.randint(0, maxterms)):
        m = {}
        for _ in range(rng.randint(0, deg)):
            n = rng.choice(kinds)
            m[n] = 1 if BOOL[n] else m.get(n, 0) + 1
        co = rng.randrange(-5, 8) if coef == 'int' else Fraction(rng.randrange(-9, 17), rng.choice([1, 1, 2, 4, 8, 3]))
        if m and all(BOOL[n] for n in m):
            co %= 2
        if co:
            d[tuple(sorted(m.items()))] = co
    items = list(d.items())
    rng.shuffle(items)
    terms = []
    for m, co in items:
        m = list(m)
        rng.shuffle(m)
        terms.append((co, Term([(Var(n, BOOL[n]), k) for n, k in m])))
    return Poly(terms), d


def env_for(rng):
    return {n: (rng.choice([0, 1]) if BOOL[n] else Fraction(rng.randrange(-12, 13), rng.randrange(1, 7))) for n in NAMES}


def val(p, env):
    if not hasattr(p, 'terms'):
        return p
    t = Fraction(0)
    for co, te in p.terms:
        x = Fraction(co)
        for v, k in te.vars:
            x *= Fraction(env[v.name]) ** k
        t += x
    return t


def canon(p):
    """independent normal form of a poly (Boolean squares collapsed, Boolean monomials mod 2)"""
    d = {}
    for co, te in p.terms:
        m = {}
        for v, k in te.vars:
            m[v.name] = 1 if BOOL[v.name] else m.get(v.name, 0) + k
        key = tuple(sorted((n, k) for n, k in m.items() if k))
        d[key] = d.get(key, 0) + co
        if key and all(BOOL[n] for n, _ in key):
            d[key] %= 2
    return {k: v for k, v in d.items() if v}


def same(p, q):
    return (p - q) % 2 == 0


OPS = ['add', 'sub', 'neg', 'mul', 'radd', 'rsub', 'rmul', 'pow', 'mod', 'copy', 'addnum', 'subnum', 'mulnum']


def describe(p):
    return [(str(c), [(v.name, k) for v, k in t.vars]) for c, t in p.terms]


@S.bounded('operations commute with evaluation', quick=4000, thorough=80000, bound='up to 4 terms of degree 3 in 7 symbols, random assignments', split=4,
           functions=['Poly.__add__', 'Poly.__sub__', 'Poly.__mul__', 'Poly.__pow__', 'Poly.__mod__', 'Poly.__neg__', 'Term.__mul__'])
def _(c):
    rng = c.rng
    kinds = rng.choice([None, ['x', 'y1', 'theta'], ['a', 'b', 'c'], ['a', 'x']])
    p, _ = mkpoly(rng, kinds)
    q, _ = mkpoly(rng, kinds)
    k = rng.choice([rng.randrange(-4, 5), Fraction(rng.randrange(-9, 9), rng.choice([1, 2, 4]))])
    op = rng.choice(OPS)
    n = rng.randrange(0, 4)
    if op == 'pow' and n > 2:  # modulo 2 a product is determined by its factors only for integer multiples
        if kinds is None or 'x' in kinds and 'a' in kinds:
            n = 2
        else:
            p, _ = mkpoly(rng, kinds, coef='int')
    bp, bq = describe(p), describe(q)
    c.note(op=op, p=bp, q=bq, k=str(k), n=n)
    c.sig((op, bp, bq, k, n))
    E_ = [env_for(rng) for _ in range(3)]
    V = lambda x: [val(x, e) for e in E_]
    a, b = V(p), V(q)
    if op == 'add':
        r, w = p + q, [x + y for x, y in zip(a, b)]
    elif op == 'sub':
        r, w = p - q, [x - y for x, y in zip(a, b)]
    elif op == 'neg':
        r, w = -p, [-x for x in a]
    elif op == 'mul':
        r, w = p * q, [x * y for x, y in zip(a, b)]
    elif op in ('radd', 'addnum'):
        r, w = (k + p if op == 'radd' else p + k), [k + x for x in a]
    elif op in ('rsub', 'subnum'):
        r, w = (k - p, [k - x for x in a]) if op == 'rsub' else (p - k, [x - k for x in a])
    elif op in ('rmul', 'mulnum'):
        r, w = (k * p if op == 'rmul' else p * k), [k * x for x in a]
    elif op == 'pow':
        r, w = p ** n, [x ** n for x in a]
    elif op == 'mod':
        r, w = p % 2, a
    else:
        r, w = p.copy(), a
        r.terms.append((1, p.terms[0][1] if p.terms else None))
        r = p.copy()
    exact = all(not BOOL[v.name] for x in (p, q) for _, t in x.terms for v, _ in t.vars) and op != 'mod'
    for x, y in zip(V(r), w):
        c.check((x - y) == 0 if exact else (x - y) % 2 == 0, '%s: value %s instead of %s%s' % (op, x, y, '' if exact else ' (mod 2)'), key=op)
    c.check(describe(p) == bp and describe(q) == bq, '%s changed an operand' % op, key=op + ' frame')
    c.check(len({t for _, t in r.terms}) == len(r.terms) or op == 'copy' or op in ('neg',), 'a monomial occurs twice in the result of %s' % op, key=op + ' collected')
    if op == 'mod':
        for co, t in r.terms:
            if t.vars and all(v.is_bool for v, _ in t.vars) or not t.vars:
                c.check(0 <= co < 2, 'coefficient %s not reduced' % co, key='mod reduced')


@S.bounded('equality and hash are those of the normal form', quick=3000, thorough=40000, bound='up to 4 terms', split=4,
           functions=['Poly.__eq__', 'Poly.__hash__', 'Term.__eq__', 'Term.__hash__', 'Var.__eq__'])
def _(c):
    rng = c.rng
    from pyzx.symbolic import Poly
    kinds = rng.choice([['a', 'b'], ['x', 'y1'], ['a', 'b', 'c']])  # Boolean and continuous symbols mixed: reduction modulo 2 of a factor is not compatible with a later product
    ps = [mkpoly(rng, kinds, maxterms=2, deg=2, coef='int')[0] for _ in range(3)]
    p, q, r = ps
    c.note(p=describe(p), q=describe(q), r=describe(r))
    c.sig([describe(x) for x in ps])
    ident = [('commutativity of +', p + q, q + p), ('associativity of +', (p + q) + r, p + (q + r)), ('commutativity of *', p * q, q * p),
             ('distributivity', p * (q + r), p * q + p * r), ('inverse', p - p, Poly([])), ('p-q', p - q, p + (-q)), ('power', p ** 2, p * p), ('zero is 0', (p - p), 0),
             ('associativity of *', (p * q) * r, p * (q * r)), ('mod is idempotent', (p % 2) % 2, p % 2), ('mod of 2p', (p * 2) % 2 if all(BOOL[v.name] for _, t in p.terms for v, _ in t.vars) else 0, 0)]
    for name, a, b in ident:
        ca = canon(a) if hasattr(a, 'terms') else ({(): a} if a else {})
        cb = canon(b) if hasattr(b, 'terms') else ({(): b} if b else {})
        c.check(ca == cb, '%s: different polynomials %s and %s' % (name, a, b), key='value ' + name)
        c.check(a == b, '%s: equal expressions %r and %r do not compare equal' % (name, a, b), key='eq ' + name)
        if hasattr(a, 'terms') and hasattr(b, 'terms'):
            c.check(hash(a) == hash(b), '%s: equal expressions have different hashes' % name, key='hash ' + name)
    s = list(p.terms)
    rng.shuffle(s)
    c.check(Poly(s) == p and hash(Poly(s)) == hash(p), 'order of terms matters', key='order')
    x = p + q
    c.check((x == p) == (canon(x) == canon(p)), '%s == %s is wrong' % (x, p), key='neq')
    c.check((p == q) == (canon(p) == canon(q)), '%s == %s is wrong' % (p, q), key='neq')


@S.bounded('printing and parsing', quick=2000, thorough=30000, bound='up to 4 terms', split=4, functions=['Poly.__str__', 'Term.__repr__', 'parse'])
def _(c):
    from pyzx.symbolic import parse, new_var
    rng = c.rng
    p, _ = mkpoly(rng, maxterms=4)
    s = str(p)
    c.note(p=describe(p), text=s)
    c.sig(s)
    q = parse(s, lambda n: new_var(n, BOOL[n]))
    c.check(q == p, 'parsing %r gives %r' % (s, str(q)), key='parse')
    c.check(hash(q) == hash(p), 'hash after parsing %r' % s, key='parse hash')
    for e in (env_for(rng), env_for(rng)):
        c.check((val(q, e) - val(p, e)) % 2 == 0, 'parsing %r gives another value' % s, key='parse value')


@S.bounded('substitution', quick=2000, thorough=30000, bound='up to 4 terms', split=4, functions=['Poly.substitute', 'Term.substitute', 'Poly.free_vars', 'Poly.degree', 'Poly.is_pauli', 'Poly.is_clifford'])
def _(c):
    from pyzx.symbolic import Var
    rng = c.rng
    p, _ = mkpoly(rng, maxterms=4)
    env = env_for(rng)
    fv = {v.name for v in p.free_vars()}
    c.check(fv == {v.name for _, t in p.terms for v, _ in t.vars}, 'free_vars wrong', key='free_vars')
    sub = {n for n in NAMES if rng.random() < (1 if c.i % 3 == 0 else 0.5)}
    c.note(p=describe(p), env={k: str(v) for k, v in env.items()}, sub=sorted(sub))
    c.sig((describe(p), sorted(sub)))
    before = describe(p)
    r = p.substitute({Var(n, BOOL[n]): env[n] for n in sub})
    c.check(describe(p) == before, 'substitute changed the polynomial', key='frame')
    c.check(not ({v.name for v in r.free_vars()} & sub), 'substituted symbol still free', key='free')
    d = (float(val(r, env)) - float(val(p, env))) % 2
    c.check(min(d, 2 - d) < 1e-6, 'value after substitution %s instead of %s' % (val(r, env), val(p, env)), key='value')
    if not any(BOOL[v.name] for _, t in p.terms for v, _ in t.vars):
        c.check(abs(float(val(r, env)) - float(val(p, env))) < 1e-6, 'value after substitution', key='value exact')
    c.check(p.degree == max([sum(k for _, k in t.vars) for _, t in p.terms] or [0]), 'degree', key='degree')
    isp = all(BOOL[v.name] for _, t in p.terms for v, _ in t.vars) and all(co % 1 == 0 for co, _ in p.terms)
    c.check(p.is_pauli == isp, 'is_pauli', key='is_pauli')
    if p.is_clifford:
        vs = [val(p, {**env, **{n: rng.choice([0, 1]) for n in NAMES if BOOL[n]}}) for _ in range(6)]
        c.check(all((v * 2) % 1 == 0 for v in vs), 'is_clifford but takes the value %s' % vs, key='is_clifford')


from props import c14p  # noqa: E402
c14p.register(S)
