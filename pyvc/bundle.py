"""Symbolic execution of the real rewrite code on diagrams with arbitrarily many neighbours.

A diagram is described by finitely many individual vertices and finitely many *bundles*.  A bundle C is a set of n_C >= 1
vertices (n_C a symbolic integer) that look alike to the code under proof: same type, same edge type to the individual vertices.
The functions of a module are extracted mechanically from its source on every run (function instrument): the only changes are that
every `for x in E` / comprehension becomes `for x in __it(E)`, the calls len/range/int/sum become shims, list and dict displays
become GList/GDict, and x[i] becomes __sub(x,i); annotations are dropped.  Nothing else is touched, the statements are those of /repo.

Loop rule: iterating over a bundle runs the body once for a generic member.  It is sound because it is checked that (1) no local
variable is carried from one iteration to the next (static read-before-write analysis of the loop, plus a dynamic comparison of the
caller's locals), (2) every container mutation or graph effect made in the body is keyed by the generic member (or commutes and is then
multiplied by the size of the bundle), (3) a loop that is left early over a bundle made no effect.  Everything else raises Unsupported.
A pair of distinct members of the same bundle is represented by two copies of the generic member.

Meaning of a diagram: sum over 0/1 values of the vertices (path sum).  With S_C the number of members of C whose value is 1, the weight of
a diagram is a finite sum of terms 2^{P/2} q e^{i pi Q} with P, Q polynomials in S_C, n_C and the phase symbols.  Two diagrams denote
the same map iff the terms agree for all values of the boundary variables and of S_C, n_C; this is decided by splitting S_C into residue
classes and comparing exact normal forms (pyvc.exact)."""
import ast
import builtins
import importlib
import inspect
import itertools
import sys
import types as _types
from fractions import Fraction
from math import gcd
import z3
from .core import Path, path, Unsupported, PathAbort
from . import exact as X
from .exact import SymPhase, Amp


# ---------------------------------------------------------------------------------------------- polynomials over the rationals
class PP:
    """polynomial: {monomial (sorted tuple of symbol names): Fraction}"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return PP({(): Fraction(c)} if c else {})

    @staticmethod
    def sym(n):
        return PP({(n,): Fraction(1)})

    @staticmethod
    def of(x):
        if isinstance(x, PP):
            return x
        if isinstance(x, SymInt2):
            return x.p
        if isinstance(x, SymPhase):
            c, t = x._n()
            d = {(k,): v for k, v in t}
            if c:
                d[()] = c
            return PP(d)
        if isinstance(x, (int, Fraction)):
            return PP.const(x)
        if isinstance(x, float) and x * 1024 == int(x * 1024):
            return PP.const(Fraction(x))
        raise Unsupported('polynomial from %r' % (x,))

    def __add__(self, o):
        d = dict(self.d)
        for k, v in PP.of(o).d.items():
            w = d.get(k, 0) + v
            if w:
                d[k] = w
            else:
                d.pop(k, None)
        return PP(d)

    def __neg__(self):
        return PP({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-PP.of(o))

    def __mul__(self, o):
        o = PP.of(o)
        d = {}
        for k, v in self.d.items():
            for l, w in o.d.items():
                m = tuple(sorted(k + l))
                x = d.get(m, 0) + v * w
                if x:
                    d[m] = x
                else:
                    d.pop(m, None)
        return PP(d)

    def subst(self, sub):
        """replace symbols by polynomials"""
        if not any(s in sub for k in self.d for s in k):
            return self
        r = PP()
        for k, v in self.d.items():
            t = PP.const(v)
            for s in k:
                t = t * (sub[s] if s in sub else PP.sym(s))
            r = r + t
        return r

    def is_const(self):
        return all(k == () for k in self.d)

    def c(self):
        return self.d.get((), Fraction(0))

    def syms(self):
        return {s for k in self.d for s in k}

    def key(self):
        return tuple(sorted(self.d.items()))

    def __repr__(self):
        return ' + '.join('%s%s' % (v, '*' + '*'.join(k) if k else '') for k, v in self.d.items()) or '0'

    def z3(self):
        e = z3.RealVal(0)
        for k, v in self.d.items():
            t = z3.RealVal(str(v))
            for s in k:
                t = t * z3.ToReal(z3.Int(s))
            e = e + t
        return e

    def integer_valued(self, q=1):
        """True if p/q takes integer values at all integer points (checked on all residues modulo the denominators)"""
        p = PP({k: v / q for k, v in self.d.items()})
        den = 1
        for v in p.d.values():
            den = den * v.denominator // gcd(den, v.denominator)
        ss = sorted(p.syms())
        if den ** len(ss) > 5000:
            raise Unsupported('integrality check too large')
        for vals in itertools.product(range(den), repeat=len(ss)):
            t = p.subst({s: PP.const(x) for s, x in zip(ss, vals)})
            if t.c().denominator != 1:
                return False
        return True


def nsub():
    p = Path.current
    return p.memo.get('nsub', {}) if p else {}


class SymInt2:
    """integer-valued polynomial in the sizes of the bundles; src: the list whose length it is"""
    __slots__ = ('p', 'src')

    def __init__(self, p, src=None):
        self.p, self.src = p, src

    def _b(self, o):
        if isinstance(o, SymInt2):
            return o.p
        if isinstance(o, bool) or isinstance(o, int):
            return PP.const(int(o))
        return None

    def _op(self, o, f):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return mkint(f(self.p.subst(nsub()), b.subst(nsub())))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, Fraction):
            return mkphase(self.p * PP.of(o))
        return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.p)

    def __floordiv__(self, q):
        if not isinstance(q, int) or not self.p.integer_valued(q):
            raise Unsupported('inexact division of a symbolic size')
        return mkint(PP({k: v / q for k, v in self.p.d.items()}))

    def __truediv__(self, q):
        return self // q

    def __mod__(self, q):
        if isinstance(q, int) and self.p.integer_valued(q):
            return 0
        raise Unsupported('symbolic size modulo')

    def _rel(self, o, rel):
        b = self._b(o)
        if b is None:
            raise Unsupported('comparison of a size with %r' % (o,))
        d = (self.p - b).subst(nsub())
        p = path()
        if d.is_const():
            return rel(d.c())
        key = ('rel', d.key(), rel(z3.Int('x')).sexpr())
        if key in p.memo:
            return p.memo[key]
        c = rel(d.z3())
        for s in d.syms():
            if ('pos', s) not in p.memo:
                p.memo[('pos', s)] = True
                p.assume(z3.Int(s) >= 1)
        r = p.branch(c)
        p.memo[key] = r
        # equality: solve for a size occurring linearly
        if r and z3.is_eq(c):
            for k, v in d.d.items():
                if len(k) == 1 and sum(k[0] in m for m in d.d) == 1:
                    rest = PP({m: -w / v for m, w in d.d.items() if m != k})
                    p.memo.setdefault('nsub', {})[k[0]] = rest
                    break
            else:
                raise Unsupported('size equation %r = 0' % d)
        return r

    def __eq__(self, o): return self._rel(o, lambda x: x == 0)
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self._rel(o, lambda x: x < 0)
    def __le__(self, o): return self._rel(o, lambda x: x <= 0)
    def __gt__(self, o): return not self <= o
    def __ge__(self, o): return not self < o
    def __bool__(self): return not self == 0
    __hash__ = None

    def __index__(self):
        raise Unsupported('symbolic size used as an index')
    __int__ = __float__ = __str__ = __format__ = __index__

    def __repr__(self):
        return 'SymInt2(%r)' % self.p


def mkint(p):
    return int(p.c()) if p.is_const() and p.c().denominator == 1 else SymInt2(p)


def mkphase(p):
    """phase from a polynomial: monomials become symbols"""
    t = []
    for k, v in p.d.items():
        if k:
            t.append((mono(k), v))
    return X.mk((p.c(), tuple(sorted(t))))


_mono = {}


def mono(k):
    name = '*'.join(k)
    if name not in X._syms:
        X._syms[name] = all(X._syms.get(s) for s in k)
    _mono[name] = k
    return name


# ---------------------------------------------------------------------------------------------- vertices
class V:
    """a vertex; idx is () for an individual vertex, else the tuple of bundle indices it depends on, each (class, copy)"""
    _pool = {}
    __slots__ = ('name', 'idx', 'no')

    def __new__(cls, name, idx=()):
        k = (name, idx)
        if k not in cls._pool:
            o = object.__new__(cls)
            o.name, o.idx, o.no = name, idx, len(cls._pool)
            cls._pool[k] = o
        return cls._pool[k]

    def __repr__(self):
        return '%s%s' % (self.name, ''.join('[%s%s]' % (c, "'" * k) for c, k in self.idx))

    def __hash__(self):
        return self.no * 7919 % 65521

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        if not isinstance(o, V):
            raise Unsupported('vertex compared with %r' % (o,))
        if self is o:
            return False
        p = path()
        if self.idx and o.idx and {c for c, _ in self.idx} & {c for c, _ in o.idx}:
            raise Unsupported('order of two members of a bundle')
        a, b = (self, o) if self.no < o.no else (o, self)
        key = ('vlt', repr(a), repr(b))
        if key not in p.memo:
            p.memo[key] = p.choose(2) == 0
        return p.memo[key] if a is self else not p.memo[key]

    def __gt__(self, o): return o < self
    def __le__(self, o): return self is o or self < o
    def __ge__(self, o): return self is o or o < self

    def __index__(self):
        raise Unsupported('vertex used as a number')
    __int__ = __float__ = __add__ = __sub__ = __index__

    def copy(self, k):
        return V(self.name, tuple((c, k) for c, _ in self.idx))


def bundles_in(x, depth=0):
    """bundle indices occurring in a value"""
    if isinstance(x, V):
        return set(x.idx)
    if isinstance(x, OpaqueEdge):
        return set(x.v.idx)
    if isinstance(x, (tuple, list, frozenset, set)) and depth < 4:
        r = set()
        for y in x:
            r |= bundles_in(y, depth + 1)
        return r
    if isinstance(x, dict) and depth < 4:
        r = set()
        for k, v in x.items():
            r |= bundles_in(k, depth + 1) | bundles_in(v, depth + 1)
        return r
    return set()


def direct(x):
    """bundle indices of an item that is a vertex or a tuple of vertices (lists and sets inside an item stay collections)"""
    if isinstance(x, V):
        return set(x.idx)
    if isinstance(x, OpaqueEdge):
        return set(x.v.idx)
    if isinstance(x, IdxRep):
        return direct(x.el)
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= direct(y)
        return r
    return set()


def rename(x, sub):
    if isinstance(x, V):
        return V(x.name, tuple(sub.get(i, i) for i in x.idx))
    if isinstance(x, tuple):
        return tuple(rename(y, sub) for y in x)
    if isinstance(x, GList):
        return GList(rename(y, sub) for y in x)
    if isinstance(x, list):
        return [rename(y, sub) for y in x]
    return x


class LayoutNum:
    """position: arbitrary number; comparisons fork"""
    def _a(self, *o):
        return LayoutNum()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __mod__ = __floordiv__ = __abs__ = _a

    def _c(self, o):
        p = path()
        return p.choose(2) == 1
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _c
    __hash__ = None

    def __bool__(self):
        return self._c(0)


# ---------------------------------------------------------------------------------------------- the active loops
class State:
    """per path"""
    def __init__(self):
        self.active = []      # list of sets of bundle indices, one per active loop
        self.effects = 0
        self.poison = None
        self.ordered = set()  # classes whose pairs are enumerated in both orders

    def all(self):
        r = set()
        for s in self.active:
            r |= s
        return r


def st():
    p = path()
    if 'bundle' not in p.memo:
        p.memo['bundle'] = State()
    return p.memo['bundle']


def mult(idx):
    """number of instances of a set of bundle indices (as polynomial)"""
    bycls = {}
    for c, k in idx:
        bycls.setdefault(c, set()).add(k)
    r = PP.const(1)
    for c, ks in bycls.items():
        n = PP.sym('n_' + c)
        if ks == {0} or ks == {1}:
            r = r * n
        else:
            r = r * (n * (n - 1)) * PP.const(Fraction(1, 2))
    return r


def extra(keys):
    """active bundle indices not determined by the given ones: an effect keyed by `keys` happens once per instance of them"""
    act = st().all()
    rest = act - set(keys)
    f = PP.const(1)
    for c in st().ordered:
        if {(c, 0), (c, 1)} <= act:
            f = f * PP.const(2)
    if not rest:
        return f
    kc = {c for c, _ in keys}
    if any(c in kc for c, _ in rest):
        raise Unsupported('effect on one member inside a loop over pairs of the same bundle')
    return mult(rest) * f


def need_active(x):
    b = bundles_in(x)
    if b - st().all():
        raise Unsupported('an unspecified member of a bundle is used individually: %r' % (x,))
    return b


# ---------------------------------------------------------------------------------------------- instrumented containers
class GList(list):
    __slots__ = ('born', 'owner')

    def __init__(self, it=()):
        list.__init__(self, it)
        self.born = frozenset(st().all()) if Path.current else frozenset()
        self.owner = None

    def _chk(self, item):
        if Path.current is None:
            return
        s = st()
        act = s.all() - self.born
        if act:
            s.effects += 1
            own = self.owner or set()
            if act - bundles_in(item) - own:
                raise Unsupported('list changed inside a loop over a bundle by an item that does not depend on the member')

    def append(self, x):
        self._chk(x)
        list.append(self, x)

    def extend(self, xs):
        xs = list(xs)
        for x in xs:
            self._chk(x)
        if not xs and Path.current and st().all() - self.born:
            pass
        list.extend(self, xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __setitem__(self, i, x):
        if isinstance(i, IdxRep):
            raise Unsupported('indexed store')
        self._chk(None)
        list.__setitem__(self, i, x)

    def insert(self, i, x):
        raise Unsupported('insert')

    def remove(self, x):
        need_concrete(x)
        list.remove(self, x)

    def pop(self, *a):
        x = list.pop(self, *a)
        if bundles_in(x):
            raise Unsupported('pop from a list of bundle members')
        return x

    def __add__(self, o): return GList(list.__add__(self, list(o)))
    def __radd__(self, o): return GList(list(o) + list(self))


def need_concrete(x):
    if bundles_in(x) - st().all():
        raise Unsupported('operation on an unspecified member')


class GSet(set):
    """pop() takes an arbitrary element: every choice is explored"""
    def pop(self):
        if Path.current is None or len(self) < 2:
            return set.pop(self)
        xs = sorted(self, key=repr)
        x = xs[path().choose(len(xs))]
        self.remove(x)
        return x


class GDict(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.born = frozenset(st().all()) if Path.current else frozenset()

    def _chk(self, key, val):
        if Path.current is None:
            return
        s = st()
        act = s.all() - self.born
        if act:
            s.effects += 1
            kb = bundles_in(key)
            if act - kb:
                if key in self and self[key] == val:
                    return
                raise Unsupported('dictionary entry %r written repeatedly inside a loop over a bundle' % (key,))

    def __setitem__(self, key, val):
        if not isinstance(key, (LayoutNum, SymInt2)):
            self._chk(key, val)
        if isinstance(val, GList):
            val.owner = bundles_in(key)
        dict.__setitem__(self, key, val)

    def pop(self, *a):
        need_concrete(a[0])
        return dict.pop(self, *a)


# ---------------------------------------------------------------------------------------------- iteration
class IdxRep:
    """generic index into `src` (a list with bundles): slot, copy"""
    def __init__(self, src, slot, copy):
        self.src, self.slot, self.copy = src, slot, copy
        b = bundles_in(src[slot])
        self.el = src[slot] if not copy else rename(src[slot], {(c, k): (c, 1) for c, k in b})
        self.off = 0

    def __add__(self, n):
        if n == 1:
            return IdxNext(self)
        raise Unsupported('index arithmetic')

    def __index__(self):
        raise Unsupported('generic index')
    __int__ = __mul__ = __sub__ = __index__

    def _slot(self, o):
        if isinstance(o, IdxRep) and o.src is self.src:
            return (self.slot, self.copy), (o.slot, o.copy)
        raise Unsupported('comparison of a generic index')

    def __eq__(self, o):
        a, b = self._slot(o)
        return a == b

    def __lt__(self, o):
        a, b = self._slot(o)
        return a < b
    def __ne__(self, o): return not self == o
    def __gt__(self, o): return o < self
    def __le__(self, o): return not o < self
    def __ge__(self, o): return not self < o
    __hash__ = None


class IdxNext:
    def __init__(self, i):
        self.i = i


class SymRange:
    def __init__(self, lo, n):
        self.lo, self.n = lo, n

    def items(self):
        src = self.n.src
        if src is None or len(src) == 0:
            raise Unsupported('range over a computed size')
        out = []
        if isinstance(self.lo, IdxNext):
            i = self.lo.i
            if i.src is not src:
                raise Unsupported('range over two lists')
            if bundles_in(src[i.slot]):
                out.append(IdxRep(src, i.slot, 1))
            for k in range(i.slot + 1, len(src)):
                out.append(IdxRep(src, k, 0))
        elif self.lo == 0:
            out = [IdxRep(src, k, 0) for k in range(len(src))]
        else:
            raise Unsupported('range start')
        return out


LOOPS = {}   # loop id -> (targets, temps, others stored)


def _it(x, lid=None, gen=False):
    """iteration over a container whose items may be (tuples of) bundle members"""
    if isinstance(x, (str, bytes, range)) or Path.current is None:
        yield from x
        return
    if isinstance(x, SymRange):
        items = x.items()
    elif isinstance(x, (list, tuple, set, frozenset, dict, type({}.keys()), type({}.values()), type({}.items()))):
        items = list(x)
    elif isinstance(x, (enumerate, zip)):
        items = list(x)
        if any(direct(i) for i in items) and isinstance(x, enumerate):
            raise Unsupported('enumerate over a bundle')
    else:
        items = x  # generators and ghost iterables
    s = st()
    frame = None
    for item in items:
        b = direct(item)
        act = s.all()
        if any((c, 1) in b and (c, 0) in b and not b <= act for c in s.ordered):
            raise Unsupported('pairs of members collected in both orders')
        variants = [item]
        if b & act:
            # the same bundle is already being iterated: the diagonal (same member) and the off-diagonal (another member)
            if isinstance(item, IdxRep):
                if item.copy == 0 and any((c, 0) in act for c, _ in b):
                    raise Unsupported('two full index loops over the same list')
            elif not isinstance(item, V):
                if not b <= act:
                    raise Unsupported('nested iteration over the same bundle')
                # an item wholly determined by active members (e.g. a stored tuple): that very item
            else:
                owned = isinstance(x, GList) and x.owner and b <= x.owner
                fresh = isinstance(x, GList) and b <= x.born
                if owned or fresh:
                    variants = [item]
                else:
                    if any(k == 1 for _, k in act):
                        raise Unsupported('three nested loops over the same bundle')
                    variants = [item, item.copy(1)]
                    s.ordered |= {c for c, _ in b}
        for it in variants:
            new = direct(it) - s.all()
            if not new:
                yield it
                continue
            s.active.append(new)
            eff0 = s.effects
            if frame is None and lid is not None and not gen:
                frame = sys._getframe(1)
            before = dict(frame.f_locals) if frame is not None else None
            done = False
            try:
                yield it
                done = True
            finally:
                s.active.remove(new)
                if not done and s.effects != eff0:
                    s.poison = 'loop over a bundle left early after an effect'
            if frame is not None:
                after = frame.f_locals
                targets, temps = LOOPS[lid]
                for n, v in after.items():
                    if n in targets or n in temps or n.startswith('.'):
                        continue
                    if n not in before:
                        raise Unsupported('variable %s defined by an iteration over a bundle and used later' % n)
                    o = before[n]
                    if isinstance(v, LayoutNum):
                        continue  # a position: arbitrary
                    if o is not v and not (type(o) in (bool, int, type(None), Fraction, str) and type(v) is type(o) and o == v):
                        raise Unsupported('variable %s carried through a loop over a bundle' % n)


def _len(x):
    if isinstance(x, (list, tuple, set, frozenset, dict)) or type(x) in (type({}.keys()), type({}.values()), type({}.items())):
        tot = PP()
        sym = False
        act = st().all() if Path.current else set()
        for y in x:
            b = direct(y) - act
            if isinstance(x, GList) and x.owner:
                b -= x.owner
            if b:
                sym = True
                tot = tot + mult(b)
            else:
                tot = tot + PP.const(1)
        if not sym:
            return len(x)
        r = tot.subst(nsub())
        if r.is_const():
            return int(r.c())
        return SymInt2(r, x if isinstance(x, (list, tuple)) else None)
    return len(x)


def _range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        a = (0,) + a
    if len(a) == 2 and isinstance(a[1], SymInt2):
        return SymRange(a[0], a[1])
    if len(a) == 2 and isinstance(a[0], IdxNext) and isinstance(a[1], int):
        raise Unsupported('range')
    raise Unsupported('symbolic range')


def _int(x=0, *a):
    if isinstance(x, SymInt2):
        return x
    return int(x, *a)


def _sub(x, i):
    if isinstance(i, IdxRep):
        if i.src is not x:
            raise Unsupported('generic index into another list')
        return i.el
    if isinstance(x, (list, tuple)) and not isinstance(i, slice) and not isinstance(x, V):
        r = x[i]
        b = bundles_in(r)
        if b and b - st().all() and isinstance(r, V):
            raise Unsupported('indexing a list of bundle members')
        return r
    if isinstance(x, list) and isinstance(i, slice) and bundles_in(x):
        raise Unsupported('slice of a list of bundle members')
    if isinstance(x, list) and isinstance(i, slice):
        return GList(x[i])
    return x[i]


def _sum(x, *a):
    x = list(x)
    tot = a[0] if a else 0
    for y in x:
        tot = tot + y
    return tot


class _Itertools:
    def __getattr__(self, n):
        return getattr(itertools, n)

    @staticmethod
    def combinations(x, r):
        x = list(x)
        if any(direct(i) for i in x):
            if r != 2:
                raise Unsupported('combinations of bundle members')
            out = []
            for i, a in enumerate(x):
                if direct(a):
                    out.append((a, a.copy(1)))
                for b in x[i + 1:]:
                    out.append((a, b))
            return out
        return itertools.combinations(x, r)


# ---------------------------------------------------------------------------------------------- extraction of the real code
class Instr(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.fn = []

    def visit_FunctionDef(self, node):
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a.annotation = None
        self.fn.append(node)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return None if self.fn else node
        return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

    def visit_For(self, node):
        lid = (self.fname, node.lineno, node.col_offset)
        LOOPS[lid] = analyse(node, self.fn[-1] if self.fn else None)
        self.generic_visit(node)
        node.iter = call('__it', node.iter, ast.Constant(lid))
        return node

    def comp(self, node):
        self.generic_visit(node)
        for g in node.generators:
            g.iter = call('__it', g.iter, ast.Constant(None), ast.Constant(True))
        return node

    visit_SetComp = visit_GeneratorExp = comp

    def visit_DictComp(self, node):
        return call('__gdict', self.comp(node))

    def visit_ListComp(self, node):
        return call('__glist', self.comp(node))

    def visit_List(self, node):
        self.generic_visit(node)
        return call('__glist', node) if isinstance(node.ctx, ast.Load) else node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return call('__gdict', node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                sl = call('slice', *[x or ast.Constant(None) for x in (node.slice.lower, node.slice.upper, node.slice.step)])
            else:
                sl = node.slice
            return ast.copy_location(call('__sub', node.value, sl), node)
        return node


def call(n, *a):
    return ast.Call(ast.Name(n, ast.Load()), list(a), [])


def stored(node):
    r = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            r.add(n.id)
    return r


def analyse(loop, fn):
    """targets; temps = names always assigned before use in the body and not read outside the loop"""
    targets = stored(loop.target)
    body_store = set()
    for s in loop.body:
        body_store |= stored(s)
    carried = set()

    def reads(node, assigned):
        """names possibly read before assignment; updates assigned (definite assignment)"""
        if isinstance(node, (ast.If,)):
            reads(node.test, assigned)
            a, b = set(assigned), set(assigned)
            for s in node.body:
                reads(s, a)
            for s in node.orelse:
                reads(s, b)
            ta = bool(node.body) and isinstance(node.body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))
            tb = bool(node.orelse) and isinstance(node.orelse[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))
            assigned |= (b if ta else a if tb else a & b)
            return
        if isinstance(node, (ast.For,)):
            reads(node.iter, assigned)
            a = set(assigned) | stored(node.target)
            for s in node.body:
                reads(s, a)
            for s in node.orelse:
                reads(s, set(assigned))
            return
        if isinstance(node, ast.While):
            reads(node.test, assigned)
            a = set(assigned)
            for s in node.body:
                reads(s, a)
            return
        if isinstance(node, ast.Assign):
            reads(node.value, assigned)
            for t in node.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    reads(t, assigned)
                assigned |= stored(t)
            return
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                reads(node.value, assigned)
                assigned |= stored(node.target)
            return
        if isinstance(node, ast.AugAssign):
            if isinstance(node.target, ast.Name) and node.target.id not in assigned:
                carried.add(node.target.id)
            reads(node.target, assigned)
            reads(node.value, assigned)
            return
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            a = set(assigned)
            for g in node.generators:
                reads(g.iter, a)
                a |= stored(g.target)
                for i in g.ifs:
                    reads(i, a)
            for f in ('elt', 'key', 'value'):
                if hasattr(node, f):
                    reads(getattr(node, f), a)
            return
        if isinstance(node, ast.Name):
            if isinstance(node.ctx, ast.Load) and node.id not in assigned:
                carried.add(node.id)
            return
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            return
        for ch in ast.iter_child_nodes(node):
            reads(ch, assigned)
    asg = set(targets)
    for s in loop.body:
        reads(s, asg)
    in_loop = set(carried)
    # names that may be read after the loop before being assigned again
    carried.clear()
    if fn is not None:
        chain = find(fn, loop)
        asg = set()
        for parent, block, pos in reversed(chain):
            for s in block[pos + 1:]:
                reads(s, asg)
            if isinstance(parent, (ast.For, ast.While)):
                a2 = set(asg) | (stored(parent.target) if isinstance(parent, ast.For) else set())
                if isinstance(parent, ast.While):
                    reads(parent.test, a2)
                for s in block[:pos]:
                    reads(s, a2)
                reads(block[pos], a2)  # the statement around the loop, executed again in the next iteration
    live = set(carried)
    return targets, (body_store | targets) - in_loop - live


def find(fn, loop):
    """chain of (parent node, block, position) from the function down to the loop"""
    def rec(node):
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
            blk = getattr(node, f, None)
            if isinstance(blk, list):
                for i, s in enumerate(blk):
                    if s is loop:
                        return [(node, blk, i)]
                    if isinstance(s, ast.AST):
                        r = rec(s)
                        if r is not None:
                            return [(node, blk, i)] + r
        return None
    return rec(fn) or []


_cache = {}


def instrument(modname, also=()):
    """a fresh copy of a /repo module built from its current source with the instrumentation above"""
    if modname in _cache:
        return _cache[modname]
    real = importlib.import_module(modname)
    src = inspect.getsource(real)
    tree = ast.parse(src)
    # module level: keep imports, functions, classes, assignments
    tr = Instr(modname)
    body = []
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            n = tr.visit(n)
        elif isinstance(n, ast.If) and 'main' in ast.dump(n.test):
            continue
        body.append(n)
    tree.body = body
    ast.fix_missing_locations(tree)
    m = _types.ModuleType(real.__name__)
    m.__dict__.update(__file__=real.__file__, __package__=real.__package__, __name__=real.__name__)
    m.__dict__.update(__it=_it, __glist=GList, __gdict=GDict, __sub=_sub)
    exec(compile(tree, real.__file__, 'exec'), m.__dict__)
    m.__dict__.update(len=_len, range=_range, int=_int, sum=_sum, set=GSet, dict=GDict, list=GList, itertools=_Itertools())
    if 'upair' in m.__dict__:
        real_upair = m.__dict__['upair']

        def upair(a, b):  # an unordered pair as a table key: for two vertices of the same member either order names the same entry
            if isinstance(a, V) and isinstance(b, V) and {c for c, _ in a.idx} & {c for c, _ in b.idx}:
                return (a, b) if (a.no, a.idx) <= (b.no, b.idx) else (b, a)
            return real_upair(a, b)
        m.__dict__['upair'] = upair
    if 'combinations' in m.__dict__:
        m.__dict__['combinations'] = _Itertools.combinations
    _cache[modname] = m
    return m


# ---------------------------------------------------------------------------------------------- the ghost diagram
class GScalar:
    def __init__(self):
        self.pow2 = PP()      # exponent of sqrt 2
        self.ph = PP()
        self.amp = X.ONE
        self.is_zero = False

    def _eff(self):
        st().effects += 1
        return extra(())

    def add_power(self, n):
        self.pow2 = self.pow2 + PP.of(n) * self._eff()

    def add_phase(self, p):
        self.ph = self.ph + PP.of(p) * self._eff()

    def _amp(self, a):
        if not self._eff().is_const():
            raise Unsupported('scalar factor inside a loop over a bundle')
        self.amp = self.amp * a

    def add_node(self, p): self._amp(X.ONE + X.e(p))
    def add_float(self, f): self._amp(Amp.exact(f))

    def add_spider_pair(self, p1, p2):
        self._amp((X.ONE + X.e(p1) + X.e(p2) - X.e(p1 + p2)) * X.ISQ2)


class OpaqueEdge:
    """some further edge at an external vertex"""
    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(('oe', self.v))

    def __eq__(self, o):
        return isinstance(o, OpaqueEdge) and o.v is self.v


class Attr(dict):
    """g.types(), g.phases() ... : live views, as in the real class"""
    def __init__(self, f, keys):
        self.f, self.k = f, keys

    def __getitem__(self, v): return self.f(v)
    def get(self, v, d=None): return self.f(v) if v in self.k() else d
    def keys(self): return self.k()
    def items(self): return [(v, self.f(v)) for v in self.k()]
    def __iter__(self): return iter(self.k())
    def __contains__(self, v): return v in self.k()
    def __len__(self): raise Unsupported('len of attribute map')


def ghost_class():
    from pyzx.graph.base import BaseGraph
    from pyzx.utils import VertexType, EdgeType

    class BG(BaseGraph):
        backend = 'ghost'

        def __init__(self):
            BaseGraph.__init__(self)
            self.scalar = GScalar()
            self.order = []        # vertices
            self.ty, self.ph, self.ext = {}, {}, {}
            self.E = {}            # (u,v) sorted by creation -> [simple, had] counts (PP)
            self._in, self._out = (), ()
            self.cand_v = self.cand_e = None
            self.fresh = 0
            self.removed = []
            self.strict = True
            self.ctx_neighbors = {}
            self.ctx_degree = False   # context vertices have an arbitrary degree >= 3

        # -- construction of the initial state
        def ind(self, name, ty=1, phase=0, ext=False):
            v = V(name)
            self._new(v, ty, phase, ext)
            return v

        def bundle(self, cls, ty=1, phase=None, ext=True):
            v = V(cls, ((cls, 0),))
            X.sym('n_' + cls, True)
            self._new(v, ty, phase if phase is not None else X.phase_sym('ph_' + cls), ext)
            return v

        def _new(self, v, ty, phase, ext):
            self.order.append(v)
            self.ty[v], self.ph[v], self.ext[v] = VertexType(ty), phase, ext

        def link(self, u, v, et=1):
            e = self.E.setdefault(self.key(u, v), [PP(), PP()])
            e[et - 1] = e[et - 1] + 1

        def base(self, v):
            """the stored representative of v and the substitution to it"""
            if v in self.ty:
                return v
            if isinstance(v, V):
                w = V(v.name, tuple((c, 0) for c, _ in v.idx))
                if w in self.ty:
                    return w
            raise Unsupported('vertex %r is not in the diagram' % (v,))

        def key(self, u, v):
            u, v = (u, v) if (u.no, u.idx) <= (v.no, v.idx) else (v, u)
            # canonical copies: the first index of a class is copy 0
            idx = set(u.idx) | set(v.idx)
            cls = {}
            for c, k in idx:
                cls.setdefault(c, set()).add(k)
            sub = {(c, 1): (c, 0) for c, ks in cls.items() if ks == {1}}
            u, v = rename(u, sub), rename(v, sub)
            return (u, v)

        def clone_state(self):
            return dict(order=list(self.order), ty=dict(self.ty), ph=dict(self.ph), ext=dict(self.ext), E={k: list(v) for k, v in self.E.items()},
                        sc=(self.scalar.pow2, self.scalar.ph, self.scalar.amp), io=(self._in, self._out))

        def same_state(self, s):
            t = self.clone_state()
            if t['order'] != s['order'] or t['ty'] != s['ty'] or t['io'] != s['io']:
                return 'vertices, types or boundaries changed'
            for v in t['order']:
                if t['ph'][v] is not s['ph'][v] and not (PP.of(t['ph'][v]) - PP.of(s['ph'][v])).d == {}:
                    return 'phase of %r changed' % v
            norm = lambda E: {k: (v[0].subst(nsub()).key(), v[1].subst(nsub()).key()) for k, v in E.items() if v[0].d or v[1].d}
            if norm(t['E']) != norm(s['E']):
                return 'edges changed'
            if any((a - b).d for a, b in zip(t['sc'][:2], s['sc'][:2])) or not (t['sc'][2] - s['sc'][2]).is_zero():
                return 'scalar changed'
            return None

        # -- reading
        def vertices(self): return GList(self.order)
        def vertex_set(self): return set(self.cand_v if self.cand_v is not None else self.order)
        def edge_set(self):
            if self.cand_e is not None:
                return set(self.cand_e)
            return set(self.edges())

        def edges(self, s=None, t=None):
            if s is not None and t is not None:
                out = GList()
                c = self.count(s, t)
                for ty in (1, 2):
                    if c[ty - 1].d:
                        if not c[ty - 1].is_const():
                            raise Unsupported('edges')
                        for _ in range(int(c[ty - 1].c())):
                            list.append(out, self.edge(s, t) + (ty,))
                return out
            if s is None:
                out = GList()
                for k, c in self.E.items():
                    if not (c[0].d or c[1].d):
                        continue
                    if self.single(*k) or not (c[0].is_const() and c[1].is_const()):
                        list.append(out, k)
                    else:
                        for ty in (1, 2):
                            for _ in range(int(c[ty - 1].c())):
                                list.append(out, (k[0], k[1], ty))
                return out
            return self.incident_edges(s)

        def inputs(self): return self._in
        def outputs(self): return self._out
        def set_inputs(self, x): self._in = tuple(x)
        def set_outputs(self, x): self._out = tuple(x)
        def num_inputs(self): return len(self._in)
        def num_outputs(self): return len(self._out)

        def num_vertices(self): return _len(GList(self.order))

        def type(self, v):
            need_active(v)
            return self.ty[self.base(v)]

        def phase(self, v):
            need_active(v)
            p = self.ph[self.base(v)]
            if isinstance(v, V) and v not in self.ty and isinstance(p, SymPhase):
                if any(s.startswith('ph_') for s, _ in p._n()[1]):
                    raise Unsupported('phase of a second member')
            return p

        def types(self): return Attr(self.type, self.vertices)
        def phases(self):
            snap = dict(self.ph)

            def f(v):
                need_active(v)
                b = self.base(v)
                return self.ph[b]
            return Attr(f, self.vertices)
        def qubit(self, v): return LayoutNum()
        def row(self, v): return LayoutNum()
        def rows(self): return Attr(self.row, self.vertices)
        def qubits(self): return Attr(self.qubit, self.vertices)
        def is_ground(self, v): return False
        def grounds(self): return set()
        def is_hybrid(self): return False
        def multigraph(self): return False

        def internal(self, v):
            if self.ext[self.base(v)]:
                raise Unsupported('neighbourhood of a context vertex')

        def count(self, u, v):
            c = self.E.get(self.key(u, v))
            if c is None and u is not v and set(u.idx) & set(v.idx) == set() and u.idx and v.idx and self.base(u) is self.base(v):
                c = self.E.get(self.key(u, v))
            if c is None:
                if self.ext[self.base(u)] and self.ext[self.base(v)] and self.strict:
                    raise Unsupported('adjacency of context vertices')
                return [PP(), PP()]
            return [c[0].subst(nsub()), c[1].subst(nsub())]

        def _inc(self, v):
            """stored edges at v: (other end, counts)"""
            b = self.base(v)
            sub = {i: j for i, j in zip(b.idx, v.idx)}
            out = []
            for (s, t), c in self.E.items():
                if not (c[0].d or c[1].d):
                    continue
                hits = []
                if s is b:
                    hits.append(t)
                if t is b and s is not b:
                    hits.append(s)
                for o in hits:
                    out.append((rename(o, sub), c))
            return out

        def neighbors(self, v):
            need_active(v)
            if self.ext[self.base(v)] and self.base(v) in self.ctx_neighbors:
                return GList(self.ctx_neighbors[self.base(v)])
            self.internal(v)
            out = []
            for o, c in self._inc(v):
                if o not in out:
                    out.append(o)
            r = GList(out)
            r.owner = set(v.idx)
            return r

        def vertex_degree(self, v):
            if self.ctx_degree and self.ext[self.base(v)]:
                need_active(v)
                n = 'dg_' + self.base(v).name
                X.sym(n, True)
                d = PP.sym(n)
                for o, c in self._inc(v):
                    d = d + c[0] + c[1]
                if n not in path().memo:
                    path().memo[n] = True
                    path().assume(z3.Int(n) >= 1)
                    path().assume(d.z3() >= 3)
                return mkint(d)
            self.internal(v)
            tot = PP()
            for o, c in self._inc(v):
                m = mult(set(o.idx) - set(v.idx))
                tot = tot + (c[0] + c[1]) * m * (2 if o is v else 1)
            tot = tot.subst(nsub())
            return mkint(tot)

        def incident_edges(self, v):
            need_active(v)
            out = GList()
            for o, c in self._inc(v):
                for ty in (1, 2):
                    if c[ty - 1].d:
                        if not c[ty - 1].is_const():
                            raise Unsupported('edge multiplicity')
                        for _ in range(int(c[ty - 1].c())):
                            list.append(out, self.edge(v, o) if self.single(v, o) else self.edge(v, o) + (ty,))
            if self.ext[self.base(v)]:
                list.append(out, OpaqueEdge(v))
            out.owner = set(v.idx)
            return out

        def single(self, u, v):
            c = self.count(u, v)
            return (c[0] + c[1]).is_const() and (c[0] + c[1]).c() == 1

        def connected(self, u, v):
            need_active((u, v))
            c = self.count(u, v)
            return bool(c[0].d or c[1].d)

        def edge(self, s, t, et=None):
            return (s, t) if (s.no, s.idx) <= (t.no, t.idx) else (t, s)

        def edge_st(self, e):
            if isinstance(e, OpaqueEdge):
                raise Unsupported('context edge')
            return e[0], e[1]

        def edge_s(self, e): return e[0]
        def edge_t(self, e): return e[1]

        def edge_type(self, e):
            if isinstance(e, OpaqueEdge):
                raise Unsupported('context edge')
            if len(e) == 3:
                return EdgeType(e[2])
            need_active(e)
            c = self.count(e[0], e[1])
            if (c[0].d and c[1].d) or not c[0].is_const() or not c[1].is_const() or c[0].c() + c[1].c() != 1:
                raise Unsupported('edge type of a pair with several or no edges')
            return EdgeType.SIMPLE if c[0].d else EdgeType.HADAMARD

        # -- effects
        def eff(self, keys):
            st().effects += 1
            b = need_active(keys)
            return extra(b)

        def add_vertex(self, ty=VertexType.BOUNDARY, qubit=-1, row=-1, phase=None, ground=False):
            st().effects += 1
            act = st().all()
            if any(k for _, k in act):
                raise Unsupported('vertex created for pairs of members')
            self.fresh += 1
            v = V('+%d' % self.fresh, tuple(sorted(act)))
            self._new(v, ty, phase if phase is not None else (1 if ty == VertexType.H_BOX else 0), False)
            return v

        def add_vertices(self, n):
            return GList(self.add_vertex() for _ in range(n))

        def add_edges(self, pairs, edgetype=EdgeType.SIMPLE):
            for p in _it(pairs):
                self.add_edge(p, edgetype)

        def add_edge(self, pair, edgetype=EdgeType.SIMPLE):
            m = self.eff(tuple(pair))
            s, t = pair[0], pair[1]
            self.base(s), self.base(t)
            self.bump(s, t, int(edgetype), m)
            return (s, t)

        def bump(self, s, t, et, m):
            k = self.key(s, t)
            sw = {}
            for c in st().ordered:
                if {(c, 0), (c, 1)} <= set(k[0].idx) | set(k[1].idx):
                    sw.update({(c, 0): (c, 1), (c, 1): (c, 0)})
            k2 = self.key(rename(k[0], sw), rename(k[1], sw)) if sw else k
            if k2 != k:  # members of two families: (i,j) and (j,i) are different pairs
                m = m * PP.const(Fraction(1, 2))
                e = self.E.setdefault(k2, [PP(), PP()])
                e[et - 1] = e[et - 1] + m
            e = self.E.setdefault(k, [PP(), PP()])
            e[et - 1] = e[et - 1] + m

        def add_edge_table(self, etab):
            """contract (C09): the diagram with all these edges drawn"""
            for e in _it(dict(etab)):
                n1, n2 = dict.__getitem__(etab, e) if isinstance(etab, dict) else etab[e]
                for k, n in ((1, n1), (2, n2)):
                    if isinstance(n, int) and n < 0:
                        raise Unsupported('negative count')
                    if isinstance(n, SymInt2) or n:
                        m = self.eff(tuple(e))
                        self.bump(e[0], e[1], k, PP.of(n) * m)

        def remove_edge(self, e):
            self.remove_edges([e])

        def remove_edges(self, es):
            for e in _it(list(es)):
                if isinstance(e, OpaqueEdge):
                    raise Unsupported('context edge removed')
                self.eff(e)
                k = self.key(e[0], e[1])
                if k not in self.E or not (self.E[k][0].d or self.E[k][1].d):
                    raise Unsupported('removing an unknown edge')
                c = self.E[k]
                if len(e) == 3:
                    if not (c[e[2] - 1].is_const() and c[e[2] - 1].c() >= 1):
                        raise Unsupported('removing parallel edges')
                    c[e[2] - 1] = c[e[2] - 1] - 1
                elif self.single(e[0], e[1]):
                    self.E[k] = [PP(), PP()]
                else:
                    raise Unsupported('removing one of several edges')

        def remove_vertex(self, v):
            self.remove_vertices([v])

        def remove_vertices(self, vs):
            for v in _it(list(vs)):
                self.eff(v)
                b = self.base(v)
                if b.idx and set(b.idx) != set(v.idx):
                    raise Unsupported('removing a second member')
                if self.ext[b]:
                    raise Removed('a context vertex %r is removed' % v)
                self.order.remove(b)
                self.removed.append(b)
                del self.ty[b]
                self.E = {k: c for k, c in self.E.items() if b not in k}
                if b in self._in or b in self._out:
                    raise Removed('a boundary is removed')

        def remove_isolated_vertices(self):
            """contract: vertices without neighbours are turned into scalar factors; the map is unchanged"""

        def set_phase(self, vertex, phase):
            v, p = vertex, phase
            m = self.eff(v)
            b = self.base(v)
            if not m.is_const() or b is not v:
                if bundles_in(p) or (b is not v):
                    raise Unsupported('phase of a second member set')
            self.ph[b] = p

        def add_to_phase(self, v, p):
            m = self.eff(v)
            b = self.base(v)
            if b is not v:
                if any(i in st().all() for i in b.idx):
                    raise Unsupported('phase change of the second member of a pair')
                # outside a pair the second copy is just a generic member
            add = PP.of(p) * m
            self.ph[b] = mkphase(PP.of(self.ph[b]) + add) if add.syms() or not m.is_const() else self.ph[b] + p * int(m.c())

        def set_type(self, v, t):
            self.eff(v)
            b = self.base(v)
            if self.ext[b] and self.ty[b] != t:
                raise Removed('the type of a context vertex changes')
            self.ty[b] = VertexType(t)

        def set_edge_type(self, e, t):
            self.eff(e)
            k = self.key(e[0], e[1])
            c = self.E[k]
            if len(e) == 3:
                c[e[2] - 1] = c[e[2] - 1] - 1
                c[int(t) - 1] = c[int(t) - 1] + 1
            elif self.single(e[0], e[1]):
                self.E[k] = [PP(), PP()]
                self.E[k][int(t) - 1] = PP.const(1)
            else:
                raise Unsupported('edge type of parallel edges')

        def set_position(self, *a): pass
        def set_qubit(self, *a): pass
        def set_row(self, *a): pass
        def set_ground(self, v, flag=True):
            if flag:
                raise Unsupported('ground')
        def vdata(self, v, k, d=0): return d
        def vdata_keys(self, v): return []
        def copy(self, *a, **k): raise Unsupported('copy')
    return BG


class Removed(Exception):
    """the code breaks the frame: it removes or retypes a vertex whose other edges it does not know"""


# ---------------------------------------------------------------------------------------------- meaning
def vertex_kind(ty):
    ty = int(ty)
    if ty in (0, 1):
        return 'Z'
    if ty == 2:
        return 'X'
    if ty == 3:
        return 'H'
    raise Unsupported('vertex type %d' % ty)


def ew(ku, kv, et, a, b):
    """weight of one edge: (rational, exponent of sqrt2)"""
    had = et == 2
    if ku == 'X':
        had = not had
    if kv == 'X':
        had = not had
    hu, hv = ku == 'H', kv == 'H'
    if not hu and not hv:
        if had:
            return (Fraction(-1 if a and b else 1), -1)
        return (Fraction(1 if a == b else 0), 0)
    if hu and hv:
        if not had:
            return (Fraction([[2, 1], [1, 1]][a][b]), 0)
        return [[(Fraction(1), 1), (Fraction(0), 0)], [(Fraction(0), 0), (Fraction(-1), -1)]][a][b]
    t, y = (a, b) if hu else (b, a)
    if not had:
        return (Fraction(1) if t == 0 else Fraction(y), 0)
    if t == 0:
        return (Fraction(0 if y else 1), 1)
    return (Fraction(-1 if y else 1), -1)


class Term:
    """2^{p2/2} * amp * e^{i pi ph}: exponent polynomials, exact amplitude"""
    __slots__ = ('p2', 'ph', 'amp')

    def __init__(self, p2=None, ph=None, amp=None):
        self.p2, self.ph, self.amp = p2 or PP(), ph or PP(), amp if amp is not None else X.ONE

    def __mul__(self, o):
        return Term(self.p2 + o.p2, self.ph + o.ph, self.amp * o.amp)


class _View:
    pass


def split_bipartite(g):
    """Families of internal vertices that are completely connected to each other by Hadamard-like edges:
    prod_{a,c} (-1)^{z_a x_c} = 1/2 sum_{p,q} (-1)^{pq + p sum z_a + q sum x_c}, so two individual vertices p, q replace the edges."""
    pairs = {}
    for (u, v), c in g.E.items():
        if not (c[0].d or c[1].d) or not u.idx or not v.idx:
            continue
        bu, bv = g.base(u), g.base(v)
        if bu is bv or g.ext[bu] or g.ext[bv]:
            continue
        if len(bu.idx) != 1 or len(bv.idx) != 1:
            raise Unsupported('vertex indexed by two bundles')
        same = bu.idx[0][0] == bv.idx[0][0]
        if same and u.idx == v.idx and not any(k in g.E for k in (g.key(V(bu.name, ((bu.idx[0][0], 0),)), V(bv.name, ((bv.idx[0][0], 1),))),)):
            continue  # only the diagonal: an edge inside each member's own piece
        k = (bu, bv) if (bu.no <= bv.no) else (bv, bu)
        pairs.setdefault(k, {})[('d' if u.idx == v.idx else 'x%d' % (u if bu is k[0] else v).idx[0][1]) if same else 'c'] = (u, v, c)
    if not pairs:
        return g
    h = _View()
    h.order, h.ty, h.ph, h.ext, h.E = list(g.order), dict(g.ty), dict(g.ph), dict(g.ext), dict(g.E)
    h.base, h.io = g.base, None
    h.scalar = GScalar.__new__(GScalar)
    h.scalar.pow2, h.scalar.ph, h.scalar.amp = g.scalar.pow2, g.scalar.ph, g.scalar.amp
    kind = lambda v: vertex_kind(g.ty[v])
    adj = {}
    for (a, c), parts in pairs.items():
        if set(parts) not in ({'c'}, {'d', 'x0', 'x1'}):
            raise Unsupported('partial connection of two families: %s' % parts)
        for u, v, cnt in parts.values():
            had = cnt[1] if (kind(a) == 'X') == (kind(c) == 'X') else cnt[0]
            other = cnt[0] if had is cnt[1] else cnt[1]
            if other.d or not had.is_const() or had.c() != 1 or 'H' in (kind(a), kind(c)):
                raise Unsupported('edges between all members of two families')
            del h.E[(u, v)]
        adj.setdefault(a, set()).add(c)
        adj.setdefault(c, set()).add(a)
    p2 = PP()
    done = set()
    n = lambda f: PP.sym('n_' + f.idx[0][0])
    for f in sorted(adj, key=lambda x: x.no):
        if f in done:
            continue
        right = adj[f]
        left = adj[next(iter(right))]
        if any(adj[x] != left for x in right) or any(adj[x] != right for x in left) or left & right:
            raise Unsupported('families not completely bipartite')
        done |= left | right
        ends = []
        for side in (left, right):
            p = V('#%d_%s' % (len(done), 'pq'[len(ends)]))
            h.order.append(p)
            from pyzx.utils import VertexType
            h.ty[p], h.ph[p], h.ext[p] = VertexType.Z, 0, False
            for x in side:
                h.E[(p, x)] = [PP.const(1), PP()] if kind(x) == 'X' else [PP(), PP.const(1)]
                p2 = p2 + n(x)
            ends.append(p)
        h.E[tuple(ends)] = [PP(), PP.const(1)]
        p2 = p2 - 1
        for x in left:
            for y in right:
                p2 = p2 - n(x) * n(y)
    h.scalar.pow2 = h.scalar.pow2 + p2
    return h


def prep(g, extassign, subst):
    """the diagram for fixed values of the external individual vertices: for every valuation of the internal individual vertices
    (term of the individual part, {class: (weight of a member with value 0, with value 1)}, edges between bundles)"""
    verts = list(g.order)
    ind = [v for v in verts if not v.idx]
    fam = [v for v in verts if v.idx]
    for v in fam:
        if len(v.idx) != 1:
            raise Unsupported('vertex indexed by two bundles')
    classes = sorted({v.idx[0][0] for v in fam})
    kinds = {v: ('X' if int(g.ty[v]) == 2 else 'Z') if g.ext[v] else vertex_kind(g.ty[v]) for v in verts}  # other context vertices: legs
    E = [(k, [c[0].subst(subst), c[1].subst(subst)]) for k, c in g.E.items() if c[0].d or c[1].d]
    internal = [v for v in ind if not g.ext[v]]
    out = []
    base = Term(g.scalar.pow2, g.scalar.ph, g.scalar.amp)

    def vweight(v, y):
        """(phase PP or None, amp)"""
        p = g.ph[v]
        if kinds[v] == 'H':
            if y == 0:
                return PP(), X.ONE
            a = X.e(mkphase(PP.of(p)) if not isinstance(p, (SymPhase, int, Fraction)) else p)
            return PP(), a - 1
        if not y:
            return PP(), X.ONE
        return PP.of(p), X.ONE

    # edges grouped
    e_ind, e_fam, e_cross = [], {}, []
    for (u, v), c in E:
        iu, iv = set(u.idx), set(v.idx)
        if not iu and not iv:
            e_ind.append((u, v, c))
        elif iu == iv or not iu or not iv:
            cls = (iu or iv)
            e_fam.setdefault(next(iter(cls))[0], []).append((u, v, c))
        else:
            e_cross.append((u, v, c))
    for ys in itertools.product((0, 1), repeat=len(internal)):
        val = dict(extassign)
        val.update(zip(internal, ys))
        t = Term(base.p2, base.ph, base.amp)
        dead = False
        for v in ind:
            ph, a = vweight(v, val[v])
            t = Term(t.p2, t.ph + ph, t.amp * a)
        for u, v, c in e_ind:
            for et in (1, 2):
                n = c[et - 1]
                if not n.d:
                    continue
                if u is v and kinds[u] == 'H':
                    raise Unsupported('self-loop on an H-box')
                if not n.is_const() and 'H' in (kinds[u], kinds[v]):
                    raise Unsupported('symbolic multiplicity at an H-box')
                if u is v:
                    q, e2 = (Fraction(1), 0) if et == 1 else (Fraction(-1 if val[u] else 1), -1)
                else:
                    q, e2 = ew(kinds[u], kinds[v], et, val[u], val[v])
                t = powterm(t, q, e2, n)
                if t is None:
                    dead = True
                    break
            if dead:
                break
        if dead or not t.amp.d:
            continue
        per = {}
        for cls in classes:
            mem = [v for v in fam if v.idx[0][0] == cls and g.ext[v]]
            if len(mem) > 1:
                raise Unsupported('several external members per index')
            inner = [v for v in fam if v.idx[0][0] == cls and not g.ext[v]]
            n = PP.sym('n_' + cls).subst(subst)
            f = {}
            for y in ((0, 1) if mem else (0,)):
                tot = []
                for zs in itertools.product((0, 1), repeat=len(inner)):
                    vv = dict(val)
                    vv.update(zip(inner, zs))
                    if mem:
                        vv[mem[0]] = y
                    w = Term()
                    for v in inner + mem:
                        ph, a = vweight(v, vv[v])
                        w = Term(w.p2, w.ph + ph, w.amp * a)
                    ok = True
                    for u, v, c in e_fam.get(cls, []):
                        for et in (1, 2):
                            if not c[et - 1].d:
                                continue
                            if u is v:
                                if kinds[u] == 'H':
                                    raise Unsupported('self-loop on an H-box')
                                q, e2 = (Fraction(1), 0) if et == 1 else (Fraction(-1 if vv[u] else 1), -1)
                            else:
                                q, e2 = ew(kinds[u], kinds[v], et, vv[u], vv[v])
                            w = powterm(w, q, e2, c[et - 1])
                            if w is None:
                                ok = False
                                break
                        if not ok:
                            break
                    if ok and w.amp.d:
                        tot.append(w)
                f[y] = merge_mono(tot)
            if not mem:
                t = tpow(t, f[0], n)
                if t is None:
                    dead = True
                    break
            else:
                per[cls] = (f[0], f[1], n)
                if f[0] is None and f[1] is None:
                    dead = True  # n >= 1
                    break
        if not dead:
            out.append((t, per))
    cross = []
    for u, v, c in e_cross:
        # pairs of external members
        if len(u.idx) != 1 or len(v.idx) != 1:
            raise Unsupported('edge between families')
        if not (g.ext[g.base(u)] and g.ext[g.base(v)]):
            raise Unsupported('edges between all members of two families')
        cu, cv = u.idx[0][0], v.idx[0][0]
        for et in (1, 2):
            if c[et - 1].d:
                had = (et == 2) ^ (kinds[g.base(u)] == 'X') ^ (kinds[g.base(v)] == 'X')
                if not had:
                    raise Unsupported('plain edges between all members of bundles')
                cross.append((cu, cv, c[et - 1]))
    return out, cross


def meaning(prepared, case, subst):
    """terms for one case distinction: case maps a class to 'zero' (S_C = 0), 'mid' (0 < S_C < n_C), 'all' (S_C = n_C) or 'free'"""
    out = []
    for t, per in prepared[0]:
        for cls, (f0, f1, n) in per.items():
            cs = case[cls]
            if cs == 'zero':
                t = tpow(t, f0, n)
            elif cs == 'all':
                t = tpow(t, f1, n)
            elif cs == 'free' and (f0 is None or f1 is None):
                raise SplitS(cls)
            else:
                s = PP.sym('S_' + cls)
                t = tpow(t, f0, n - s)
                if t is not None:
                    t = tpow(t, f1, s)
            if t is None:
                break
        if t is None:
            continue
        for cu, cv, c in prepared[1]:
            su, sv = Sval(cu, case, subst), Sval(cv, case, subst)
            nu, nv = PP.sym('n_' + cu).subst(subst), PP.sym('n_' + cv).subst(subst)
            if cu == cv:
                pairs, prod = (nu * (nu - 1)) * PP.const(Fraction(1, 2)), (su * (su - 1)) * PP.const(Fraction(1, 2))
            else:
                pairs, prod = nu * nv, su * sv
            t = Term(t.p2 - pairs * c, t.ph + prod * c, t.amp)
        out.append(t)
    return out


def Sval(cls, case, subst):
    n = PP.sym('n_' + cls).subst(subst)
    return PP() if case[cls] == 'zero' else n if case[cls] == 'all' else PP.sym('S_' + cls)


def powterm(t, q, e2, n):
    """t * (q*sqrt2^e2)^n ; n a nonnegative integer polynomial; None if zero"""
    if n.is_const():
        k = int(n.c())
        if k == 0:
            return t
        if q == 0:
            return None
        return Term(t.p2 + PP.const(e2 * k), t.ph, t.amp * Amp.of(q ** k))
    if q == 1:
        return Term(t.p2 + n * PP.const(e2), t.ph, t.amp)
    if q == -1:
        return Term(t.p2 + n * PP.const(e2), t.ph + n, t.amp)
    raise Unsupported('symbolic multiplicity of a plain edge')


def merge_mono(terms):
    """a sum of terms as a single term (monomial) or None (zero)"""
    if not terms:
        return None
    p2 = terms[0].p2
    if len(terms) == 1 and len(terms[0].amp.d) == 1:
        (lf, q), = terms[0].amp.d.items()
        if q == 1 and not lf[1]:
            return Term(p2, terms[0].ph + PP.const(lf[0]), X.ONE)
    tot = X.ZERO
    for t in terms:
        if not (t.p2 - p2).is_const():
            raise Unsupported('non-uniform exponents inside a bundle')
        d = (t.p2 - p2).c()
        tot = tot + t.amp * X.sqrt2pow(int(d)) * X.e(mkphase(t.ph))
    p = Path.current
    if p:
        tot = tot.subst(p.subst)
    if tot.is_zero():
        return None
    tot = simplify_amp(tot)
    if tot is None:
        raise Unsupported('factor of a bundle member is not a monomial')
    k, v = tot
    return Term(p2 + PP.const(v[1]), lf_to_pp(k), Amp.of(v[0]))


def simplify_amp(a):
    """write a as q * sqrt2^k * e^{i pi lf} with q = +-2^m, if possible"""
    lfs = list(a.d)
    for base in lfs:
        for cc in [Fraction(j, 8) for j in range(16)]:
            u = X.canon(X.lf_add(base, (cc, ())))
            b = a * Amp({X.canon(X.lf_scale(u, -1)): Fraction(1)})
            for k in (0, 1):
                c = b * (X.SQ2 if k else X.ONE)
                try:
                    q = c.rational() if not any(x[1] for x in c.d) else None
                except Unsupported:
                    q = None
                if q:
                    m = 0
                    qa = abs(q)
                    while qa.denominator > 1:
                        qa *= 2
                        m -= 1
                    while qa.numerator % 2 == 0:
                        qa /= 2
                        m += 1
                    if qa == 1:
                        sign = 1 if q > 0 else -1
                        if sign < 0:
                            u = X.canon(X.lf_add(u, (Fraction(1), ())))
                        return u, (Fraction(1), 2 * m - k)
    return None


def lf_to_pp(lf):
    d = {}
    for s, v in lf[1]:
        m = _mono.get(s, (s,))
        d[m] = d.get(m, 0) + v
    if lf[0]:
        d[()] = lf[0]
    return PP(d)


def tpow(t, f, n):
    """t * f^n"""
    if n.is_const() and n.c() == 0:
        return t
    if f is None:
        return None  # 0^n with n >= 1
    if not (f.amp - 1).is_zero():
        raise Unsupported('rational factor of a bundle member')
    return Term(t.p2 + f.p2 * n, t.ph + f.ph * n, t.amp)


def _res_plan(terms):
    """modulus needed for every S/n symbol"""
    mod = {}
    for t in terms:
        for k, v in t.ph.d.items():
            ints = [s for s in k if s.startswith(('S_', 'n_'))]
            for s in ints:
                reals = [x for x in k if x not in ints]
                if reals:
                    continue
                den = v.denominator
                m = 2 * den
                mod[s] = mod.get(s, 1) * m // gcd(mod.get(s, 1), m)
    return mod


def compare(A, B, upto=False):
    """sums of terms equal for all values; returns (ok, detail).  upto: proportional by a fixed nonzero constant is NOT handled here"""
    terms = A + B
    mod = _res_plan(terms)
    syms = sorted(mod)
    if len(syms) > 6 or _prod(mod.values()) > 20000:
        raise Unsupported('residue split too large: %s' % mod)
    p = Path.current
    for rs in itertools.product(*[range(mod[s]) for s in syms]):
        sub = {}
        for s, r in zip(syms, rs):
            kk = 'k_' + s
            X.sym(kk, True)
            sub[s] = PP.const(r) + PP.sym(kk) * PP.const(mod[s])
        tot = {}
        for sign, ts in ((1, A), (-1, B)):
            for t in ts:
                p2 = t.p2.subst(sub)
                c = p2.c()
                if c.denominator != 1:
                    raise Unsupported('fractional exponent')
                key = (p2 - c).key()
                ph = mkphase(t.ph.subst(sub))
                a = t.amp * X.sqrt2pow(int(c)) * X.e(ph) * sign
                if p:
                    a = a.subst(p.subst)
                tot[key] = tot.get(key, X.ZERO) + a
        for key, a in tot.items():
            if not a.is_zero():
                return False, 'residues %s, exponent class %s: difference %r' % (dict(zip(syms, rs)), key, a)
    return True, None


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


class SplitS(Exception):
    """the cases S_C = 0, 0 < S_C < n_C, S_C = n_C have to be separated"""


def legs(g, v):
    """number of edges between an external vertex and the region"""
    t = PP()
    for (a, b), c in g.E.items():
        if a is v and b is v:
            raise Unsupported('self-loop on an external vertex')
        if a is v or b is v or v in (g.base(a), g.base(b)):
            w = b if (a is v or g.base(a) is v) else a
            t = t + (c[0] + c[1]) * mult(set(w.idx) - set(v.idx))
    return t.subst(nsub())


def equal_maps(g0, g1, classes, proportional=False):
    """g0, g1: ghost diagrams (or Snap) over the same external vertices; equal for every context?  returns (ok, detail).
    An external Z/X vertex carries one value shared by its edges; any other external vertex must keep exactly one edge (a leg)."""
    ext0 = [v for v in g0.order if g0.ext[v]]
    ext1 = [v for v in g1.order if g1.ext[v]]
    if set(ext0) != set(ext1):
        return False, 'context vertices differ'
    for v in ext0:
        if g0.ty[v] != g1.ty[v]:
            return False, 'the type of %r changed' % v
        if int(g0.ty[v]) not in (1, 2):
            l0, l1 = legs(g0, v), legs(g1, v)
            if not (l0.is_const() and l0.c() == 1):
                raise Unsupported('context vertex %r with %r legs' % (v, l0))
            if not (l1.is_const() and l1.c() == 1):
                return False, '%r had one edge and now has %r' % (v, l1)
            d = PP.of(g0.ph[v]) - PP.of(g1.ph[v])
            if d.d:
                return False, 'phase of %r changed' % v
    ext0 = [v for v in ext0 if not v.idx]
    sub = nsub()
    cls = [c for c in classes]
    n1 = {c: PP.sym('n_' + c).subst(sub) for c in cls}
    for c in cls:
        if n1[c].is_const() and n1[c].c() < 1:
            raise PathAbort()
    pairs = []
    for ys in itertools.product((0, 1), repeat=len(ext0)):
        ea = dict(zip(ext0, ys))
        split = []
        done = False
        P0, P1 = prep(split_bipartite(g0), ea, sub), prep(split_bipartite(g1), ea, sub)
        while not done:
            done, batch = True, []
            for cs in itertools.product(('zero', 'mid', 'all'), repeat=len(split)):
                case = {c: 'free' for c in cls}
                case.update(zip(split, cs))
                if any(n1[c].is_const() and n1[c].c() == 1 and case[c] == 'mid' for c in cls):
                    continue
                try:
                    A = meaning(P0, case, sub)
                    B = meaning(P1, case, sub)
                except SplitS as e:
                    split.append(e.args[0])
                    done = False
                    break
                A, B = [fixcase(t, case, sub) for t in A], [fixcase(t, case, sub) for t in B]
                where = 'values %s, cases %s' % ({repr(k): v for k, v in ea.items()}, case)
                if proportional:
                    batch.append((A, B, where))
                    continue
                ok, why = compare(A, B)
                if not ok:
                    return False, '%s: %s' % (where, why)
            if done:
                pairs += batch
    return compare_up_to(pairs) if proportional else (True, None)


def conj(t):
    return Term(t.p2, -t.ph, X.Amp({X.canon(X.lf_scale(k, -1)): v for k, v in t.amp.d.items()}))


def compare_up_to(pairs):
    """A = r * B in all cases for one r of constant nonzero modulus: with a reference case (A0, B0),
    A * B0 = B * A0 in every case and A0 * conj(A0) = 2^{k/2} * B0 * conj(B0) (so r = A0/B0 extends to the zeros of B0)"""
    live = [(A, B, d) for A, B, d in pairs if A or B]
    if not live:
        return True, None
    ref = None
    for A, B, d in sorted(live, key=lambda x: len(x[0]) * len(x[1])):
        zero = lambda t: Term(*[q.subst({s: PP() for s in q.syms() if s.startswith('S_')}) for q in (t.p2, t.ph)], t.amp)
        A0, B0 = [zero(t) for t in A], [zero(t) for t in B]
        za, zb = compare(A0, [])[0], compare(B0, [])[0]
        if za != zb:
            return False, '%s: one side vanishes' % d
        if not za:
            ref = A0, B0, d
            break
    if ref is None:
        raise Unsupported('no reference case')
    A0, B0, d0 = ref
    AA, BB = [a * conj(b) for a in A0 for b in A0], [a * conj(b) for a in B0 for b in B0]
    shifts = []
    for a in AA:
        for b in BB:
            q = a.p2 - b.p2
            q = q - PP.const(q.c())
            if not any((q - x).d == {} for x in shifts):
                shifts.append(q)
    for q in shifts:
        if any(compare(AA, [Term(t.p2 + q + PP.const(k), t.ph, t.amp) for t in BB])[0] for k in sorted(range(-12, 13), key=abs)):
            break
    else:
        return False, '%s: the factor between the two maps has no constant modulus' % d0
    for A, B, d in live:
        ok, w = compare([a * b for a in A for b in B0], [b * a for b in B for a in A0])
        if not ok:
            return False, '%s against %s: %s' % (d, d0, w)
    return True, None


def fixcase(t, case, sub):
    s = dict(sub)
    for c, k in case.items():
        if k == 'zero':
            s['S_' + c] = PP()
        elif k == 'all':
            s['S_' + c] = PP.sym('n_' + c).subst(sub)
    return Term(t.p2.subst(s), t.ph.subst(s), t.amp)


class Snap:
    """frozen copy of a ghost diagram, for meaning()"""
    def __init__(self, g):
        s = g.clone_state()
        self.order, self.ty, self.ph, self.ext, self.E = s['order'], s['ty'], s['ph'], s['ext'], s['E']
        self.scalar = GScalar.__new__(GScalar)
        self.scalar.pow2, self.scalar.ph, self.scalar.amp = s['sc']
        self.io = s['io']

    def base(self, v):
        return v if v in self.ty else V(v.name, tuple((c, 0) for c, _ in v.idx))
