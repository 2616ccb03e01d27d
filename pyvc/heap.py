"""Symbolic heap with lazy initialisation: integers (labels, counts) are z3 terms, the dictionaries of a data structure hold an arbitrary
initial content that is materialised when it is looked at, subject to the class invariant; equality of labels forks the path.  A loop over
an arbitrary collection is cut by an invariant (Cut) or, when its iterations write only under their own key, run for one generic element."""
import itertools
import z3
from .core import path, Unsupported, PathAbort

ABSENT = type('Absent', (), {'__repr__': lambda s: 'absent', '__bool__': lambda s: False})()
_n = itertools.count()


class Z:
    """an integer term"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def fresh(name='i'):
        return Z(z3.Int('%s!%d' % (name, next(_n))))

    @staticmethod
    def of(x):
        if isinstance(x, Z):
            return x.t
        if isinstance(x, bool) or not isinstance(x, int):
            return None
        return z3.IntVal(int(x))

    def _bin(self, o, f):
        b = Z.of(o)
        if b is None:
            return NotImplemented
        r = z3.simplify(f(self.t, b))
        return int(r.as_long()) if z3.is_int_value(r) else Z(r)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return Z(z3.simplify(-self.t))
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)

    def _cmp(self, o, f):
        b = Z.of(o)
        if b is None:
            if isinstance(o, float):
                b = z3.RealVal(o)
            else:
                return NotImplemented
        return path().branch(f(self.t, b))

    def __eq__(self, o):
        if self is o:
            return True
        if Z.of(o) is None:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return self != 0
    def __hash__(self): return 0
    def __index__(self): raise Unsupported('a symbolic integer is used as a machine integer')
    __int__ = __float__ = __index__
    def __repr__(self): return str(self.t)


class SRange:
    """range over symbolic bounds; iteration visits one generic element unless the length is a known number"""
    def __init__(self, *a):
        self.lo, self.hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) > 2:
            raise Unsupported('symbolic range with a step')
        self.n = self.hi - self.lo
        self.generic = None

    def __iter__(self):
        if isinstance(self.n, int):
            for i in range(self.n):
                yield self.lo + i
            return
        if not path().choose(2):
            path().assume(Z.of(self.n) <= 0)
            if not path().feasible():
                raise PathAbort()
            return
        i = Z.fresh('i')
        path().assume(z3.And(Z.of(self.lo) <= i.t, i.t < Z.of(self.hi)))
        if not path().feasible():
            raise PathAbort()
        path().memo.setdefault('generic', []).append((i, self.lo, self.hi))
        yield i

    def __len__(self):
        if isinstance(self.n, int):
            return max(0, self.n)
        raise Unsupported('length of a symbolic range')

    def __getitem__(self, k):
        if isinstance(k, int) and k >= 0:
            r = self.lo + k
            if not (r < self.hi if isinstance(r, Z) else self.hi > r):
                raise IndexError(k)
            return r
        if k == -1:
            return self.hi - 1
        raise Unsupported('index into a symbolic range')


def srange(*a):
    return SRange(*a) if any(isinstance(x, Z) for x in a) else range(*a)


class Base:
    """arbitrary initial content of a dictionary, the same for every look: make(key) -> value or ABSENT, called once per distinct key"""
    def __init__(self, make):
        self.make = make
        self.known = []

    def get(self, k):
        for k2, v in self.known:
            if k == k2 if not isinstance(k, tuple) else all(a == b for a, b in zip(k, k2)):
                return v
        v = self.make(k)
        self.known.append((k, v))
        return v


class LDict:
    """a dictionary with content base, plus the writes since"""
    def __init__(self, base, loop=None):
        self.base, self.w, self.loop = base, [], loop

    def _get(self, k):
        for k2, v in reversed(self.w):
            if k == k2:
                return v
        return self.base.get(k)

    def __contains__(self, k):
        return self._get(k) is not ABSENT

    def __getitem__(self, k):
        v = self._get(k)
        if v is ABSENT:
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        v = self._get(k)
        return d if v is ABSENT else v

    def __setitem__(self, k, v):
        self.w.append((k, v))

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        self.w.append((k, ABSENT))

    def pop(self, k, *d):
        v = self._get(k)
        if v is ABSENT:
            if d:
                return d[0]
            raise KeyError(k)
        self.w.append((k, ABSENT))
        return v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def keys(self):
        return LKeys(self)

    def __iter__(self):
        if self.loop is None:
            raise Unsupported('loop over an arbitrary dictionary')
        return self.loop(self, 'keys')

    def items(self):
        if self.loop is None:
            raise Unsupported('loop over an arbitrary dictionary')
        return self.loop(self, 'items')

    def values(self):
        if self.loop is None:
            raise Unsupported('loop over an arbitrary dictionary')
        return self.loop(self, 'values')

    def __len__(self):
        raise Unsupported('size of an arbitrary dictionary')

    def __bool__(self):
        raise Unsupported('emptiness of an arbitrary dictionary')


class LKeys:
    def __init__(self, d): self.d = d
    def __iter__(self): return iter(self.d)
    def __contains__(self, k): return k in self.d
    def __len__(self): return len(self.d)


class LSet:
    def __init__(self, base): self.d = LDict(base)
    def __contains__(self, k): return k in self.d
    def add(self, k): self.d[k] = True
    def discard(self, k): self.d.w.append((k, ABSENT))

    def remove(self, k):
        if k not in self.d:
            raise KeyError(k)
        self.d.w.append((k, ABSENT))
    def __iter__(self): raise Unsupported('loop over an arbitrary set')
    def __len__(self): raise Unsupported('size of an arbitrary set')


def presence():
    """an arbitrary yes/no of the initial state"""
    return path().choose(2) == 0


def assume(t):
    path().assume(t)
    if not path().feasible():
        raise PathAbort()
