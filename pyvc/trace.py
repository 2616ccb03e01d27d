"""Gate lists per wire with arbitrary contents: the real optimiser code runs on lists that consist of explicit gates and *segments*
(arbitrarily many unknown gates, at most known to be diagonal in the Z or in the X basis of that wire).  A loop or membership test over
a list splits a segment at an arbitrary gate of every kind that may occur there.

Meaning of a family of lists: gates that share a wire on which they are not both diagonal in the same basis keep the order they have
there, all other gates commute; the denotation is the product in any order that respects this.

Frontier lemma (the argument of the split): with explicit gates e1..ek, the product is  D . ek ... e1 . R  with R everything that need
not come after the explicit gates and D the rest.  D is diagonal, on every wire, in the basis of the segments it can have gates of,
with arbitrary operators on the other wires as coefficients; so an identity between two such products is checked coefficient by
coefficient."""
import itertools
import numpy as np
from fractions import Fraction
from . import exact as E
from .core import Unsupported, PathAbort, path

EXT = 7   # stands for any other wire


def wires_of(g):
    return [g.control, g.target] if g.name in ('CNOT', 'CZ') else [g.target]


def typ(g, w):
    """the basis of wire w in which the gate is diagonal"""
    if g.name == 'CNOT':
        return 'Z' if g.control == w else 'X'
    if g.name == 'CZ' or any(c.__name__ == 'ZPhase' for c in type(g).__mro__):
        return 'Z'
    return 'X' if g.name == 'NOT' else None


class Seg:
    def __init__(self, wire, typ, avail, only=None):
        self.wire, self.typ, self.avail, self.parts, self.nonempty = wire, typ, avail, None, False
        self.only = only      # kinds that may occur

    def __repr__(self):
        return '<%s%s%s>' % ('A' if self.avail else 'P', self.wire, self.typ or '')


def flatten(items):
    out = []
    for x in items:
        if isinstance(x, Seg) and x.parts is not None:
            out += flatten(x.parts)
        else:
            out.append(x)
    return out


class World:
    """the lists of one optimiser state; explicit gates are recorded with their state at the beginning"""
    def __init__(self, mod, wires):
        self.mod, self.wires, self.version, self.n = mod, wires, 0, 0
        self.start, self.floats, self.old, self.notin = {}, {}, {}, set()

    def other(self, w):
        return [x for x in self.wires if x != w]

    def kinds(self, seg):
        w = seg.wire
        if seg.only:
            return seg.only
        k = []
        if seg.typ != 'X':
            k += [('ZPhase',), ('S', 0), ('S', 1)]
            for o in self.other(w) + [EXT]:
                k += [('CZ', o), ('CNOT', w, o)]
        if seg.typ != 'Z':
            k += [('CNOT', o, w) for o in self.other(w) + [EXT]]
        if seg.typ is None:
            k += [('HAD',)]
        return k

    def fresh(self, kind, w):
        m = self.mod
        self.n += 1
        if kind[0] == 'ZPhase':
            g = m.ZPhase(w, E.phase_sym('z%d' % self.n))
        elif kind[0] == 'S':
            g = m.S(w, adjoint=bool(kind[1]))
        elif kind[0] == 'HAD':
            g = m.HAD(w)
        elif kind[0] == 'CZ':
            g = m.CZ(*sorted((w, kind[1])))
        else:
            g = m.CNOT(kind[1], kind[2])
        g.index = self.n
        self.start[id(g)] = (g, typ, self.matrix_data(g))
        self.floats[id(g)] = [x for x in wires_of(g) if x != w]
        return g

    def matrix_data(self, g):
        return (g.name, getattr(g, 'control', None), g.target, getattr(g, 'phase', None), {w: typ(g, w) for w in wires_of(g)})

    def split(self, seg, before, g, after):
        """seg = before ++ [g] ++ after"""
        assert seg.parts is None
        seg.parts = [x for x in (before, g, after) if x is not None]

    def part(self, seg, typ_='same'):
        return Seg(seg.wire, seg.typ if typ_ == 'same' else typ_, seg.avail, seg.only)


class Len:
    def __init__(self, lst, neg=False):
        self.lst, self.neg = lst, neg

    def __neg__(self): return Len(self.lst, not self.neg)

    def _at_least(self, n):
        """forks on len >= n"""
        if n <= 0:
            return True
        parts = self.lst.flat()
        sure = sum(1 for p in parts if not isinstance(p, Seg) or p.nonempty)
        if sure >= n:
            return True
        if not any(isinstance(p, Seg) for p in parts):
            return False
        if n == 1:
            return bool(self.lst)
        if path().choose(2) == 0:
            self.lst.atleast = max(self.lst.atleast, n)
            return True
        return False

    def __gt__(self, n): return self._at_least(n + 1)
    def __ge__(self, n): return self._at_least(n)
    def __lt__(self, n): return not self._at_least(n)
    def __le__(self, n): return not self._at_least(n + 1)
    def __bool__(self): return bool(self.lst)

    def __eq__(self, n):
        if n == 0:
            return not bool(self.lst)
        raise Unsupported('len == %r' % (n,))
    def __ne__(self, n): return not self == n
    __hash__ = None


class Idx:
    def __init__(self, lst, item):
        self.lst, self.item = lst, item


class SegList:
    def __init__(self, W, wire, role, items):
        self.W, self.wire, self.role, self.items, self.atleast = W, wire, role, list(items), 0

    def flat(self):
        return flatten(self.items)

    def _edit(self):
        self.items = self.flat()
        self.W.version += 1
        return self.items

    def copy(self):
        return SegList(self.W, self.wire, self.role, self.items)

    def append(self, g): self._edit().append(g)

    def extend(self, gs):
        for g in gs:
            self.append(g)

    # ---- looking
    def __iter__(self): return self._iter(False)
    def __reversed__(self): return self._iter(True)

    def _iter(self, rev):
        W = self.W
        parts = self.flat()
        if rev:
            parts = parts[::-1]
        for p in parts:
            if not isinstance(p, Seg):
                yield p
                continue
            fl = [] if p.avail else [g for g, _, d in W.start.values() if self.wire in W.floats[id(g)]]
            ks = W.kinds(p)
            n = path().choose(1 + len(ks) + 2 * len(fl))
            if n == 0:      # the segment has no gate the loop stops at
                continue
            v = W.version
            if n <= len(ks):
                g = W.fresh(ks[n - 1], self.wire)
                seen, rest = W.part(p), W.part(p)
                W.split(p, rest if rev else seen, g, seen if rev else rest)
                yield g
                if W.version != v:
                    raise Unsupported('loop that edits the lists and goes on')
                raise PathAbort()     # same state as before this iteration: covered by the other paths
            g = fl[(n - 1 - len(ks)) // 2]
            if (n - 1 - len(ks)) % 2:
                # some gate of another kind than the run of g lies between: does the loop pass it?
                bad = [k for k in ks if k[0] == 'HAD' or self._ktyp(k) != typ(g, self.wire)]
                b = W.fresh(bad[path().choose(len(bad))], self.wire)
                del W.start[id(b)]
                yield b
                if W.version != v:
                    raise Unsupported('loop that edits the lists and goes on')
                seen = W.part(p)
            else:
                seen = W.part(p, typ(g, self.wire))
            rest = W.part(p)
            W.split(p, rest if rev else seen, g, seen if rev else rest)
            W.floats[id(g)].remove(self.wire)
            yield g
            if W.version != v:
                raise Unsupported('loop that edits the lists and goes on')
            raise PathAbort()

    def _ktyp(self, k):
        return 'X' if k[0] == 'CNOT' and k[2] == self.wire else None if k[0] == 'HAD' else 'Z'

    def __contains__(self, g):
        if any(x is g for x in self.flat()):
            return True
        W = self.W
        if self.wire not in W.floats.get(id(g), ()):
            return False
        if self.role == 'gates':
            return True
        if (id(g), self.wire) in W.notin:
            return False
        segs = [p for p in self.flat() if isinstance(p, Seg) and p.avail and p.typ == typ(g, self.wire) and not p.only]
        if not segs or path().choose(2):
            W.notin.add((id(g), self.wire))
            return False
        W.split(segs[0], W.part(segs[0]), g, W.part(segs[0]))
        W.floats[id(g)].remove(self.wire)
        return True

    def __bool__(self):
        parts = self.flat()
        if any(not isinstance(p, Seg) or p.nonempty for p in parts) or self.atleast:
            return True
        for p in parts:
            if path().choose(2) == 0:
                p.nonempty = True
                return True
            p.parts = []
        return False

    def __len__(self):
        raise Unsupported('len')

    def _peel(self, k):
        """the last k items are explicit gates"""
        W = self.W
        while True:
            parts = self.flat()
            ex = 0
            while ex < len(parts) and not isinstance(parts[-1 - ex], Seg):
                ex += 1
            if ex >= k:
                return parts
            if ex == len(parts):
                if self.atleast >= k:
                    raise PathAbort()
                raise IndexError('list index out of range')
            s = parts[-1 - ex]
            ks = W.kinds(s)
            n = path().choose(1 + len(ks))
            if n == 0:
                if s.nonempty:
                    raise PathAbort()
                s.parts = []
                continue
            g = W.fresh(ks[n - 1], self.wire)
            W.split(s, W.part(s), g, None)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.step is None and isinstance(i.stop, Len) and i.stop.neg:
                tail = i.stop.lst
                if not bool(tail):
                    return SegList(self.W, self.wire, 'prefix', [])
                a, b = self.flat(), tail.flat()
                if len(b) > len(a) or any(x is not y for x, y in zip(a[len(a) - len(b):], b)):
                    raise Unsupported('slice up to another list that is not the tail')
                return SegList(self.W, self.wire, 'prefix', a[:len(a) - len(b)])
            if i.start is None and i.stop is None and i.step in (None, -1):
                return self.copy() if i.step is None else self._iter(True)
            raise Unsupported('slice of a list')
        if isinstance(i, int) and i < 0:
            return self._peel(-i)[i]
        raise Unsupported('index of a list')

    # ---- editing
    def _place(self, g):
        """g is in the list of this wire, but nothing is known about where"""
        W = self.W
        segs = [p for p in self.flat() if isinstance(p, Seg) and not p.avail]
        av = [p for p in self.flat() if isinstance(p, Seg) and p.avail and p.typ == typ(g, self.wire) and not p.only]
        if (id(g), self.wire) not in W.notin and av and path().choose(2):
            segs = av
        elif not segs:
            raise PathAbort()
        W.split(segs[0], W.part(segs[0]), g, W.part(segs[0]))
        W.floats[id(g)].remove(self.wire)

    def remove(self, g):
        if self.role == 'gates' and self.wire in self.W.floats.get(id(g), ()):
            self._place(g)
        if self.role == 'available' and g not in self:
            raise ValueError('list.remove(x): x not in list')
        items = self._edit()
        for k, x in enumerate(items):
            if x is g:
                del items[k]
                return
        raise ValueError('list.remove(x): x not in list')

    def insert(self, i, g):
        if isinstance(i, Len) and i.neg:
            a, b = self.flat(), i.lst.flat()
            if not b:
                k = 0
            else:
                if len(b) > len(a) or any(x is not y for x, y in zip(a[len(a) - len(b):], b)):
                    raise Unsupported('insertion before another list that is not the tail')
                k = len(a) - len(b)
            self._edit().insert(k, g)
            return
        if isinstance(i, int) and i < 0:
            n = len(self._peel(-i))
            self._edit().insert(n + i, g)
            return
        raise Unsupported('insert')

    def pop(self, i=-1):
        if isinstance(i, Idx):
            if flatten(i.lst.items) != self.flat() and i.lst is not self:
                raise Unsupported('index of another list')
            g = i.item
        elif i == -1:
            g = self._peel(1)[-1]
        else:
            raise Unsupported('pop')
        items = self._edit()
        del items[[k for k, x in enumerate(items) if x is g][0]]
        return g


def _len(x):
    return Len(x) if isinstance(x, SegList) else len(x)


def _list(*a):
    if a and (isinstance(a[0], SegList) or type(a[0]).__name__ == 'generator'):
        return a[0]
    return list(*a)


def _enumerate(x, *a):
    if isinstance(x, SegList):
        return ((Idx(x, g), g) for g in x)
    return enumerate(x, *a)


def _reversed(x):
    return reversed(x)


BUILTINS = dict(len=_len, list=_list, enumerate=_enumerate)


# ---------------------------------------------------------------- meaning
def gate_matrix(d):
    name, c, t, ph, _ = d
    if name == 'HAD':
        return E.H, [t]
    if name == 'NOT':
        return E.X, [t]
    if name == 'CNOT':
        return E.ctrl(E.X), [c, t]
    if name == 'CZ':
        return E.ctrl(E.zp(1)), [c, t]
    return E.zp(ph), [t]


def plain(l):
    return l.flat() if isinstance(l, SegList) else flatten(list(l))


def units(t):
    z = [E.arr([[1, 0], [0, 0]]), E.arr([[0, 0], [0, 1]])]
    if t == 'I':
        return [E.I2]
    if t == 'Z':
        return z
    if t == 'X':
        return [E.H.dot(m).dot(E.H) for m in z]
    return z + [E.arr([[0, 1], [0, 0]]), E.arr([[0, 0], [1, 0]])]


class Meaning:
    """old and new lists as products of R, D and explicit gates; raises Mismatch with the reason"""
    def __init__(self, W, old, new, extra=(), move_all=False):
        self.W = W
        old = {w: flatten(l) for w, l in old.items()}
        new = {w: plain(l) for w, l in new.items()}
        started = {id(g): d for g, _, d in W.start.values()}
        present = {}
        for w, l in new.items():
            for x in l:
                if not isinstance(x, Seg):
                    present.setdefault(id(x), (x, []))[1].append(w)
        for i, (g, ws) in present.items():
            want = [w for w in wires_of(g) if w in new]
            got = [w for w in ws] + [w for w in W.floats.get(i, ()) if w in new]
            if sorted(want) != sorted(got):
                raise Mismatch('%s is in the lists of the wires %s' % (g, sorted(got)))
        for i, d in started.items():
            # every gate that was there is either still in all its lists or in none
            if i in present:
                continue
            ws = [w for w in ([d[1]] if d[1] is not None else []) + [d[2]] if w in new]
            if any(w in W.floats[i] for w in ws):
                raise Mismatch('a gate was removed from one of its lists only')
        # explicit gates that did not move and did not change are part of the segments
        moved = set()
        for w in new:
            for a, l, m in ((1, old[w], new[w]), (0, new[w], old[w])):
                ids = {id(y) for y in m}
                moved |= {id(x) for x in l if id(x) not in ids and not isinstance(x, Seg)}
            common = [x for x in new[w] if any(x is y for y in old[w])]
            base = [x for x in old[w] if any(x is y for y in new[w])]
            # order of the common items: whatever is out of order counts as moved
            for k, x in enumerate(common):
                if not isinstance(x, Seg):
                    j = [i for i, y in enumerate(base) if y is x][0]
                    if {id(y) for y in common[:k]} != {id(y) for y in base[:j]}:
                        moved.add(id(x))
        for i, (g, ws) in present.items():
            if i in started and self.key(W.matrix_data(g)) != self.key(started[i]):
                moved.add(i)
        if move_all:
            moved |= {i for i in started if not W.floats[i]}
        self.stay = {i for i in started if i not in moved}
        self.changed_old = [d for i, d in started.items() if i in moved]
        self.changed_new = [W.matrix_data(g) for i, (g, ws) in present.items() if i in moved]
        for w in new:
            so, sn = [[x for x in l if isinstance(x, Seg) or id(x) in self.stay] for l in (old[w], new[w])]
            if {id(x) for x in so} != {id(x) for x in sn}:
                raise Mismatch('gates of wire %s are lost' % w)
            for i, x in enumerate(sn):
                for y in sn[i + 1:]:
                    if [id(z) for z in so].index(id(x)) > [id(z) for z in so].index(id(y)) and not self.commute(self.t(x, w), self.t(y, w)):
                        raise Mismatch('gates of wire %s change their order' % w)
        self.moved = moved
        self.member, self.dtyp = {}, {}
        for w in old:
            ts = set()
            ex = [k for k, x in enumerate(old[w]) if id(x) in moved]
            for k, x in enumerate(old[w]):
                if id(x) in moved:
                    continue
                bef = any(j > k and not self.commute(self.t(old[w][j], w, started), self.t(x, w)) for j in ex)
                aft = any(j < k and not self.commute(self.t(old[w][j], w, started), self.t(x, w)) for j in ex)
                if bef and aft:
                    raise Unsupported('gates between explicit gates')
                m = {'R'} if bef or not self.changed_old else {'D'} if aft else {'R', 'D'}
                self.member[(id(x), w)] = m
                if 'D' in m:
                    ts.add(self.t(x, w))
            if any(w in W.floats[i] for i in started if i in moved):
                self.dtyp[w] = 'G'
                continue
            self.dtyp[w] = 'I' if not ts else ts.pop() if len(ts) == 1 and None not in ts else 'G'
        # D: what must come after the explicit gates, so each of its gates comes after one of the direct successors
        succ = [k for k, m in self.member.items() if m == {'D'}]
        if not any(w in W.floats[i] for w in old for i in started if i in moved):
            for w in old:
                pos = {id(x): k for k, x in enumerate(old[w])}
                for x in old[w]:
                    if self.member.get((id(x), w)) == {'R', 'D'} and all(
                            v == w and pos[i] > pos[id(x)] and not self.commute(self.t(x, w), self.t(old[w][pos[i]], w)) for i, v in succ):
                        self.member[(id(x), w)] = {'R'}
                ts = {self.t(x, w) for x in old[w] if 'D' in self.member.get((id(x), w), ())}
                self.dtyp[w] = 'I' if not ts else ts.pop() if len(ts) == 1 and None not in ts else 'G'
        self.started = started
        self.old_order = self.order(old, started)
        self.new_order = self.order(new, None)
        data = self.changed_old + self.changed_new
        self.touched = sorted({w for d in data for w in (d[1], d[2]) if w is not None} | set(extra))

    @staticmethod
    def key(d):
        return d[:3] + (d[3].lf if hasattr(d[3], 'lf') else d[3],)

    @staticmethod
    def commute(a, b):
        return a is not None and a == b

    def t(self, x, w, data=None):
        if isinstance(x, Seg):
            return x.typ
        if data is not None and id(x) in data:
            return data[id(x)][4][w]
        return typ(x, w)

    def order(self, lists, data):
        edges, nodes, objs = {('R', 'D')}, ['R'], {}
        for w, l in lists.items():
            for k, x in enumerate(l):
                if id(x) in self.moved:
                    objs[id(x)] = x
                    if id(x) not in nodes:
                        nodes.append(id(x))
                for y in l[k + 1:]:
                    if id(x) not in self.moved and id(y) not in self.moved or self.commute(self.t(x, w, data), self.t(y, w, data)):
                        continue
                    a = {id(x)} if id(x) in self.moved else self.member[(id(x), w)]
                    b = {id(y)} if id(y) in self.moved else self.member[(id(y), w)]
                    edges |= {(p, q) for p in a for q in b if p != q}
        nodes.append('D')
        out = []
        while nodes:
            free = [n for n in nodes if not any((m, n) in edges for m in nodes if m != n)]
            if not free:
                raise Mismatch('the gates cannot be put in an order: a gate would have to come both before and after the gates around it')
            n = free[0]
            nodes.remove(n)
            out.append(n)
        if out[0] != 'R':
            raise Mismatch('a gate is placed before gates that were there')
        return [(n, None if n in ('R', 'D') else (self.started[n] if data is not None else self.W.matrix_data(objs[n]))) for n in out]

    def product(self, order, ws, unit):
        m = E.eye(2 ** len(ws))
        for n, d in order:
            if n == 'R':
                continue
            if n == 'D':
                for w, u in zip(ws, unit):
                    m = E.on_qubits(u, [ws.index(w)], len(ws)).dot(m)
                continue
            g, on = gate_matrix(d)
            m = E.on_qubits(g, [ws.index(x) for x in on], len(ws)).dot(m)
        return m

    def check(self, left_old, left_new):
        """left_old . old = left_new . new up to one factor (left: functions of the wire list)"""
        ws = self.touched
        A, B = [], []
        empty = not self.changed_old
        for u in itertools.product(*[units('I' if empty else self.dtyp.get(w, 'I')) for w in ws]):
            A.append(left_old(ws).dot(self.product(self.old_order, ws, u)))
            B.append(left_new(ws).dot(self.product(self.new_order, ws, u)))
        ok, why = E.proportional(np.concatenate(A), np.concatenate(B))
        if not ok:
            raise Mismatch('the product changes: %s (%s -> %s)' % (why, [d[:4] for d in self.changed_old], [d[:4] for d in self.changed_new]))

    def phases(self, given=()):
        """no more gates with an arbitrary angle than before: each comes from sources of its own"""
        sub = path().subst
        src = [E.lf_subst(E.SymPhase.of(p), sub) for p in [d[3] for d in self.changed_old if d[3] is not None] + list(given)]
        for d in self.changed_new:
            if d[3] is None:
                continue
            f = E.lf_subst(E.SymPhase.of(d[3]), sub)
            if self._clifford(f):
                continue
            for r in range(1, len(src) + 1):
                for ks in itertools.combinations(range(len(src)), r):
                    for signs in itertools.product((1, -1), repeat=r):
                        q = f
                        for k, sg in zip(ks, signs):
                            q = E.lf_add(q, E.lf_scale(src[k], sg), -1)
                        if self._clifford(q):
                            break
                    else:
                        continue
                    break
                else:
                    continue
                break
            else:
                raise Mismatch('a gate of angle %s appears' % (d[3],))
            src = [s for k, s in enumerate(src) if k not in ks]

    @staticmethod
    def _clifford(f):
        t = E.lf_scale(f, 2)
        return t[0].denominator == 1 and all(E.is_int(k) and v.denominator == 1 for k, v in t[1])


def verify(W, old, new, extra, left_old, left_new, given=()):
    """left_old . old = left_new . new up to a factor, without additional angles; gates that stay where they are count as unknown
    ones at first, then as explicit ones"""
    why = None
    for all_ in (False, True):
        try:
            m = Meaning(W, old, new, extra, all_)
            m.check(left_old, left_new)
            m.phases(given)
            return None
        except Mismatch as e:
            why = why or str(e)
    return why


class Mismatch(Exception):
    pass
