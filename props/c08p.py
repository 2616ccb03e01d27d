"""C08, deductive part: every mutator and accessor of the two backends against its contract, from an arbitrary state of the data structure.

The state is an arbitrary finite graph satisfying the class invariant (symmetric adjacency over existing vertices, one shared cell per
pair in the multigraph, attribute tables over existing vertices only, interface vertices exist, next index above all vertices); it is
materialised lazily while the real method runs, labels are symbolic integers.  After the method two further arbitrary labels x, y are
looked up through the real accessors: everything they show must be what the contract says (the invariant included), so the frame holds
for all vertices and edges.  remove_vertices' loop over the neighbours is cut by an invariant."""
import itertools
import z3
from fractions import Fraction
from pyvc import exact as X
from pyvc.core import path, Unsupported, PathAbort, discharge
from pyvc.heap import Z, Base, LDict, LKeys, LSet, ABSENT, presence, assume, srange
from pyvc.mods import clone

_S = [None]


class Tok:
    """an opaque value"""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name


class Row(LDict):
    pass


class SymSeq:
    def __init__(self, w, row): self.w, self.row = w, row
    def __iter__(self): return self.w.cut(self.row)
    def __len__(self): raise Unsupported('length')


class World:
    """an arbitrary graph and its initial content"""
    def __init__(self, bname, what='edges'):
        self.b, self.what = bname, what
        w = self
        io = what == 'interface'

        def slist(x=()):
            if isinstance(x, LKeys):
                x = x.d
            return SymSeq(w, x) if isinstance(x, Row) and w.cutting else list(x)

        def smax(*a, **k):
            if len(a) == 1 and isinstance(a[0], (LKeys, LDict)):
                return w.maximum(a[0].d if isinstance(a[0], LKeys) else a[0], **k)
            return max(*a, **k)
        self.mod = clone('pyzx.graph.' + ('graph_s' if bname == 'simple' else 'multigraph'), list=slist, max=smax, range=srange)
        self.g = g = (self.mod.GraphS if bname == 'simple' else self.mod.Multigraph)()
        self.cutting, self.fails, self.uppers, self.empties, self.removed = False, [], [], [], None
        self.vindex = Z.fresh('vindex')
        assume(self.vindex.t >= 0)
        self.V = Base(self._vertex)
        self.adj = []
        self.ty = Base(lambda k: [1, 2, 0, 3, 6][path().choose(1)] if self.V.get(k) else ABSENT)
        self.tok = itertools.count()
        self.rows = Base(lambda k: Row(Base(lambda y: self.now(k, y)), loop=self.generic) if self.V.get(k) else ABSENT)
        self.ph = Base(lambda k: X.phase_sym('p%d' % next(self.tok)) if self.V.get(k) else ABSENT)
        opt = lambda nm: Base(lambda k: Z.fresh(nm) if self.V.get(k) and (what != 'positions' or presence()) else ABSENT)
        self.q, self.r = opt('q'), opt('r')
        self.gr = Base(lambda k: True if self.V.get(k) and (what != 'ground marks' or presence()) else ABSENT)
        self.vd0 = Base(lambda k: {'key': Tok('d%d' % next(self.tok))} if self.V.get(k) and (what != 'user data' or presence()) else ABSENT)
        self.vd = Base(lambda k: (lambda d: d if d is ABSENT else dict(d))(self.vd0.get(k)))
        tyb = Base(lambda k: Tok('ty%d' % next(self.tok)) if self.V.get(k) else ABSENT)
        self.ty = tyb
        ins = []
        for i in range(0 if not io else path().choose(2) + 1 if bname == 'simple' else 1):
            a = Z.fresh('io')
            if not self.V.get(a):
                raise PathAbort()
            ins.append(a)
        self.ins, self.outs = tuple(ins[:1]), tuple(ins[1:])
        g.graph = LDict(self.rows, loop=self.generic)
        g.ty, g._phase, g._qindex, g._rindex = LDict(tyb), LDict(self.ph), LDict(self.q), LDict(self.r)
        g._grounds = LSet(self.gr)
        g._vdata = LDict(self.vd)
        g._vindex = self.vindex
        g.nedges = Z.fresh('nedges')
        g._maxq, g._maxr = Z.fresh('maxq'), Z.fresh('maxr')
        g._inputs, g._outputs = self.ins, self.outs
        if bname != 'simple':
            g._auto_simplify = False

    def _vertex(self, k):
        if presence():
            assume(z3.And(Z.of(k) < self.vindex.t, Z.of(k) >= 0))
            return True
        return False

    # initial adjacency: symmetric, one cell per pair
    def cell(self, x, y):
        for a, b, v, v0 in self.adj:
            if (x == a and y == b) or (x == b and y == a):
                return v, v0
        if not (self.V.get(x) and self.V.get(y)) or (self.b == 'simple' and x == y) or not presence():
            v = v0 = ABSENT
        elif self.b == 'simple':
            from pyzx.utils import EdgeType as ET
            v = v0 = (ET.SIMPLE, ET.HADAMARD)[path().choose(2)]
        else:
            e = self.mod.Edge()
            e.s, e.h, e.w_io = Z.fresh('s'), Z.fresh('h'), Z.fresh('w')
            assume(z3.And(e.s.t >= 0, e.h.t >= 0, e.w_io.t >= 0, e.w_io.t <= 1, z3.Or(e.w_io.t == 0, z3.And(e.s.t == 0, e.h.t == 0)), e.s.t + e.h.t + e.w_io.t > 0))
            v, v0 = e, (e.s, e.h, e.w_io)
        self.adj.append((x, y, v, v0))
        return v, v0

    def E(self, x, y):
        return self.cell(x, y)[1]

    def now(self, x, y):
        if self.removed and self.removed(x, y):
            return ABSENT
        return self.cell(x, y)[0]

    # loops
    def generic(self, d, kind):
        """one arbitrary element of the dictionary (loops whose iterations are independent)"""
        k = Z.fresh('k')
        v = d._get(k)
        if v is ABSENT:
            raise PathAbort()
        path().memo.setdefault('elements', []).append(k)
        yield {'keys': k, 'items': (k, v), 'values': v}[kind]

    def cut(self, row):
        """loop over all neighbours of v, cut by: exactly the cells of v with the neighbours seen so far are gone"""
        v = [k for k, r in self.rows.known if r is row][0]
        if row.w or any(r.w for _, r in self.rows.known if isinstance(r, Row)) or self.g.graph.w:
            raise Unsupported('the adjacency changed before the loop')
        if self.what != 'edges' or path().choose(2):
            self.removed = lambda x, y: x == v or y == v
            self.g.nedges = Z.fresh('nedges')
            return
        v1 = Z.fresh('n')
        if self.E(v, v1) is ABSENT:
            raise PathAbort()
        seen = Base(lambda k: False if k == v1 else self.E(v, k) is not ABSENT and presence())
        self.removed = lambda x, y: (x == v and seen.get(y)) or (y == v and seen.get(x))
        self.g.nedges = Z.fresh('nedges')
        yield v1
        x, y = Z.fresh('x'), Z.fresh('y')
        for a, b in ((x, y), (y, x)):
            if self.V.get(a):
                want = ABSENT if (self.removed(a, b) or (a == v and b == v1) or (a == v1 and b == v)) else self.E(a, b)
                m = differs(self.b, self.g.graph[a].get(b, ABSENT), want)
                if m:
                    self.fails.append('the loop over the neighbours does not keep its invariant: %s' % m)
        raise PathAbort()

    def maximum(self, d, default=None):
        if default is not None and path().choose(2):
            self.empties.append(d)
            return default
        m = Z.fresh('max')
        if m not in d:
            raise PathAbort()
        self.uppers.append((d, m))
        return m


def sure(c):
    """a condition on integers that holds on this path"""
    if isinstance(c, bool):
        return c
    return not path().feasible(z3.Not(c))


def eqz(a, b):
    if a is b:
        return True
    ta, tb = Z.of(a), Z.of(b)
    if ta is None or tb is None:
        return a == b
    return sure(ta == tb)


def differs(b, got, want):
    if want is ABSENT or got is ABSENT:
        return None if want is got else 'edge %s instead of %s' % (got, want)
    if b == 'simple':
        return None if got == want else 'edge type %s instead of %s' % (got, want)
    for f, w in zip((got.s, got.h, got.w_io), want):
        if not eqz(f, w):
            return 'edge counts %s instead of %s' % ((got.s, got.h, got.w_io), want)
    return None


class Spec:
    """the contract: what the accessors show afterwards (default: what they showed before)"""
    def __init__(self, w):
        self.w = w
        self.V = lambda x: w.V.get(x)
        self.ty = lambda x: w.ty.get(x)
        self.ph = lambda x: w.ph.get(x)
        self.q = lambda x: (lambda v: -1 if v is ABSENT else v)(w.q.get(x))
        self.r = lambda x: (lambda v: -1 if v is ABSENT else v)(w.r.get(x))
        self.gr = lambda x: w.gr.get(x) is True
        self.vd = lambda x: (lambda v: {} if v is ABSENT else v)(w.vd0.get(x))
        self.E = lambda x, y: w.E(x, y)
        self.ins, self.outs = w.ins, w.outs
        self.vindex = None

    def over(self, name, at, val):
        old = getattr(self, name)
        setattr(self, name, lambda x: val if x == at else old(x))

    def over_edge(self, s, t, val):
        old = self.E
        self.E = lambda x, y: val if (x == s and y == t) or (x == t and y == s) else old(x, y)


def phase_same(a, b):
    d = X.SymPhase.of(a), X.SymPhase.of(b)
    return (X.e(a if isinstance(a, X.SymPhase) else Fraction(a)) - X.e(b if isinstance(b, X.SymPhase) else Fraction(b))).is_zero() if d else False


def compare(w, sp, what):
    """the state after the call, seen through the real accessors at arbitrary labels; None or a message"""
    g = w.g
    if w.fails:
        return w.fails[0]
    x = Z.fresh('x')
    for i, lo, hi in path().memo.get('generic', []):
        # labels of other iterations of the same loop are covered by symmetry
        if lo <= x and x < hi and not x == i:
            raise PathAbort()
    if what == 'edges':
        y = Z.fresh('y')
        for i, lo, hi in path().memo.get('generic', []):
            if lo <= y and y < hi and not y == i:
                raise PathAbort()
        if not sp.V(x):
            return None
        yv = sp.V(y)
        want = sp.E(x, y) if yv else ABSENT
        row = g.graph[x]
        got = row[y] if y in row else ABSENT
        m = differs(w.b, got, want)
        if m:
            return m
        if yv:
            oth = g.graph[y]
            back = oth[x] if x in oth else ABSENT
            m = differs(w.b, back, want)
            if m:
                return 'asymmetric: ' + m
            if w.b != 'simple' and got is not back:
                return 'the two ends hold different cells'
        if bool(g.connected(x, y)) != (want is not ABSENT):
            return 'connected'
        if (y in g.neighbors(x)) != (want is not ABSENT):
            return 'neighbors'
        if w.b == 'simple' and want is not ABSENT and g.edge_type((x, y)) != want:
            return 'edge_type'
        if w.b == 'simple' and want is ABSENT and g.edge_type((x, y)):
            return 'edge_type of a missing edge'
        return None
    inV = (x in g.graph)
    if inV != bool(sp.V(x)):
        return 'vertex %s' % ('left' if inV else 'missing')
    if (x in g.vertices()) != inV:
        return 'vertices()'
    for d in w.empties:
        if x in d:
            raise PathAbort()
    for d, m in w.uppers:
        if x in d:
            assume(x.t <= m.t)
    if what == 'attributes':
        if inV:
            t = g.type(x)
            if not (t is sp.ty(x) or (not isinstance(t, Tok) and not isinstance(sp.ty(x), Tok) and t == sp.ty(x))) or g.types()[x] is not t:
                return 'type %s instead of %s' % (t, sp.ty(x))
            if not phase_same(g.phase(x), sp.ph(x)):
                return 'phase %s instead of %s' % (g.phase(x), sp.ph(x))
            if g.phases()[x] is not g.phase(x) and not phase_same(g.phases()[x], g.phase(x)):
                return 'phases()'
            if not sure(z3.And(Z.of(x) < Z.of(g._vindex)) if not callable(getattr(g, 'vindex', None)) else Z.of(x) < Z.of(g.vindex())):
                return 'the next index is not above vertex'
        elif x in g.ty or x in g._phase:
            return 'attributes of a vertex that does not exist'
        return None
    if what == 'positions':
        if not eqz(g.qubit(x), sp.q(x) if inV else -1) or not eqz(g.row(x), sp.r(x) if inV else -1):
            return 'position %s,%s' % (g.qubit(x), g.row(x))
    elif what == 'ground marks':
        if bool(g.is_ground(x)) != (bool(sp.gr(x)) if inV else False) or (x in g.grounds()) != bool(g.is_ground(x)):
            return 'ground mark'
    elif what == 'user data':
        vd = {k: g.vdata(x, k) for k in g.vdata_keys(x)}
        want = sp.vd(x) if inV else {}
        if set(vd) != set(want) or any(vd[k] is not want[k] for k in vd):
            return 'user data %s instead of %s' % (vd, want)
    else:
        if len(g.inputs()) != len(sp.ins) or len(g.outputs()) != len(sp.outs) or not all(a == b for a, b in zip(g.inputs() + g.outputs(), sp.ins + sp.outs)):
            return 'interface %s -> %s instead of %s -> %s' % (g.inputs(), g.outputs(), sp.ins, sp.outs)
        if g.num_inputs() != len(sp.ins) or g.num_outputs() != len(sp.outs):
            return 'num_inputs'
    return None


def member(w, n=1):
    """arbitrary existing vertices (possibly equal)"""
    out = []
    for i in range(n):
        v = Z.fresh('v')
        if not w.V.get(v):
            raise PathAbort()
        out.append(v)
    return out if n > 1 else out[0]


# ------------------------------------------------------------------ mutators
def m_add_vertices(w, sp):
    n = Z.fresh('amount')
    assume(n.t >= 0)
    if path().choose(2):
        n = path().choose(3)
    r = w.g.add_vertices(n)
    new = lambda x: w.vindex <= x and x < w.vindex + n
    oV, oty, oph = sp.V, sp.ty, sp.ph
    sp.V = lambda x: True if new(x) else oV(x)
    sp.ty = lambda x: 0 if new(x) else oty(x)
    sp.ph = lambda x: 0 if new(x) else oph(x)
    oE = sp.E
    if isinstance(n, int):
        vs = list(r)
        if len(vs) != n or not all(eqz(v, w.vindex + i) for i, v in enumerate(vs)):
            return 'returns %s' % (vs,)
    elif not (hasattr(r, 'lo') and eqz(r.lo, w.vindex) and eqz(r.hi, w.vindex + n)):
        return 'returns another range'


def m_add_vertex(w, sp):
    from pyzx.utils import VertexType as VT
    at = w.what == 'attributes'
    ty = (VT.Z, VT.H_BOX, VT.BOUNDARY)[path().choose(3) if at else 0]
    ph = (None, X.phase_sym('new'))[path().choose(2) if at else 0]
    q, r = Z.fresh('nq'), Z.fresh('nr')
    gd = w.what == 'ground marks' and path().choose(2) == 1
    v = w.g.add_vertex(ty, q, r, ph, gd)
    if not sure(Z.of(v) == w.vindex.t):
        return 'returns %s' % v
    sp.over('V', v, True)
    sp.over('ty', v, ty)
    sp.over('ph', v, ph if ph is not None else (1 if ty == VT.H_BOX else 0))
    sp.over('q', v, q)
    sp.over('r', v, r)
    sp.over('gr', v, gd)
    sp.over('vd', v, {})


def m_add_vertex_indexed(w, sp):
    v = Z.fresh('v')
    assume(v.t >= 0)
    had = w.V.get(v)
    try:
        w.g.add_vertex_indexed(v)
    except ValueError:
        return None if had else 'refused a free index'
    if had:
        return 'accepted an index in use'
    sp.over('V', v, True)
    sp.over('ty', v, 0)
    sp.over('ph', v, 0)
    for a, d in (('q', -1), ('r', -1), ('gr', False), ('vd', {})):
        sp.over(a, v, d)


def m_remove_vertices(w, sp):
    v = member(w)
    w.cutting = True
    k = path().choose(2)
    if k:
        w.g.remove_vertex(v)
    else:
        w.g.remove_vertices([v])
    w.cutting = False
    sp.over('V', v, False)
    oE = sp.E
    sp.E = lambda x, y: ABSENT if x == v or y == v else oE(x, y)
    sp.ins = tuple(u for u in sp.ins if u != v)
    sp.outs = tuple(u for u in sp.outs if u != v)


def new_pair(w):
    s, t = member(w, 2)
    if s == t and w.b == 'simple':
        raise PathAbort()
    return s, t


def plus(e, k, n=1):
    e = (0, 0, 0) if e is ABSENT else e
    return tuple(x + n if i == k else x for i, x in enumerate(e))


def m_add_edge(w, sp):
    from pyzx.utils import EdgeType as ET
    s, t = new_pair(w)
    old = w.E(s, t)
    ty = (ET.SIMPLE, ET.HADAMARD)[path().choose(2)]
    if w.b == 'simple' and old is not ABSENT:
        raise PathAbort()      # parallel edges: C09
    if w.b != 'simple' and old is not ABSENT and not sure(Z.of(old[2]) == 0):
        raise PathAbort()      # a W edge stays alone
    e = None
    api = path().choose(2)
    if api:
        e = w.g.add_edge((s, t), ty)
    else:
        w.g.add_edges([(s, t)], ty)
    if e is not None:
        a, b = w.g.edge_st(e)
        if not ((a == s and b == t) or (a == t and b == s)) or w.g.edge_type(e) != ty:
            return 'returns %s' % (e,)
    sp.over_edge(s, t, ty if w.b == 'simple' else plus(old, int(ty) - 1))


def some_edge(w):
    from pyzx.utils import EdgeType as ET
    s, t = new_pair(w)
    old = w.E(s, t)
    if old is ABSENT:
        raise PathAbort()
    if w.b == 'simple':
        return s, t, old, old, (s, t)
    ty = (ET.SIMPLE, ET.HADAMARD, ET.W_IO)[path().choose(3)]
    k = int(ty) - 1
    assume(Z.of(old[k]) >= 1)
    return s, t, old, ty, (s, t, ty)


def m_remove_edge(w, sp):
    s, t, old, ty, e = some_edge(w)
    w.g.remove_edge(e) if path().choose(2) else w.g.remove_edges([e])
    if w.b == 'simple':
        sp.over_edge(s, t, ABSENT)
    else:
        left = plus(old, int(ty) - 1, -1)
        gone = path().branch(Z.of(left[0]) + Z.of(left[1]) + Z.of(left[2]) == 0)
        sp.over_edge(s, t, ABSENT if gone else left)


def m_set_edge_type(w, sp):
    from pyzx.utils import EdgeType as ET
    s, t, old, ty, e = some_edge(w)
    new = (ET.SIMPLE, ET.HADAMARD)[path().choose(2)]
    w.g.set_edge_type(e, new)
    sp.over_edge(s, t, new if w.b == 'simple' else plus(plus(old, int(ty) - 1, -1), int(new) - 1))


def setter(call, field, val, cond=None):
    def m(w, sp):
        v = member(w)
        x = val(w, v)
        call(w.g, v, x)
        sp.over(field, v, x)
    return m


def m_add_to_phase(w, sp):
    v = member(w)
    d = X.phase_sym('d')
    w.g.add_to_phase(v, d)
    sp.over('ph', v, w.ph.get(v) + d)


def m_position(w, sp):
    v = member(w)
    q, r = Z.fresh('nq'), Z.fresh('nr')
    w.g.set_position(v, q, r)
    sp.over('q', v, q)
    sp.over('r', v, r)


def m_vdata(w, sp):
    v = member(w)
    k, x = ('key', 'other')[path().choose(2)], Tok('value')
    w.g.set_vdata(v, k, x)
    old = w.vd0.get(v)
    sp.over('vd', v, dict({} if old is ABSENT else old, **{k: x}))
    if w.g.vdata(v, 'missing', 7) != 7 or w.g.vdata(v, k) is not x:
        return 'vdata'


def m_io(w, sp):
    a = member(w)
    if path().choose(2):
        w.g.set_inputs((a,))
        sp.ins = (a,)
    else:
        w.g.set_outputs((a,))
        sp.outs = (a,)


MUT = {
    'add_vertices': m_add_vertices, 'add_vertex': m_add_vertex, 'add_vertex_indexed': m_add_vertex_indexed, 'remove_vertices': m_remove_vertices,
    'add_edge': m_add_edge, 'remove_edge': m_remove_edge, 'set_edge_type': m_set_edge_type,
    'set_type': setter(lambda g, v, x: g.set_type(v, x), 'ty', lambda w, v: Tok('newtype')),
    'set_phase': setter(lambda g, v, x: g.set_phase(v, x), 'ph', lambda w, v: X.phase_sym('d')),
    'add_to_phase': m_add_to_phase,
    'set_qubit': setter(lambda g, v, x: g.set_qubit(v, x), 'q', lambda w, v: Z.fresh('nq')),
    'set_row': setter(lambda g, v, x: g.set_row(v, x), 'r', lambda w, v: Z.fresh('nr')),
    'set_position': m_position,
    'set_ground': setter(lambda g, v, x: g.set_ground(v, x), 'gr', lambda w, v: path().choose(2) == 1),
    'set_vdata': m_vdata, 'set_inputs': m_io,
}


def mutator(P, b, name):
    X.install()

    def run(p, what):
        w = World(b, what)
        sp = Spec(w)
        try:
            m = MUT[name](w, sp)
        except PathAbort:
            if w.fails:
                return w.fails[0]
            raise
        if isinstance(m, str):
            return m
        return compare(w, sp, what)

    cl = {'simple': 'GraphS', 'multigraph': 'Multigraph'}[b]
    for what in ('attributes', 'positions', 'ground marks', 'user data', 'interface', 'edges'):
        discharge(P, '%s.%s: the %s afterwards, from an arbitrary state' % (cl, name, what), lambda p: run(p, what), 'z3 (linear integer arithmetic)', replay=lambda: replay(b))


def replay(b):
    return _S[0].hunt('random histories', 500, 3, 40)


# ------------------------------------------------------------------ accessors that list
def listing(P, b):
    X.install()
    cl = {'simple': 'GraphS', 'multigraph': 'Multigraph'}[b]
    from pyzx.utils import EdgeType as ET

    def els():
        return path().memo.get('elements', [])

    def counts(w, res, x, y, ends):
        """res lists the edges between x and y: each type as often as the cell says"""
        cell = w.E(x, y)
        for e in res:
            a, c = w.g.edge_st(e)
            if not (a == ends[0] and c == ends[1]):
                return 'edge %s' % (e,)
        if b == 'simple':
            return None if len(res) == (cell is not ABSENT) and all(w.g.edge_type(e) == cell for e in res) else 'edges %s' % (res,)
        if cell is ABSENT:
            return None if not res else 'edges %s' % (res,)
        gen = path().memo.get('generic', [])
        # each listed edge comes from one iteration of a loop counted by its own field
        for k, ty in enumerate((ET.SIMPLE, ET.HADAMARD, ET.W_IO)):
            loops = [1 for i, lo, hi in gen if eqz(lo, 0) and hi is cell[k]]
            n = sum(1 for e in res if e[2] == ty)
            if n != len(loops):
                return 'edges of type %s' % ty
            if not n and not sure(Z.of(cell[k]) <= 0):
                return 'edges of type %s missing' % ty
        return None

    def all_edges(p):
        w = World(b)
        res = list(w.g.edges())
        if len(els()) != 2:
            return 'loops'
        x, y = els()
        if x < y or (b != 'simple' and x == y):
            return counts(w, res, x, y, (x, y))
        return None if not res else 'lists an edge twice'

    def between(p):
        w = World(b)
        s, t = member(w, 2)
        if b == 'simple' and s == t:
            raise PathAbort()
        res = list(w.g.edges(s, t))
        return counts(w, res, s, t, (s, t) if s < t else (t, s))

    def at(p):
        w = World(b)
        s = member(w)
        k = path().choose(2)
        res = list(w.g.incident_edges(s)) if k else list(w.g.edges(s))
        if len(els()) != 1:
            return 'loops'
        y = els()[0]
        return counts(w, res, s, y, (s, y) if s < y else (y, s))

    def edge_id(p):
        w = World(b)
        s, t = new_pair(w)
        if s == t:
            raise PathAbort()
        if w.E(s, t) is ABSENT:
            raise PathAbort()
        if b == 'simple':
            e = w.g.edge(s, t)
            ok = w.g.edge_type(e) == w.E(s, t)
        else:
            ty = (ET.SIMPLE, ET.HADAMARD)[path().choose(2)]
            e = w.g.edge(s, t, ty)
            ok = w.g.edge_type(e) == ty
        a, c = w.g.edge_st(e)
        if not ok or not ((a == s and c == t) or (a == t and c == s)) or not a < c:
            return 'edge %s' % (e,)
        if not (w.g.edge_s(e) == a and w.g.edge_t(e) == c):
            return 'edge_s, edge_t'
        return None

    def degree(p):
        w = World(b)
        v = member(w)
        if b == 'simple':
            r = w.g.graph[v]
            rec = []
            type(r).__len__ = lambda self: rec.append(self) or 5
            try:
                d = w.g.vertex_degree(v)
            finally:
                del type(r).__len__
            return None if d == 5 and rec == [r] else 'degree is not the size of the row'
        d = w.g.vertex_degree(v)
        if len(els()) != 1:
            return 'loops'
        c = w.E(v, els()[0])
        return None if eqz(d, c[0] + c[1] + c[2]) else 'degree counts %s for a cell %s' % (d, c)

    for nm, fn in (('edges() lists every edge once', all_edges), ('edges(s, t) lists the edges between two vertices', between),
                   ('incident_edges(v) and edges(v) list the edges at a vertex', at), ('edge(s, t) names an existing edge', edge_id), ('vertex_degree counts the edges at a vertex', degree)):
        discharge(P, '%s: %s' % (cl, nm), fn, 'z3 (linear integer arithmetic)', replay=lambda: replay(b) or False)


# ------------------------------------------------------------------ isolated vertices
class _Pi:
    """the constant pi, in exp(1j*pi*phase)"""
    def __init__(self, i=0, ph=1): self.i, self.ph = i, ph
    def __rmul__(self, o): return self * o

    def __mul__(self, o):
        if isinstance(o, complex):
            if o != 1j:
                raise Unsupported('exponent')
            return _Pi(self.i + 1, self.ph)
        return _Pi(self.i, o * self.ph)


class _Np:
    pi = _Pi()

    @staticmethod
    def exp(x):
        if not isinstance(x, _Pi) or x.i != 1:
            raise Unsupported('exp')
        return X.e(x.ph)


def isolated(P, b):
    import types
    from pyzx.graph.base import BaseGraph
    from pyvc.ghost import GhostScalar
    from props.c10p import klass, VT, ET
    X.install()
    fn = BaseGraph.remove_isolated_vertices
    rem = types.FunctionType(fn.__code__, dict(fn.__globals__, np=_Np, float=lambda x: x))
    TY = (1, 2, 3, 6)

    def run(p):
        g = klass(b)()
        order = path().choose(2)
        mk = []

        def add(ty, nm):
            v = g.add_vertex(VT(ty))
            if ty in (1, 2, 3):
                g._phase[v] = X.phase_sym(nm)
            elif ty == 6:
                g.set_vdata(v, 'label', X.e(X.phase_sym('l' + nm)))
            return v
        kind = path().choose(3)
        if kind == 0:       # a lone vertex
            x = add(TY[path().choose(4)], 'a')
            extra = []
        elif kind == 1:     # two vertices joined only to each other
            u, v = add(TY[path().choose(4)], 'a'), add(TY[path().choose(4)], 'b')
            g.add_edge((v, u) if order else (u, v), ET(1 + path().choose(2)))
        else:               # two pairs and a lone vertex at once
            vs = [add(t, 'abcde'[i]) for i, t in enumerate((1, 2, 3, 6, 1))]
            g.add_edge((vs[0], vs[1]), ET(1))
            g.add_edge((vs[3], vs[4]), ET(2))
        # the rest of the diagram: a state, an effect on a wire, a larger component without boundary
        i, s, o = add(0, ''), add(1, 'c'), add(0, '')
        g.add_edge((i, s), ET(1))
        i2 = add(0, '')
        g.add_edge((i2, o), ET(2))
        c3 = [add(t, 'xyz'[k]) for k, t in enumerate((1, 2, 1))]
        g.add_edge((c3[0], c3[1]), ET(2))
        g.add_edge((c3[1], c3[2]), ET(2))
        g.set_inputs((i, i2))
        g.set_outputs((o,))
        g.scalar = GhostScalar()
        g.scalar.val = X.e(X.phase_sym('z'))
        want = X.graph_amp(g)
        rest = {i, s, o, i2} | set(c3)
        rem(g)
        if set(g.vertices()) != rest:
            return 'vertices %s left instead of %s' % (set(g.vertices()), rest)
        ok, d = X.equal(X.graph_amp(g), want)
        return None if ok else d
    discharge(P, '%s.remove_isolated_vertices: the scalar accounts for what is removed' % b, run, 'normal form of exponential sums', replay=lambda: _S[0].hunt('removing isolated', 500, 3, 60))


def register(S):
    _S[0] = S
    for b, cl in (('simple', 'pyzx.graph.graph_s.GraphS.'), ('multigraph', 'pyzx.graph.multigraph.Multigraph.')):
        groups = [('vertices', ['add_vertices', 'add_vertex', 'add_vertex_indexed']), ('removal', ['remove_vertices']), ('edges', ['add_edge', 'remove_edge', 'set_edge_type']),
                  ('attributes', ['set_type', 'set_phase', 'add_to_phase', 'set_qubit', 'set_row', 'set_position', 'set_ground', 'set_vdata', 'set_inputs'])]
        for gn, ms in groups:
            S.proof('%s, %s' % (gn, b), functions=[cl + m for m in ms], limit=200)(lambda P, b=b, ms=ms: [mutator(P, b, m) for m in ms])
        S.proof('isolated vertices, %s' % b, functions=['pyzx.graph.base.BaseGraph.remove_isolated_vertices'], limit=100)(lambda P, b=b: isolated(P, b))
        S.proof('listings, %s' % b, functions=[cl + m for m in ('edges', 'incident_edges', 'edge', 'edge_st', 'vertex_degree', 'neighbors', 'connected', 'edge_type')], limit=100)(
            lambda P, b=b: listing(P, b))
