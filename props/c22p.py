"""C22, deductive part.

The real module pyzx/graph/diff.py is read on every run and executed with contract diagrams: two vertices with arbitrary membership in the
two diagrams and arbitrary attributes, one edge between them (or a loop) with arbitrary multiplicities in both.  Sets, dictionaries and
counters are used pointwise - the iteration for one element reads and writes entries of that element only, which is recorded - so what is
shown for these generic elements holds for any number of them.  A loop over the elements of a multiset runs once for an element of
multiplicity m; what it appends, removes or adds counts m times (m a z3 integer).  The only change to the source: list and dictionary
displays become lists and dictionaries that record."""
import ast
import time
import z3
from pyvc.core import path, Unsupported, PathAbort, discharge
from pyvc.heap import Z

_S = [None]


def hunt(names):
    """search for a failing input on the real code; none found: the model is too coarse, the bounded check decides"""
    for n in names:
        r = _S[0].hunt(n, 4000, 5, 15)
        if r:
            return r
    return False


class Tok(Z):
    """an arbitrary value that can only be compared"""
    __slots__ = ()

    @staticmethod
    def fresh(name):
        return Tok(Z.fresh(name).t)

    def _no(self, *a):
        raise Unsupported('arithmetic on an arbitrary value')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __mod__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = _no
    def __hash__(self): return 0
    def __eq__(self, o): return Z.__eq__(self, o)
    def __ne__(self, o): return not self == o


class Data:
    """user data of a vertex: an arbitrary dictionary, empty when the term is 0"""
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, Data):
            return self is o or path().branch(self.t == o.t)
        if isinstance(o, dict) and not o:
            return path().branch(self.t == 0)
        raise Unsupported('comparison of user data with %r' % (o,))

    def __ne__(self, o): return not self == o
    __hash__ = None

    def items(self):
        return [] if path().branch(self.t == 0) else [('k', Tok(self.t))]


def data_term(x):
    if x is None or isinstance(x, dict) and not x:
        return z3.IntVal(0)
    if isinstance(x, Data):
        return x.t
    if isinstance(x, dict) and list(x) == ['k'] and isinstance(x['k'], Tok):
        return x['k'].t
    raise Unsupported('user data %r' % (x,))


class Ctx:
    """the current iteration: keys it may touch, and how often it happens"""
    def __init__(self):
        self.keys, self.weights = [], []

    def touch(self, k):
        for allowed in self.keys:
            if isinstance(k, str) and any(k == ','.join(str(int(i)) for i in (a if isinstance(a, tuple) else (a,)))
                                          for a in allowed if isinstance(a, int) or isinstance(a, tuple) and all(isinstance(i, int) for i in a)):
                continue
            if k not in allowed:
                raise Unsupported('the iteration for %s touches %s' % (allowed, k))

    def weight(self):
        w = z3.IntVal(1)
        for x in self.weights:
            w = w * x
        return z3.simplify(w)

    def whole(self, what):
        if self.keys:
            raise Unsupported('an iteration uses all of %s' % what)


C = [None]


def around(x):
    """keys that belong to an element"""
    if isinstance(x, (tuple, list)) and x:
        st = x[0] if isinstance(x[0], (tuple, list)) else x
        if len(st) >= 2 and isinstance(st[0], int):
            return (x, st[0], st[1], (st[0], st[1])) + tuple((st[0], st[1], t) for t in (1, 2, 3))
    return (x,)


def each(pairs):
    """the loop over elements with multiplicities"""
    for x, w in pairs:
        C[0].keys.append(around(x))
        C[0].weights.append(w)
        try:
            yield x
        finally:
            C[0].keys.pop()
            C[0].weights.pop()


class WDict(dict):
    frozen = False

    def __getitem__(self, k):
        C[0].touch(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        C[0].touch(k)
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        C[0].touch(k)
        return dict.get(self, k, d)

    def __setitem__(self, k, v):
        C[0].touch(k)
        if self.frozen:
            raise Changed('entry %s of a recorded dictionary is written' % (k,))
        dict.__setitem__(self, k, v)

    def _w(name):
        def f(self, *a):
            if self.frozen:
                raise Changed('a recorded dictionary is changed')
            if name in ('pop', 'setdefault'):
                C[0].touch(a[0])
            else:
                C[0].whole('a dictionary')
            return getattr(dict, name)(self, *a)
        return f
    pop, setdefault, update, clear = _w('pop'), _w('setdefault'), _w('update'), _w('clear')

    def __delitem__(self, k):
        self.pop(k)

    def _len(self, *a):
        raise Unsupported('size of a dictionary')
    __len__ = __bool__ = __eq__ = _len
    __hash__ = None

    def __iter__(self):
        C[0].whole('a dictionary')
        return each([(k, z3.IntVal(1)) for k in dict.keys(self)])

    def keys(self):
        return iter(self)

    def items(self):
        for k in self:
            yield k, dict.__getitem__(self, k)

    def values(self):
        for k in self:
            yield dict.__getitem__(self, k)

    def copy(self):
        return WDict(dict.items(self))


class Changed(Exception):
    pass


class WList:
    """a list as a multiset: entries with multiplicity"""
    frozen = False

    def __init__(self, it=()):
        self.e = []
        for x in it:
            self.append(x)

    def append(self, x):
        if self.frozen:
            raise Changed('a recorded list is extended')
        self.e.append((x, C[0].weight()))

    def extend(self, it):
        for x in it:
            self.append(x)

    def __add__(self, o):
        r = WList()
        r.e = self.e + WList(o).e
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __iter__(self):
        return each(list(self.e))

    def __contains__(self, x):
        C[0].touch(x)
        return any(y == x for y, _ in self.e)

    def copy(self):
        r = WList()
        r.e = list(self.e)
        return r

    def _no(self, *a):
        raise Unsupported('order or length of a list')
    __len__ = __bool__ = __getitem__ = __setitem__ = __eq__ = pop = sort = remove = _no
    __hash__ = None


class VSet:
    """a set of vertices"""
    def __init__(self, m):
        self.m = [v for v in m]

    def __sub__(self, o): return VSet([v for v in self.m if v not in o.m])
    def __and__(self, o): return VSet([v for v in self.m if v in o.m])
    def __or__(self, o): return VSet(self.m + [v for v in o.m if v not in self.m])
    difference, intersection, union = __sub__, __and__, __or__
    def __contains__(self, v):
        C[0].touch(v)
        return v in self.m

    def __iter__(self):
        return each([(v, z3.IntVal(1)) for v in self.m])

    def copy(self): return VSet(self.m)

    def _no(self, *a):
        raise Unsupported('size of a set')
    __len__ = __bool__ = __eq__ = _no
    __hash__ = None


class Bag:
    """collections.Counter: element -> multiplicity"""
    def __init__(self, it=()):
        self.c = {}
        if isinstance(it, Bag):
            self.c = dict(it.c)
        elif isinstance(it, EdgesOf):
            self.c = dict(it.c)
        elif it != ():
            for x in it:
                self.c[x] = self.c.get(x, z3.IntVal(0)) + C[0].weight()

    def __sub__(self, o):
        r = Bag()
        for x, n in self.c.items():
            d = z3.simplify(n - o.c.get(x, z3.IntVal(0)))
            r.c[x] = z3.If(d > 0, d, 0)
        return r

    def _pos(self, x):
        return x in self.c and path().branch(self.c[x] > 0)

    def __contains__(self, x):
        C[0].touch(x)
        return self._pos(x)

    def __iter__(self):
        return each([(x, z3.IntVal(1)) for x in list(self.c) if self._pos(x)])

    def keys(self):
        return iter(self)

    def elements(self):
        return each([(x, n) for x, n in list(self.c.items()) if self._pos(x)])

    def items(self):
        for x in self:
            yield x, Count(self.c[x])

    def __getitem__(self, x):
        C[0].touch(x)
        return Count(self.c.get(x, z3.IntVal(0)))

    def _no(self, *a):
        raise Unsupported('operation on counters')
    __len__ = __bool__ = __eq__ = __setitem__ = __add__ = __and__ = __or__ = update = subtract = most_common = _no
    __hash__ = None


class Count(Z):
    __slots__ = ()
    def __init__(self, t): self.t = t
    def __hash__(self): return 0
    def __mul__(self, o): raise Unsupported('repetition by a multiplicity')
    __rmul__ = __mul__


class EdgesOf:
    """edges(): every parallel edge once"""
    def __init__(self, c):
        self.c = dict(c)

    def __iter__(self):
        return each([(x, n) for x, n in self.c.items() if path().branch(n > 0)])


class Broken(Exception):
    pass


def holds(f):
    return not path().feasible(z3.Not(f))


class CG:
    """a diagram with the contracts of C08/C09: per-vertex attributes, edges with multiplicity"""
    def __init__(self):
        self.ty, self._phase, self._qindex, self._rindex, self._vdata = WDict(), WDict(), WDict(), WDict(), WDict()
        self.vs, self.c, self.et = [], {}, WDict()
        self.variable_types = {}
        self.frozen = False
        self.havoced = False

    def _w(self):
        if self.frozen:
            raise Broken('an operand is changed')

    def _v(self, v):
        if v not in self.vs:
            raise Broken('the code uses vertex %s, which is not in the diagram' % v)
        C[0].touch(v)
        return v

    def _e(self, e):
        C[0].touch(e)
        if e not in self.c or not holds(self.c[e] > 0):
            raise Broken('the code uses edge %s, which is not in the diagram' % (e,))
        return e

    def vertices(self): return VSet(self.vs)
    vertex_set = vertices
    def edges(self): return EdgesOf(self.c)
    def edge_set(self): return Bag(EdgesOf(self.c))
    def type(self, v): return self.ty[self._v(v)]
    def phase(self, v): return self._phase[self._v(v)]
    def qubit(self, v): return self._qindex[self._v(v)]
    def row(self, v): return self._rindex[self._v(v)]
    def edge_st(self, e): return (e[0], e[1])
    def edge_s(self, e): return e[0]
    def edge_t(self, e): return e[1]

    def set_type(self, v, t):
        self._w()
        self.ty[self._v(v)] = t

    def set_phase(self, v, t):
        self._w()
        self._phase[self._v(v)] = t

    def set_qubit(self, v, q):
        self._w()
        self._qindex[self._v(v)] = q

    def set_row(self, v, r):
        self._w()
        self._rindex[self._v(v)] = r

    def set_position(self, v, q, r):
        self.set_qubit(v, q)
        self.set_row(v, r)

    def add_vertex_indexed(self, v):
        from pyzx.utils import VertexType
        self._w()
        if v in self.vs:
            raise Broken('vertex %s is added twice' % v)
        self.vs.append(v)
        self.ty[v], self._phase[v] = VertexType.BOUNDARY, 0
        self._qindex[v] = self._rindex[v] = -1
        dict.pop(self._vdata, v, None)

    def remove_vertices(self, vs):
        self._w()
        for v in vs:
            self._v(v)
            self.vs.remove(v)
            for d in (self.ty, self._phase, self._qindex, self._rindex, self._vdata):
                dict.pop(d, v, None)
            for e in self.c:
                if v in e[:2]:
                    self.c[e] = z3.IntVal(0)

    def remove_vertex(self, v):
        self.remove_vertices([v])

    def remove_edge(self, e):
        self._w()
        C[0].touch(e)
        w = C[0].weight()
        if e not in self.c or not holds(self.c[e] >= w):
            raise Broken('edge %s is removed more often than it is there' % (e,))
        self.c[e] = z3.simplify(self.c[e] - w)

    def remove_edges(self, es):
        for e in es:
            self.remove_edge(e)

    def add_edges(self, es, ty):
        for e in es:
            self.add_edge(e, ty)

    def clone(self):
        r = type(self)()
        for a in ('ty', '_phase', '_qindex', '_rindex', 'et'):
            setattr(r, a, WDict(dict.items(getattr(self, a))))
        r._vdata = WDict({v: Data(d.t) if isinstance(d, Data) else dict(d) for v, d in dict.items(self._vdata)})
        r.vs, r.c = list(self.vs), dict(self.c)
        r.variable_types = dict(self.variable_types)
        if hasattr(self, '_auto_simplify'):
            r._auto_simplify = self._auto_simplify
        return r
    __deepcopy__ = None

    def __getattr__(self, n):
        if n.startswith('__') or n == '_auto_simplify':
            raise AttributeError(n)
        raise Unsupported('method %s of a diagram' % n)


class CS(CG):
    """the simple backend: edges (s, t), at most one, with a type"""
    def edge_type(self, e): return self.et[self._e(e)]

    def set_edge_type(self, e, t):
        self._w()
        self.et[self._e(e)] = t

    def add_edge(self, st, ty=1):
        self._w()
        s, t = sorted(tuple(st)[:2])
        self._v(s), self._v(t)
        e = (s, t)
        if not holds(self.c[e] == 0) or not holds(C[0].weight() == 1):
            raise Broken('edge %s is added where one is already' % (e,))
        self.c[e] = z3.IntVal(1)
        self.et[e] = ty


class CM(CG):
    """the multigraph backend: edges (s, t, type), any number of them"""
    def edge_type(self, e): return e[2]

    def set_auto_simplify(self, b):
        self._w()
        self._auto_simplify = b

    def set_edge_type(self, e, t):
        self._w()
        self._e(e)
        if t != e[2]:
            self._change(e, e[2], t)

    def _change(self, e, a, b):
        raise Unsupported('an edge changes its identity')

    def add_edge(self, st, ty=1):
        self._w()
        s, t = sorted(tuple(st)[:2])
        self._v(s), self._v(t)
        e = next((x for x in self.c if x[:2] == (s, t) and x[2] == ty), None)
        if e is None:
            raise Unsupported('an edge that is in neither diagram')
        C[0].touch(e)
        if self._auto_simplify:
            # smart addition may combine it with parallel edges and change phases unless an end is no spider
            zx = [z3.Or([Z.of(self.ty[x]) == k for k in (1, 2, 6)]) for x in (s, t)]
            if path().feasible(z3.And(zx)):
                path().branch(z3.And(zx)) or self._plain(e)
                if holds(z3.And(zx)):
                    raise Broken('a recorded edge between two spiders is added by the smart rule, which may drop it or change phases')
                return
        self._plain(e)

    def _plain(self, e):
        self.c[e] = z3.simplify(self.c[e] + C[0].weight())


# ------------------------------------------------------------------ the module under contract
class _T(ast.NodeTransformer):
    def visit_List(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('vc_list', ast.Load()), [n], []) if isinstance(n.ctx, ast.Load) else n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('vc_list', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('vc_dict', ast.Load()), [n], [])

    visit_DictComp = visit_Dict

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs:
            a.annotation = None
        n.body = [self.visit(s) for s in n.body]
        return n


class Copy:
    @staticmethod
    def deepcopy(x):
        if isinstance(x, CG):
            return x.clone()
        if isinstance(x, Data):
            return Data(x.t)
        if isinstance(x, dict):
            return {k: Copy.deepcopy(v) for k, v in dict.items(x)}
        if isinstance(x, (Tok, int, str, tuple)):
            return x
        raise Unsupported('deepcopy of %r' % type(x))

    def __getattr__(self, n):
        raise Unsupported('copy.%s' % n)


class Text:
    def __init__(self, x): self.x = x


class PhaseText:
    def __init__(self, x): self.x = x


class Json:
    """dumps/loads: keys become strings, tuples lists, enumerations integers; everything else is unchanged (contract of json)"""
    @staticmethod
    def norm(x):
        import enum
        if isinstance(x, dict):
            return {Json.key(k): Json.norm(v) for k, v in dict.items(x)}
        if isinstance(x, WList):
            r = WList()
            r.e = [(Json.norm(y), w) for y, w in x.e]
            return r
        if isinstance(x, (list, tuple)):
            return [Json.norm(y) for y in x]
        if isinstance(x, enum.IntEnum):
            return int(x)
        if isinstance(x, (Tok, PhaseText, str, int, float, bool, type(None))):
            return x
        raise Unsupported('json of %r' % type(x))

    @staticmethod
    def key(k):
        if isinstance(k, (str, int)):
            return str(int(k)) if isinstance(k, int) else k
        raise TypeError('keys must be str or int')

    @staticmethod
    def dumps(x, cls=None): return Text(Json.norm(x))

    @staticmethod
    def loads(s, cls=None):
        if not isinstance(s, Text):
            raise Unsupported('json.loads')
        return Json.norm(s.x)


def phase_to_json(p):
    return PhaseText(p)


def string_to_phase(s, g):
    if not isinstance(s, PhaseText):
        raise Unsupported('string_to_phase of %r' % (s,))
    vt = getattr(g, 'variable_types', None)
    if vt is None or dict.get(vt, 'x') is not True or dict.get(vt, 'y') is not False:
        raise Broken('a phase is read with other kinds of variables than it was written')
    return s.x


def load():
    import pyzx.graph.diff as D
    src = open(D.__file__.replace('.pyc', '.py')).read()
    tree = _T().visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    env = dict(D.__dict__)

    def lst(x=()):
        return WList(x)
    # imports run first; then the names of the dependencies are given their contracts
    body = tree.body
    imps = [s for s in body if isinstance(s, (ast.Import, ast.ImportFrom))]
    rest = [s for s in body if not isinstance(s, (ast.Import, ast.ImportFrom))]
    exec(compile(ast.Module(imps, []), D.__file__, 'exec'), env)
    env.update(vc_list=lst, vc_dict=lambda d=(): WDict(d), list=lst, Counter=Bag, copy=Copy, json=Json, GraphS=CS, Multigraph=CM, deepcopy=Copy.deepcopy,
               phase_to_json=phase_to_json, string_to_phase=string_to_phase, sorted=nope('sorted'), tuple=tup, set=lambda x=(): x if isinstance(x, VSet) else VSet(x),
               dict=lambda *a, **k: WDict(*a, **k))
    exec(compile(ast.Module(rest, []), D.__file__, 'exec'), env)
    return env['GraphDiff']


class tup(tuple):
    """tuple of a known sequence; not of elements with multiplicity"""
    def __new__(cls, it=()):
        if isinstance(it, (tuple, list)):
            return tuple(it)
        n = len(C[0].weights)
        r = []
        for x in it:
            if len(C[0].weights) > n and not z3.is_int_value(C[0].weights[-1]):
                raise Unsupported('a tuple of elements with multiplicity')
            r.append(x)
        return tuple(r)


def nope(n):
    def f(*a, **k):
        raise Unsupported(n)
    return f


# ------------------------------------------------------------------ generic pairs
def generic(p, multi, part):
    """two diagrams on generic vertices 3 and 8 (in any order), an edge or a loop"""
    from pyzx.utils import EdgeType
    C[0] = Ctx()
    loop = multi and part != 'vertices' and p.choose(2)
    e = (3, 3) if loop else (3, 8)
    vs = [3] if loop else [3, 8]
    if multi:
        e = e + (EdgeType(1 + p.choose(3)) if part != 'vertices' else EdgeType(2),)
    auto = bool(p.choose(2)) if multi else None
    main = vs[p.choose(len(vs))]
    gs = []
    for k in (1, 2):
        g = (CM if multi else CS)()
        if multi:
            g._auto_simplify = auto
        g.variable_types = {'x': True} if k == 1 else {'y': False}
        for v in vs:
            if p.choose(2):
                continue
            g.vs.append(v)
            for a, n in (('ty', 'type'), ('_phase', 'phase'), ('_qindex', 'q'), ('_rindex', 'r')):
                # only one vertex is arbitrary: nothing done for it depends on the other's attributes, by the recorded premise
                if (v != main or part == 'edges' and n != 'type') and k == 2 and v in gs[0].vs:
                    getattr(g, a)[v] = dict.get(getattr(gs[0], a), v)
                else:
                    getattr(g, a)[v] = Tok.fresh('%s%d_%d' % (n, k, v))
            p.assume(z3.And(g.ty[v].t >= 0, g.ty[v].t <= 6))
            if v == main and part != 'edges' and p.choose(2):
                g._vdata[v] = Data(Tok.fresh('d%d_%d' % (k, v)).t)
        m = Z.fresh('m%d' % k).t
        if part != 'vertices' and all(v in g.vs for v in vs):
            p.assume(m >= 0)
            if not multi:
                p.assume(m <= 1)
                g.et[e] = Tok.fresh('et%d' % k)
        else:
            p.assume(m == 0)
            if not multi:
                g.et[e] = Tok.fresh('none%d' % k)
        g.c[e] = m
        gs.append(g)
    return gs[0], gs[1], e


def compare(r, g2, e, multi):
    if set(r.vs) != set(g2.vs):
        return 'vertices %s instead of %s' % (r.vs, g2.vs)
    for v in g2.vs:
        for n in ('ty', '_phase', '_qindex', '_rindex'):
            x, y = dict.get(getattr(r, n), v), dict.get(getattr(g2, n), v)
            if Z.of(x) is None or not holds(Z.of(x) == Z.of(y)):
                return '%s of a vertex is %r instead of %r' % (n, x, y)
        if not holds(data_term(dict.get(r._vdata, v)) == data_term(dict.get(g2._vdata, v))):
            return 'user data of a vertex'
    if not holds(r.c[e] == g2.c[e]):
        return 'edge %s: %s copies instead of %s' % (e, r.c[e], g2.c[e])
    if not multi and path().feasible(g2.c[e] > 0) and not holds(z3.Implies(g2.c[e] > 0, Z.of(dict.get(r.et, e)) == Z.of(dict.get(g2.et, e)))):
        return 'the type of an edge is %r instead of %r' % (dict.get(r.et, e), dict.get(g2.et, e))
    return None


def shares(r, *others):
    ids = {id(x) for g in others for d in g for x in dict.values(d) if isinstance(x, (Data, dict)) and x is not None}
    if any(id(x) in ids for x in dict.values(r._vdata)):
        return 'the result shares user data with an operand'


def snapshot(d):
    return {k: [(x, str(w)) for x, w in v.e] if isinstance(v, WList) else list(dict.items(v)) if isinstance(v, dict) else v for k, v in d.__dict__.items()}


def freeze(d, b=True):
    for v in d.__dict__.values():
        if isinstance(v, (WList, WDict)):
            v.frozen = b


def task(P, multi, what, part):
    GD = load()

    def run(p):
        g1, g2, e = generic(p, multi, part)
        if not p.feasible():
            raise PathAbort()
        g1.frozen = g2.frozen = True
        for g in (g1, g2):
            for d in (g.ty, g._phase, g._qindex, g._rindex, g._vdata, g.et):
                d.frozen = True
        try:
            d = GD(g1, g2)
            freeze(d)
            if what == 'apply':
                r = d.apply_diff(g1)
            else:
                d2 = GD.from_json(d.to_json())
                r = d2.apply_diff(g1)
            return compare(r, g2, e, multi) or shares(r, (g1._vdata, g2._vdata) + tuple(x for x in d.__dict__.values() if isinstance(x, dict)))
        except (Broken, Changed) as x:
            return str(x)
    return run


FNS = {'apply': ['GraphDiff.__init__', 'GraphDiff.calculate_diff', 'GraphDiff.apply_diff'],
       'json': ['GraphDiff.to_json', 'GraphDiff.from_json', 'map_dict_keys', 'fraction_to_json', 'fraction_from_json']}


PARTS = {'vertices': 'attributes of a vertex', 'edges': 'edges and types of their ends', 'all': 'attributes and edges together'}


def register(S):
    _S[0] = S
    for what in ('apply', 'json'):
        for multi in (False, True):
            for part in ('vertices', 'edges', 'all'):
                nm = '%s, %s: %s' % ({'apply': 'applying a difference', 'json': 'a saved and loaded difference'}[what],
                                     'multigraphs' if multi else 'simple diagrams', PARTS[part])

                @S.proof(nm, functions=FNS[what], limit=800, **(dict(tiers=('thorough',)) if part == 'all' else {}))
                def _(P, multi=multi, what=what, part=part):
                    discharge(P, 'the result is the target diagram; operands and difference unchanged, nothing shared', task(P, multi, what, part),
                              'z3 (generic elements)', replay=lambda: hunt(['diff then apply', 'differences of large']), max_paths=200000)
