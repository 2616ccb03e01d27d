"""C05, deductive part: the procedures that compose the steps of extraction.  Every step is replaced by its contract (proved in c05p).

A step is an event.  Events that change the diagram are recorded in its history; the circuit, the frontier, the wire map and the gadget
table record the events that change them.  The state is consistent when each record is the part of the diagram's history that concerns it:
then circuit after diagram is the map we started from.  A matrix and a neighbour list belong to the history at which they were made."""
import ast
from pyvc import flow as F
from pyvc.core import path, Unsupported

M = 'pyzx.extract'
KINDS = {'c': ('clean', 'cnots'), 'frontier': ('neighbours', 'gadget', 'cnots'), 'qubit_map': ('gadget', 'cnots'), 'gadgets': ('gadget',)}
_n = [0]


def event(kind):
    _n[0] += 1
    return (kind, _n[0])


def part(w, what):
    return tuple(e for e in w if e[0] in KINDS[what])


class Ends:
    """the inputs or the outputs"""
    def __init__(self, g, what):
        self.g, self.what = g, what

    def __contains__(self, x):
        k = (self.what, x)
        if k not in self.g.facts:
            self.g.facts[k] = path().choose(2) == 0
        return self.g.facts[k]

    def __getitem__(self, i):
        if self.what != 'outputs':
            raise Unsupported('an input by its index')
        self.g.facts['index'] = i
        return 'o'

    def __iter__(self):
        raise Unsupported('loop over the boundary')


class Phase:
    def __init__(self, g, v):
        self.g, self.v = g, v

    def __eq__(self, o):
        if o not in (0, 1):
            return F.Any()._c()
        f = self.g.facts.setdefault(('phase', self.v), [0, 1, 2][path().choose(3)])
        return f == o
    __hash__ = None


class G:
    def __init__(self, w=(), facts=None):
        self.w, self.facts, self.only_wires, self.dead = w, facts if facts is not None else {}, False, False

    def clone(self):
        if self.dead:
            raise F.Breach('a diagram that was taken apart is used again')
        return G(self.w, self.facts)

    def copy(self, *a, **k): return self.clone()
    def inputs(self): return Ends(self, 'inputs')
    def outputs(self): return Ends(self, 'outputs')
    def vertices(self): return F.AnyRange(lambda: 'v')
    def phase(self, v): return Phase(self, v)
    def phases(self): raise Unsupported('phases')

    def vertex_degree(self, v):
        d = self.facts.setdefault(('degree', v), [1, 0, 2][path().choose(3)])
        return d

    def neighbors(self, v):
        if v == 'o':
            return ['f']
        if v == 'v':
            if ('degree', 'v') not in self.facts:
                raise Unsupported('the neighbours of a vertex of unknown degree')
            return ['n', 'n2'][:self.facts['degree', 'v']]
        if v == 'n':
            return ['w', 'v']
        raise Unsupported('neighbours of %s' % v)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('diagram.%s' % n)


class Gates:
    def __init__(self, w, rev):
        self.w, self.rev = w, rev

    def __getitem__(self, s):
        if s == slice(None, None, -1):
            return Gates(self.w, not self.rev)
        raise Unsupported('gates of a circuit')


class C:
    def __init__(self, qubits=None, w=(), rev=False):
        self.qubits, self.w, self.rev = qubits, w, rev

    @property
    def gates(self): return Gates(self.w, self.rev)

    @gates.setter
    def gates(self, x):
        if not isinstance(x, Gates):
            raise Unsupported('gates of a circuit')
        self.w, self.rev = x.w, x.rev

    def copy(self): return C(self.qubits, self.w, self.rev)

    def __add__(self, o):
        if not isinstance(o, C) or isinstance(o, Result):
            raise F.Breach('a part of the circuit is appended to something else')
        if self.rev or o.rev:
            raise F.Breach('parts of the circuit are joined after one of them was reversed')
        return C(self.qubits, self.w + o.w)


class Result(C):
    """a circuit for the diagram we started from"""
    def __init__(self, perm):
        self.perm, self.valid = perm, True

    gates = property(lambda self: Unsupported)


class Swaps:
    def __init__(self, g, perm):
        self.g, self.perm = g, perm

    def __add__(self, c):
        if type(c) is not C:
            raise F.Breach('the permutation is joined with something that is not the extracted circuit')
        if not c.rev:
            raise F.Breach('the gates were emitted from the outputs, but not reversed')
        if c.w != part(self.g.w, 'c'):
            raise F.Breach('the circuit is not the one extracted from this diagram')
        return Result(self.perm)

    def __radd__(self, c):
        raise F.Breach('the permutation is appended after the circuit')


class Lst(list):
    kind, abstract = 'frontier', False

    def __init__(self, *a):
        list.__init__(self, *a)
        self.w, self.idx = (), None

    def empty(self):
        if not self.abstract:
            return list.__len__(self) == 0
        m = path().memo.setdefault('empty', {})
        return m.setdefault(self.w, path().choose(2) == 0)

    def __bool__(self): return not self.empty()

    def copy(self):
        r = Lst(self)
        r.w, r.abstract, r.idx = self.w, self.abstract, self.idx
        return r


class Dct(dict):
    abstract = False

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.w, self.idx = (), None

    def copy(self):
        r = Dct(self)
        r.w, r.abstract, r.idx = self.w, self.abstract, self.idx
        return r


class NSet:
    def __init__(self, g):
        self.w = g.w


class Mat:
    def __init__(self, g, ns, fr):
        self.w, self.ns, self.dirty, self.data = g.w, tuple(ns), False, []

    def copy(self):
        r = object.__new__(Mat)
        r.w, r.ns, r.dirty, r.data = self.w, self.ns, self.dirty, []
        return r

    def row_add(self, a, b):
        self.dirty = True

    def to_cnots(self, optimize=False, use_log_blocksize=False):
        if self.dirty:
            raise F.Breach('CNOTs from a matrix that was changed')
        return [] if path().choose(2) else [Cnot('r0', 'r1'), Cnot('r1', 'r2')]


class Cnot:
    def __init__(self, c, t):
        self.control, self.target = c, t


def world(roles=None):
    """the steps, by contract"""
    def uses(role, x):
        if roles is not None and x.idx is not None:
            roles.setdefault('used', set()).add((role, x.idx))

    def state(g, c=None, frontier=None, qubit_map=None, gadgets=None):
        if not isinstance(g, G) or g.dead:
            raise F.Breach('a diagram that was taken apart is used again')
        for n, x, T in (('c', c, C), ('frontier', frontier, Lst), ('qubit_map', qubit_map, Dct), ('gadgets', gadgets, Dct)):
            if x is None:
                continue
            if not isinstance(x, T) or isinstance(x, Result):
                raise F.Breach('%s: something else is passed' % n)
            w = part(g.w, n)
            if x.w != (w[len(w) - len(x.w):] if n == 'c' else w):   # the parents of a node in the search tree hold the earlier gates
                raise F.Breach('the %s does not belong to this diagram' % {'c': 'circuit'}.get(n, n))
            if n == 'c' and x.rev:
                raise F.Breach('gates are emitted after the reversal')
            if n != 'c':
                uses(n, x)

    def happens(kind, g, **k):
        e = event(kind)
        g.w += (e,)
        for n, x in k.items():
            if kind in KINDS[n]:
                x.w += (e,)

    def last(g, *kinds):
        if [e[0] for e in g.w[-len(kinds):]] != list(kinds):
            raise F.Breach('the step needs a diagram after %s' % ', '.join(kinds))

    def clean_frontier(g, c, frontier, qubit_map, optimize_czs=True):
        state(g, c, frontier, qubit_map)
        happens('clean', g, c=c)
        return F.Any()

    def neighbors_of_frontier(g, frontier):
        state(g, frontier=frontier)
        last(g, 'clean')
        happens('neighbours', g, frontier=frontier)
        return NSet(g)

    def remove_gadget(g, frontier, qubit_map, nset, gadgets):
        state(g, None, frontier, qubit_map, gadgets)
        last(g, 'clean', 'neighbours')
        if not isinstance(nset, NSet) or nset.w != g.w:
            raise F.Breach('remove_gadget gets neighbours of another state')
        if path().choose(2):
            return False
        happens('gadget', g, frontier=frontier, qubit_map=qubit_map, gadgets=gadgets)
        return True

    def bi_adj(g, ns, fr):
        if not isinstance(ns, NL) or ns.w != g.w:
            raise F.Breach('bi_adj gets the neighbours of another state')
        state(g, frontier=fr)
        last(g, 'clean', 'neighbours')
        if sorted(ns) != ['n0', 'n1', 'n2']:
            raise F.Breach('the columns are not the neighbours')
        return Mat(g, ns, fr)

    def pairs(m):
        if not isinstance(m, Mat) or m.dirty:
            raise F.Breach('row operations for a matrix that was changed')
        return [None, [('r0', 'r1')], [('r0', 'r1'), ('r1', 'r2')]][path().choose(3)]

    def valid(cnots):
        for x in cnots:
            if not isinstance(x, Cnot) or {x.control, x.target} - {'r0', 'r1', 'r2'} or x.control == x.target:
                raise F.Breach('not a list of CNOTs on rows')

    def swap(m):
        import itertools
        return dict(enumerate(list(itertools.permutations(range(3)))[path().choose(6)]))

    def filt(cnots):
        valid(cnots)
        return [] if path().choose(2) else [Cnot('r2', 'r0')]

    def extra(cnots, m):
        valid(cnots)
        if m.dirty:
            raise F.Breach('remove_extra_cnots gets a matrix that was changed')
        return [] if not cnots or path().choose(2) else [cnots[0]]

    def apply_cnots(g, c, frontier, qubit_map, cnots, m, ns):
        state(g, c, frontier, qubit_map)
        last(g, 'clean', 'neighbours')
        valid(cnots)
        if not isinstance(m, Mat) or m.dirty or m.w != g.w:
            raise F.Breach('apply_cnots gets a matrix that does not belong to the diagram')
        if m.ns != tuple(ns):
            raise F.Breach('apply_cnots gets columns in another order than those of the matrix')
        m.dirty = True
        happens('cnots', g, c=c, frontier=frontier, qubit_map=qubit_map)
        return F.Pos()

    def id_simp(g, **k):
        g.only_wires = True

    def graph_to_swaps(g, no_swaps=False):
        if not path().memo.get('empty', {}).get(part(g.w, 'frontier')):
            raise F.Breach('the permutation is read while there are spiders left')
        if not g.only_wires:
            raise F.Breach('the permutation is read before the identities are removed')
        return Swaps(g, no_swaps)

    def list_(*a):
        if a and isinstance(a[0], NSet):
            r = NL(['n0', 'n1', 'n2'])
            r.w = a[0].w
            return r
        if a and isinstance(a[0], Gates):
            return a[0]
        return list(*a)

    def rev(x):
        return Gates(x.w, not x.rev) if isinstance(x, Gates) else reversed(x)

    def length(x):
        if isinstance(x, Ends):
            return F.Pos()
        if isinstance(x, Lst) and x.abstract:
            return 0 if x.empty() else F.Pos()
        return len(x)

    def enum(x):
        if isinstance(x, Ends):
            return F.AnyRange(lambda: (lambda i: (i, x[i]))(F.Any()))
        return enumerate(x)
    return dict(clean_frontier=clean_frontier, neighbors_of_frontier=neighbors_of_frontier, remove_gadget=remove_gadget, bi_adj=bi_adj, greedy_reduction=pairs,
                greedy_reduction_flat=pairs, greedy_two_reduction=pairs, column_optimal_swap=swap, filter_duplicate_cnots=filt, remove_extra_cnots=extra,
                apply_cnots=apply_cnots, id_simp=id_simp, graph_to_swaps=graph_to_swaps, list=list_, reversed=rev, len=length, enumerate=enum, CNOT=Cnot,
                Circuit=C, print=lambda *a, **k: None, all=lambda it: path().choose(2) == 0, sum=lambda *a: F.Pos(), compare_cnots=lambda a, b, n: path().choose(2) == 0,
                get_optimize_value=lambda c, *a: worth(c), Fraction=lambda *a: F.Any())


class NL(list):
    """a list of the neighbours"""
    w = None

    def copy(self):
        r = NL(self)
        r.w = self.w
        return r


def worth(c):
    if not isinstance(c, C):
        raise F.Breach('the size of something that is not a circuit')
    return F.Any()


class Lit(ast.NodeTransformer):
    """empty containers of the procedure become containers that know what was put into them"""
    def visit_List(self, n):
        self.generic_visit(n)
        return n if n.elts or not isinstance(n.ctx, ast.Load) else ast.copy_location(ast.Call(ast.Name('vc_list_', ast.Load()), [], []), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        return n if n.keys else ast.copy_location(ast.Call(ast.Name('vc_dict_', ast.Load()), [], []), n)

    def visit_ListComp(self, n):
        """a rearranged list of neighbours is again one"""
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('vc_comp_', ast.Load()), [n, ast.Call(ast.Name('locals', ast.Load()), [], [])], []), n)


def load(*literals, over=None, roles=None, hooks=None):
    def pre(tree):
        for i, n in enumerate(tree.body):
            if isinstance(n, ast.FunctionDef) and n.name in literals:
                Lit().visit(n)
            elif isinstance(n, ast.ClassDef):
                for k in n.body:
                    if isinstance(k, ast.FunctionDef) and k.name == 'apply_operation':
                        Lit().visit(k)
        ast.fix_missing_locations(tree)
    w = world(roles)
    w.update(over or {})

    def comp(x, loc):
        if x and all(isinstance(e, str) and e.startswith('n') for e in x):
            src = [v for v in loc.values() if isinstance(v, NL)]
            if src:
                r = NL(x)
                r.w = src[0].w
                return r
        return x

    def made(T):
        def f():
            k = path().memo.setdefault('made', {})
            r = T()
            r.idx = (T.__name__, k.setdefault(T, 0))
            k[T] += 1
            return r
        return f
    w.update(vc_list_=made(Lst), vc_dict_=made(Dct), dict=made(Dct), vc_comp_=comp)
    m = F.load(M, w, hooks=hooks, pre=pre)
    head, tail = m.vc_head_, m.vc_tail_

    def head2(lid, loc, names):
        if 'm' not in loc:
            for x in loc.values():
                if isinstance(x, (Lst, Dct)):
                    x.abstract = True
        return head(lid, loc, names)

    def tail2(lid, loc):
        prologue(loc, roles)
        return tail(lid, loc)
    if literals:
        m.vc_head_, m.vc_tail_ = head2, tail2
    return m


def prologue(loc, roles):
    """what one round of the loops that set the containers up has put into them"""
    g = [x for x in loc.values() if isinstance(x, G)]
    if not g:
        return
    f = g[0].facts
    got = {id(x): x for x in loc.values() if isinstance(x, (Lst, Dct)) and (list.__len__(x) if isinstance(x, Lst) else dict.__len__(x))}.values()
    fr = [x for x in got if isinstance(x, Lst)]
    for x in got:
        if isinstance(x, Lst):
            if list(x) != ['f'] or f.get(('inputs', 'f')) is not False:
                raise F.Breach('the frontier gets %s' % list(x))
            roles.setdefault('made', set()).add(('frontier', x.idx))
        elif list(x) == ['f']:
            if x['f'] is not f.get('index') or not fr:
                raise F.Breach('the wire of a frontier spider is not that of its output')
            roles.setdefault('made', set()).add(('qubit_map', x.idx))
        elif dict(x) == {'n': 'v'}:
            if f.get(('degree', 'v')) != 1 or f.get(('inputs', 'v')) is not False or f.get(('outputs', 'v')) is not False:
                raise F.Breach('a vertex is listed as a gadget although it may have other neighbours or is on the boundary')
            if f.get(('phase', 'n')) not in (0, 1):
                raise F.Breach('a gadget whose hub has no Pauli phase is listed')
            if f.get(('inputs', 'w')) is not False:
                raise F.Breach('a gadget whose hub is at an input is listed')
            roles.setdefault('made', set()).add(('gadgets', x.idx))
        else:
            raise F.Breach('unexpected entry %s' % x)
    if f.get(('inputs', 'f')) is False and (not fr or not any(isinstance(x, Dct) and 'f' in x for x in got)):
        raise F.Breach('the spider at an output is left out of the frontier')


def agree(P, name, roles, hunt):
    if any(o['status'] != 'discharged' for o in P.obligations):
        return
    P.record('%s: each step gets the table made for it' % name, roles.get('used', set()) <= roles.get('made', set()), 'path enumeration', 0, detail=str(roles), replay=hunt)


def good(r, perm, none=False):
    if r is None and none:
        return
    if not isinstance(r, Result):
        raise F.Breach('the result is not permutation and reversed circuit')
    if r.perm is not False and r.perm is not perm:
        raise F.Breach('the permutation is (not) kept against the caller\'s wish')


def extract(P, hunt):
    P.under_contract('pyzx.extract.extract_circuit')
    roles = {}
    m = load('extract_circuit', roles=roles)

    def run(p):
        g, perm = G(), bool(p.choose(2))
        r = m.extract_circuit(g, optimize_czs=bool(p.choose(2)), optimize_cnots=p.choose(4), up_to_perm=perm, quiet=True)
        good(r, perm)
    F.prove(P, 'extract_circuit', run, 'the steps are composed so that circuit after diagram stays the map; the result is the permutation followed by the reversed circuit', replay=hunt)
    agree(P, 'extract_circuit', roles, hunt)


# ------------------------------------------------------------------------------------------------ the search tree
def consistent(n, what):
    """invariant of a node that holds a diagram: the circuits on the way to it, then its own, then its diagram are the map we started from"""
    if not isinstance(n.g, G) or n.g.dead or type(n.c) is not C or not isinstance(n.frontier, Lst) or not isinstance(n.qubit_map, Dct) or not isinstance(n.gadgets, Dct):
        raise F.Breach('%s lacks a part of its state' % what)
    if n.c.rev or n.vc_pre + n.c.w != part(n.g.w, 'c'):
        raise F.Breach('%s: the circuit does not belong to its diagram' % what)
    for k in ('frontier', 'qubit_map', 'gadgets'):
        if getattr(n, k).w != part(n.g.w, k):
            raise F.Breach('%s: the %s does not belong to its diagram' % (what, k))


def separate(nodes):
    seen = set()
    for n in nodes:
        for x in (n.g, n.c, n.frontier, n.qubit_map, n.gadgets):
            if x is not None and id(x) in seen:
                raise F.Breach('two nodes share a %s' % type(x).__name__)
            seen.add(id(x))


def leaf(m, depth, hist=(), pre=()):
    g = G(hist)
    c = C(F.Pos(), part(hist, 'c') if depth else part(hist, 'c')[len(pre):])
    fr, q, gad = Lst(), Dct(), Dct()
    for x, k in ((fr, 'frontier'), (q, 'qubit_map'), (gad, 'gadgets')):
        x.w, x.abstract = part(hist, k), True
    n = m.LookaheadNode(g, c, fr, q, gad, depth, F.Any(), F.Any())
    n.vc_pre = () if depth else pre
    return n


def tree(m, depth, k):
    """an expanded node with k children that are leaves or trees themselves (represented by their contracts)"""
    h = (event('clean'), event('neighbours'), event('cnots'))
    n = leaf(m, depth, h, part(h, 'c')[:1])
    n.children = [leaf(m, depth, h + (event('clean'), event('neighbours'), event('cnots')), part(h, 'c')) for _ in range(k)]
    n.mark_expanded()
    return n


def expand(P, hunt):
    P.under_contract('pyzx.extract.LookaheadNode.expand', 'pyzx.extract.LookaheadNode.branch_child', 'pyzx.extract.LookaheadNode.apply_cnots', 'pyzx.extract.LookaheadNode.mark_expanded',
                     'pyzx.extract.LookaheadNode.__init__')
    m = load()
    cls, orig, tail = m.LookaheadNode, m.LookaheadNode.expand, m.vc_tail_
    seen = []

    def operation(self, alg, mat, ns):
        consistent(self, 'the node')
        if mat.dirty or mat.w != self.g.w or mat.ns != tuple(ns):
            raise F.Breach('apply_operation gets a matrix that does not belong to the diagram')
        if alg and path().choose(2):
            return None
        return [] if path().choose(2) else [Cnot('r0', 'r1')]

    def tail2(lid, loc):
        consistent(loc['self'], 'after a round the node')
        if loc['self'].children:
            raise F.Breach('a node with children goes on by itself')
        return tail(lid, loc)

    def run(p):
        depth = bool(p.choose(2))
        del seen[:]
        if p.choose(2):
            n = tree(m, depth, 2)
            pre = None
        else:
            h = (event('clean'), event('neighbours'), event('cnots'))
            n = leaf(m, depth, h, part(h, 'c')[:1])

        def sub(self, *a):
            if not n.expanded or self not in n.children:
                raise F.Breach('a node is expanded that is no child')
            seen.append(self)
        cls.expand, cls.apply_operation = sub, operation
        m.vc_tail_ = tail2
        orig(n, F.Any(), F.Any(), list(range(1 + p.choose(4))))
        if not n.expanded:
            consistent(n, 'the node')
            if n.children:
                raise F.Breach('a node with children keeps its state')
            return
        if n.opt_depth:
            pre = ()
        else:
            pre = n.vc_pre + n.c.w
        for x in n.children:
            x.vc_pre = pre
            if x.opt_depth is not depth:
                raise F.Breach('a child compares by something else')
            consistent(x, 'a child')
        separate(n.children + [n])
    F.prove(P, 'LookaheadNode.expand', run, 'one or more rounds keep the node consistent; children are consistent with the circuits before them and share no state', replay=hunt)


def operations(P, hunt):
    P.under_contract('pyzx.extract.LookaheadNode.apply_operation')
    m = load()

    def run(p):
        h = (event('clean'), event('neighbours'))
        n = leaf(m, bool(p.choose(2)), h)
        ns = NL(['n0', 'n1', 'n2'])
        ns.w = n.g.w
        mat = Mat(n.g, ns, n.frontier)
        r = n.apply_operation(p.choose(4), mat, ns)
        if mat.dirty or ns != ['n0', 'n1', 'n2']:
            raise F.Breach('the matrix or the neighbours are changed')
        consistent(n, 'the node')
        if r is not None:
            for x in r:
                if not isinstance(x, Cnot) or x.control == x.target:
                    raise F.Breach('not a list of CNOTs on rows')
    F.prove(P, 'LookaheadNode.apply_operation', run, 'gives CNOTs on the rows and changes nothing', replay=hunt)


def finished(P, hunt):
    P.under_contract(*['pyzx.extract.LookaheadNode.' + x for x in ('__has_finished', '__collect_finished_cnot', '__collect_finished_depth', 'get_finished')])
    m = load()
    cls = m.LookaheadNode
    N = '_LookaheadNode__'
    real = {k: getattr(cls, k) for k in (N + 'has_finished', N + 'collect_finished_cnot', N + 'collect_finished_depth', 'get_finished')}

    def fresh_node(p, depth):
        if p.choose(2):
            return tree(m, depth, 2)
        h = (event('clean'), event('neighbours'), event('cnots'), event('clean'), event('neighbours'))
        n = leaf(m, depth, h, part(h, 'c')[:2])
        n.collected = bool(p.choose(2))
        return n

    def has(p):
        n = fresh_node(p, False)
        fin = [bool(p.choose(2)), bool(p.choose(2))]
        setattr(cls, N + 'has_finished', lambda self: fin[n.children.index(self)])
        was = n.collected
        r = real[N + 'has_finished'](n)
        if n.expanded:
            want = [i for i in range(2) if fin[i]]
            if bool(r) != bool(want) or (n.finished_children or []) != want:
                raise F.Breach('the finished children are not those reported')
        elif bool(r) != (not was and n.frontier.empty()):
            raise F.Breach('a leaf counts as finished although its frontier is not empty or it was collected')
    F.prove(P, 'LookaheadNode.__has_finished', has, 'a node is finished iff it is an uncollected leaf with empty frontier or has such a descendant; the children are recorded', replay=hunt)

    def best(p, perm):
        return [None, Result(perm)][p.choose(2)]

    def collect(p):
        perm = bool(p.choose(2))
        n = fresh_node(p, False)
        b = best(p, perm)
        if n.expanded:
            n.finished_children = [[0], [1], [0, 1]][p.choose(3)]
            todo = [n.children[i] for i in n.finished_children]
        else:
            n.collected = False
            path().memo.setdefault('empty', {})[part(n.g.w, 'frontier')] = True     # __has_finished
        pre = C(F.Pos(), n.vc_pre)

        def sub(self, b_, d_, c, up):
            if self not in todo:
                raise F.Breach('a child that is not finished, or was done, is collected')
            todo.remove(self)
            if type(c) is not C or c.rev or c.w != n.vc_pre + n.c.w:
                raise F.Breach('a child is collected with the wrong circuit before it')
            if up is not perm:
                raise F.Breach('up_to_perm is lost')
            good(b_, perm, none=True)
            return best(p, perm), F.Any()
        setattr(cls, N + 'collect_finished_cnot', sub)
        own, w = n.c, n.c.w
        r, d = real[N + 'collect_finished_cnot'](n, b, F.Any(), pre, perm)
        good(r, perm, none=True)
        if n.c is not own or n.c.w != w or n.c.rev:
            raise F.Breach('the circuit of the node is changed')
        if n.expanded and (todo or n.finished_children is not None):
            raise F.Breach('a finished child is left out or would be collected again')
        if not n.expanded and n.collected is not True:
            raise F.Breach('a leaf could be collected again')
    F.prove(P, 'LookaheadNode.__collect_finished_cnot', collect, 'the best circuit is the one given or a circuit for the diagram; every finished leaf is seen once', replay=hunt)

    def collect_depth(p):
        perm = bool(p.choose(2))
        n = fresh_node(p, True)
        b = best(p, perm)
        todo = list(n.children)
        was = n.collected
        if was:     # collected before: its parts are used up
            n.g.dead, n.c = True, Result(perm)

        def sub(self, b_, d_, up):
            if self not in todo or up is not perm:
                raise F.Breach('a child is collected twice or with another up_to_perm')
            todo.remove(self)
            good(b_, perm, none=True)
            return best(p, perm), F.Any()
        setattr(cls, N + 'collect_finished_depth', sub)
        r, d = real[N + 'collect_finished_depth'](n, b, F.Any(), perm)
        good(r, perm, none=True)
        if n.expanded and todo:
            raise F.Breach('a child is left out')
        if not n.expanded and not was:
            if n.collected:
                good(n.c, perm)
            else:
                consistent(n, 'a leaf that is not finished')
    F.prove(P, 'LookaheadNode.__collect_finished_depth', collect_depth, 'the best circuit is the one given or a circuit for the diagram; unfinished leaves are left alone', replay=hunt)

    def get(p):
        perm, depth = bool(p.choose(2)), bool(p.choose(2))
        n = tree(m, depth, 2)
        if not depth:
            n.vc_pre = ()
        b, called = best(p, perm), []
        any_ = bool(p.choose(2))
        setattr(cls, N + 'has_finished', lambda self: any_)

        def cn(self, b_, d_, c, up):
            if depth or not any_ or self is not n or b_ is not b or up is not perm or type(c) is not C or c.w or c.rev:
                raise F.Breach('the circuits are collected with other arguments')
            called.append(1)
            return b_, d_

        def de(self, b_, d_, up):
            if not depth or self is not n or b_ is not b or up is not perm:
                raise F.Breach('the circuits are collected with other arguments')
            called.append(1)
            return b_, d_
        setattr(cls, N + 'collect_finished_cnot', cn)
        setattr(cls, N + 'collect_finished_depth', de)
        r, d = real['get_finished'](n, b, F.Any(), perm)
        if r is not b or len(called) != (1 if depth or any_ else 0):
            raise F.Breach('the finished circuits are not collected once')
    F.prove(P, 'LookaheadNode.get_finished', get, 'collects once, starting with no gates', replay=hunt)


def roots(P, hunt):
    P.under_contract('pyzx.extract.LookaheadNode.next_nodes', 'pyzx.extract.RootPicker.get_next_roots', 'pyzx.extract.RootPicker.add_possible_root')
    m = load()
    cls = m.LookaheadNode
    real = cls.next_nodes

    def next_nodes(p):
        depth = bool(p.choose(2))
        n = tree(m, depth, 2) if p.choose(2) else leaf(m, depth, (event('clean'), event('neighbours')))
        top = p.choose(2) == 0
        if top:
            n.vc_pre = ()
        elif not depth and not n.vc_pre:
            n.vc_pre = (event('cnots'),)
        prev = None if depth or top else C(F.Pos(), n.vc_pre)
        got, todo = [], list(n.children)

        class RP:
            def add_possible_root(self, x, c, d):
                if x is not n or c is not prev:
                    raise F.Breach('a root is kept with other circuits before it')
                got.append(x)

            def add_leaf(self, x, d):
                pass

        def sub(self, mi, rp, c=None, d=-1):
            if self not in todo:
                raise F.Breach('next_nodes runs twice on a child')
            todo.remove(self)
            if depth and c is not None or not depth and (type(c) is not C or c.rev or c.w != n.vc_pre + n.c.w):
                raise F.Breach('a child gets the wrong circuit before it')
        cls.next_nodes = sub
        cls.optimal = lambda self, rp, d=-1: None
        before = None if n.c is None else n.c.w
        real(n, F.Any(), RP(), prev, F.Any()) if not top or p.choose(2) else real(n, F.Any(), RP())
        if (None if n.c is None else n.c.w) != before:
            raise F.Breach('the circuit of a node is changed')
    F.prove(P, 'LookaheadNode.next_nodes', next_nodes, 'a possible root is recorded with exactly the circuits before it', replay=hunt)

    import importlib
    real_picker = importlib.import_module(M).RootPicker

    def picker(p):
        depth = bool(p.choose(2))
        rp = real_picker(2)
        ns, pres = [], {}
        for i in range(1 + p.choose(2)):
            n = tree(m, depth, 1) if p.choose(2) else leaf(m, depth, (event('clean'), event('neighbours'), event('cnots')))
            if not depth and p.choose(2):
                n.vc_pre = (event('clean'),)
            elif not depth:
                n.vc_pre = ()
            rp.add_possible_root(n, C(F.Pos(), n.vc_pre) if n.vc_pre and not depth else None, 3)
            pres[id(n)] = n.vc_pre + n.c.w if not depth else None
            n.d = -1
            ns.append(n)
            for _ in range(p.choose(3)):
                rp.add_leaf(n, p.choose(2))
        for x in rp.get_next_roots():
            if x is None or id(x) not in pres:
                raise F.Breach('a root that was not offered')
            if not depth and x.c.w != pres[id(x)]:
                raise F.Breach('the circuits before a root are not joined with its own')
    F.prove(P, 'RootPicker', picker, 'a chosen root carries the circuits before it and its own, in this order', replay=hunt)


# ------------------------------------------------------------------------------------------------ the search
def base(P, hunt):
    P.under_contract('pyzx.extract.lookahead_extract_base')
    roles = {}
    want = {}

    class Node:
        def __init__(self, g=None, c=None, frontier=None, qubit_map=None, gadgets=None, opt_depth=None, hard_limit=None, ext_count=0):
            if g is not None:
                self.g, self.c, self.frontier, self.qubit_map, self.gadgets, self.vc_pre = g, c, frontier, qubit_map, gadgets, ()
                consistent(self, 'the first root')
                for n in ('frontier', 'qubit_map', 'gadgets'):
                    roles.setdefault('used', set()).add((n, getattr(self, n).idx))
                if opt_depth is not want['depth']:
                    raise F.Breach('the search compares by something else')
            self.hard_limit, self.ext_count = F.Any(), F.Any()

        def update_hard_limit(self, x): pass
        def can_expand(self): return path().choose(2) == 0
        def expand(self, *a): pass

        def get_finished(self, b, d, up):
            good(b, want['perm'], none=True)
            if up is not want['perm']:
                raise F.Breach('up_to_perm is lost')
            return ([b, Result(up)][path().choose(2)], F.Any())

        def next_nodes(self, mi, rp, *a):
            if not isinstance(rp, Picker):
                raise Unsupported('root picker')

        def __havoc__(self, pool): return Node()

        def __inv__(self, new, name):
            if not isinstance(new, Node):
                raise F.Breach('a root is not a node')

    class Picker:
        def __init__(self, k): pass
        def get_next_roots(self): return [Node() for _ in range(path().choose(2))]

    def basic(g, optimize_czs=True, optimize_cnots=2, up_to_perm=False, quiet=True):
        if g.w or g.dead:
            raise F.Breach('a diagram that was taken apart is extracted')
        g.dead = True
        return Result(up_to_perm)

    def check_best(old, new):
        good(new, want['perm'], none=True)
    m = load('lookahead_extract_base', roles=roles, over=dict(LookaheadNode=Node, RootPicker=Picker, extract_circuit=basic),
             hooks={'best_c': (lambda v: [None, Result(want['perm'])][path().choose(2)], check_best)})

    def run(p):
        want.update(perm=bool(p.choose(2)), depth=bool(p.choose(2)))
        r = m.lookahead_extract_base(G(), -1, hard_limit=F.Any() if p.choose(2) else -1,
                                     optimize_for_depth=want['depth'], compare_basic=bool(p.choose(2)), up_to_perm=want['perm'])
        good(r, want['perm'], none=True)
    F.prove(P, 'lookahead_extract_base', run, 'the first root holds the diagram and its frontier; the result is none or a circuit for the diagram', replay=hunt, max_paths=60000)
    agree(P, 'lookahead_extract_base', roles, hunt)

    P.under_contract('pyzx.extract.lookahead_fast', 'pyzx.extract.lookahead_extract', 'pyzx.extract.lookahead_full')

    def search(g, steps=-1, depth_limit=7, min_extract=5, nodes_kept=4, hard_limit=-1, algorithms=None, optimize_for_depth=False, compare_basic=True, up_to_perm=False):
        if g.dead or g.w:
            raise F.Breach('a diagram that was taken apart is searched')
        if algorithms is not None and 0 not in algorithms:
            raise F.Breach('the search runs without the algorithm that always works')
        g.dead = True
        if isinstance(hard_limit, F.Any) and path().choose(2):
            return None
        return Result(up_to_perm)
    m2 = load(over=dict(lookahead_extract_base=search))

    def wrappers(p):
        perm = bool(p.choose(2))
        f = [m2.lookahead_fast, m2.lookahead_extract, m2.lookahead_full][p.choose(3)]
        good(f(G(), bool(p.choose(2)), perm), perm)
    F.prove(P, 'lookahead_fast, lookahead_extract, lookahead_full', wrappers, 'each search gets the whole diagram; the result is the circuit of one of them', replay=hunt)
