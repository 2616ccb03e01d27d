"""C02, deductive part: the driver, the strategies by the contracts of the rules (C01), the colour changes and to_graph_like by execution
on arbitrary neighbourhoods."""
from fractions import Fraction
from pyvc import bundle as B, rw, exact as X, flow as F
from pyvc.core import path, PathAbort
from props.c01p import Z, XX, BD, HB

M = 'pyzx.simplify'
# matcher -> (rewrite it belongs to, needs a graph-like diagram); every pair is proved in C01
PAIRS = {'match_pivot_parallel': ('pivot', 0), 'match_pivot_gadget': ('pivot', 0), 'match_pivot_boundary': ('pivot', 1), 'match_lcomp_parallel': ('lcomp', 0),
         'match_bialg_parallel': ('bialg', 0), 'match_spider_parallel': ('spider', 0), 'match_ids_parallel': ('remove_ids', 0),
         'match_phase_gadgets': ('merge_phase_gadgets', 0), 'match_supplementarity': ('apply_supplementarity', 0), 'match_copy': ('apply_copy', 1)}


# ---------------------------------------------------------------------------------------------- the driver
class G(F.Diag):
    """records the effects of the driver"""
    def __init__(self, map='M', **k):
        F.Diag.__init__(self, map, **k)
        self.log = []

    def add_edge_table(self, e): self.log.append(('add', e))
    def remove_edges(self, e): self.log.append(('edges', e))
    def remove_vertices(self, e): self.log.append(('verts', e))
    def remove_isolated_vertices(self): self.log.append(('isolated',))


def driver(P):
    ghost = {}

    def havoc_flag(v):
        # invariant: the flag is set unless the last search found nothing
        if path().choose(2):
            ghost['last'] = 'empty'
            return False
        return True

    def check_flag(old, new):
        if new is False and ghost.get('last') != 'empty' or new is not False and new is not True:
            raise F.Breach('the loop ends although the last search found matches')
    m = F.load(M, dict(print=lambda *a, **k: None), hooks={'new_matches': (havoc_flag, check_flag)})

    def callbacks(g):
        matchf = object() if path().choose(2) else None

        def match(g_, *a):
            if g_ is not g or a != ((matchf,) if matchf is not None else ()):
                raise F.Breach('match is called with other arguments')
            finish()
            ghost['last'] = 'empty' if path().choose(2) else 'found'
            return [] if ghost['last'] == 'empty' else ['m1', 'm2'][:1 + path().choose(2)]

        def rewrite(g_, ms):
            if g_ is not g or ghost.get('last') != 'found' or not ms:
                raise F.Breach('rewrite is called without matches')
            finish()
            ghost['todo'] = ('etab', 'verts', 'edges', path().choose(2) == 0)
            return ghost['todo']

        def finish():
            """every effect of a rewrite has been applied, once and in the order of apply_rule"""
            t = ghost.pop('todo', None)
            want = [] if t is None else [('add', t[0]), ('edges', t[2]), ('verts', t[1])] + ([('isolated',)] if t[3] else [])
            if g.log != want:
                raise F.Breach('effects %s instead of %s' % (g.log, want))
            g.log = []
        return matchf, match, rewrite, finish

    def run(p):
        ghost.clear()
        g = G()
        matchf, match, rewrite, finish = callbacks(g)
        r = m.simp(g, 'name', match, rewrite, matchf=matchf, quiet=path().choose(2) == 0)
        finish()
        if ghost.get('last') != 'empty':
            raise F.Breach('simp stops although the last search found matches')
    F.prove(P, 'simp', run, 'any number of rounds: every rewrite is applied completely, the last search found nothing', replay=lambda: real_driver() or False)

    def counting(p):
        """the result is zero iff nothing was rewritten (rounds unrolled)"""
        ghost.clear()
        g = G()
        n = p.choose(4)
        left = [n]

        def match(g_, *a):
            left[0] -= 1
            return [] if left[0] < 0 else ['m']
        import importlib
        r = importlib.import_module(M).simp(g, 'name', match, lambda g_, ms: ('etab', [], [], True), quiet=True)
        if r != n:
            raise F.Breach('%d rounds reported as %r' % (n, r))
    F.prove(P, 'simp', counting, 'the result is the number of rounds (0 to 3 rounds)')

    def iterators(p):
        ghost.clear()
        g = G()
        ghost['n'] = 0
        matchf, match, rewrite, finish = callbacks(g)
        for x in m.simp_iter(g, 'name', lambda g_: match(g_, *((matchf,) if matchf is not None else ())), rewrite):
            if x[0] is not g:
                raise F.Breach('another diagram is yielded')
            finish()
        finish()
        if ghost.get('last') != 'empty':
            raise F.Breach('the iterator stops although the last search found matches')
    F.prove(P, 'simp_iter', iterators, 'each step yields the diagram after one complete rewrite', replay=lambda: False)


def real_driver():
    """the driver on real rules and random diagrams"""
    import random
    from lib import gens, refsem
    import pyzx as zx
    rng = random.Random(3)
    for k in range(60):
        g = gens.rand_circuit(rng, (1, 3), (1, 15), gens.GATES_T).to_graph()
        a = refsem.graph_matrix(g)
        f = rng.choice([zx.simplify.spider_simp, zx.simplify.id_simp, zx.simplify.interior_clifford_simp, zx.full_reduce])
        d = gens.describe(g)
        f(g, quiet=True)
        if not refsem.close(a, refsem.graph_matrix(g)):
            return dict(what='%s changes the linear map' % f.__name__, data=dict(diagram=d))
    return None


def instances(P):
    """every *_simp runs the driver on a matcher and the rewrite it belongs to"""
    import importlib
    import inspect
    real = importlib.import_module(M)
    names = [n for n, f in vars(real).items() if inspect.isfunction(f) and f.__module__ == M and (n.endswith('_simp') or n.endswith('_iter'))]
    calls = []
    rec = lambda g, name, match, rewrite, matchf=None, quiet=False, stats=None: calls.append((g, match, rewrite, matchf, quiet, stats)) or calls
    m = F.load(M, dict(simp=rec, simp_iter=rec))
    P.under_contract(*['simplify.' + n for n in names])

    def run(p):
        for n in sorted(names):
            if n in COMPOSITE or n == 'simp_iter':
                continue
            f = getattr(m, n)
            del calls[:]
            g = F.Diag('M')
            kw = {}
            if 'matchf' in inspect.signature(f).parameters:
                kw['matchf'] = object()
            r = f(g, **kw)
            if len(calls) != 1 or r is not calls:
                raise F.Breach('%s does not return the result of one run of the driver' % n)
            g_, ma, rw_, mf, _, _ = calls[0]
            k = PAIRS.get(getattr(ma, '__name__', '?'))
            if g_ is not g or k is None or rw_.__name__ != k[0] or mf is not kw.get('matchf'):
                raise F.Breach('%s runs %s with %s' % (n, getattr(ma, '__name__', ma), getattr(rw_, '__name__', rw_)))
    F.prove(P, 'the *_simp and *_iter procedures', run, 'one run of the driver on a matcher, the rewrite proved for it and the given filter')


COMPOSITE = ('phase_free_simp', 'interior_clifford_simp', 'clifford_simp', 'clifford_iter', 'interior_clifford_iter', 'full_reduce_iter')


# ---------------------------------------------------------------------------------------------- the strategies
NEED_GL = {'pivot_boundary_simp', 'copy_simp'}
PRIM = ['id_simp', 'spider_simp', 'pivot_simp', 'lcomp_simp', 'pivot_gadget_simp', 'gadget_simp', 'supplementarity_simp', 'bialg_simp', 'pivot_boundary_simp', 'copy_simp']


class D(F.Diag):
    """facts: rules that have no match now; gh: no X spider; fused: graph-like"""
    def __init__(self, map, **k):
        F.Diag.__init__(self, map, **k)
        self.facts, self.gh, self.gl, self.hbox = set(), False, False, False

    def types(self): return {'v': 3 if self.hbox else 1}
    def vertices(self): return ['v']
    def copy(self, *a, **k):
        r = F.Diag.copy(self)
        r.gh, r.gl = self.gh, self.gl
        return r

    def __havoc__(self, pool):
        raise AssertionError


def step(name, st):
    def f(g, matchf=None, quiet=False, stats=None, **k):
        g.mutate(name)
        st['filters'].add(matchf)
        if name in NEED_GL and not g.gl:
            raise F.Breach('%s runs on a diagram that need not be graph-like' % name)
        if path().choose(2) == 0:
            g.facts.add(name)
            if name == 'spider_simp' and g.gh:
                g.gl = True
            return 0
        g.facts = {name}
        if name == 'spider_simp' and g.gh:
            g.gl = True
        return F.Pos()
    return f


def strategies(P):
    st = {}

    def to_gh(g, quiet=True):
        g.mutate('to_gh')
        g.gh, g.gl, g.facts = True, False, set()

    def base():
        d = {n: step(n, st) for n in PRIM}
        d['to_gh'] = to_gh
        return d

    def interior(g, **k):
        g.mutate('interior_clifford_simp')
        st['filters'].add(k.get('matchf'))
        g.facts = {'id_simp', 'spider_simp', 'pivot_simp', 'lcomp_simp'}
        g.gh = g.gl = True
        return [0, F.Pos()][path().choose(2)]

    def clifford(g, **k):
        interior(g, **k)
        g.facts.add('pivot_boundary_simp')
        return [0, F.Pos()][path().choose(2)]
    IN = {'id_simp', 'spider_simp', 'pivot_simp', 'lcomp_simp'}

    def one(name, over, post, ret=None):
        m = F.load(M, dict(base(), **over))

        def run(p):
            st.clear()
            st['filters'] = set()
            g = D('M')
            mf = object()
            has = name not in ('reduce_scalar', 'phase_free_simp')
            r = getattr(m, name)(g, **(dict(matchf=mf) if has else {}))
            if g.map != 'M' or not g.valid:
                raise F.Breach('another map')
            if not post <= g.facts:
                raise F.Breach('it may stop although %s still applies' % sorted(post - g.facts))
            if has and st['filters'] != {mf}:
                raise F.Breach('the filter is not passed on')
            return r
        F.prove(P, name, run, 'any number of rounds: the map is kept, on return no rule of the strategy applies%s' % (' (last: %s)' % ', '.join(sorted(post)) if post else ''),
                replay=lambda: real_strategy(name) or False)
    one('interior_clifford_simp', {}, IN)
    one('clifford_simp', dict(interior_clifford_simp=interior), {'pivot_boundary_simp'} | IN)
    one('full_reduce', dict(interior_clifford_simp=interior, clifford_simp=clifford), {'pivot_gadget_simp'} | IN)
    one('reduce_scalar', {}, IN | {'supplementarity_simp', 'pivot_gadget_simp', 'gadget_simp'})
    one('phase_free_simp', {}, {'bialg_simp'})


def real_strategy(name):
    import random
    from lib import gens, refsem
    import pyzx as zx
    rng = random.Random(5)
    for k in range(60):
        g = gens.rand_circuit(rng, (1, 3), (1, 20), gens.GATES_T).to_graph()
        if name == 'reduce_scalar':
            g.apply_state('0' * g.num_inputs())
            g.apply_effect('0' * g.num_outputs())
        a = refsem.graph_matrix(g)
        d = gens.describe(g)
        getattr(zx.simplify, name)(g, quiet=True)
        if not refsem.close(a, refsem.graph_matrix(g)):
            return dict(what='%s changes the linear map' % name, data=dict(diagram=d))
    return None


# ---------------------------------------------------------------------------------------------- colour changes
def nbrs(v, n=''):
    return [(n + 'Zs', Z, [(v, 1)]), (n + 'Zh', Z, [(v, 2)]), (n + 'Xs', XX, [(v, 1)]), (n + 'Xh', XX, [(v, 2)])]


def colour(P, name):
    def build(g):
        t = [XX, Z, HB][path().choose(3)]      # a box is no spider: the step leaves it alone
        u = g.ind('u', t, X.phase_sym('a') if t != HB else 1)
        h = rw.H(u=u)
        k = path().choose(6) if t != HB else 4 * path().choose(2)
        if k in (1, 2):
            g.link(u, u, k)
        if k == 3:
            v = h['v'] = g.ind('v', [XX, Z][path().choose(2)], X.phase_sym('b'))
            g.link(u, v, 1 + path().choose(2))
            if path().choose(2):
                g.link(u, v, 1 + path().choose(2))
            h.update(rw.one_of(g, nbrs(u, 'u') + nbrs(v, 'v'), 1))
        elif k in (0, 4):
            h.update(rw.bundles(g, nbrs(u)))
        if k in (4, 5):
            h['b'] = rw.external(g, 'b', [BD, HB][path().choose(2)], [(u, 1 + path().choose(2))])
        return h

    def act(mod, g, h):
        mine = [h[x] for x in ('u', 'v') if x in h]
        if g.backend == 'ghost':
            g.vertices = lambda: B.GList(mine)
        if name == 'to_gh':
            mod.to_gh(g)
            if any(int(g.type(x)) == 2 for x in mine):
                raise B.Removed('an X spider is left')
        else:
            mod.to_rg(g, select=lambda x: x in mine)
        return True
    rw.prove(P, name, M, build, act)


def real_verts(g, mine):
    if g.backend == 'ghost':
        g.vertices = lambda: B.GList(mine)


def graph_like(P):
    """to_graph_like after to_gh and spider_simp (their contracts): boundaries that share a spider."""
    def build(g):
        k = path().choose(4)
        h = rw.H()
        if k < 2:
            v = h['v'] = g.ind('v', Z, X.phase_sym('a'))
            n = 1 + path().choose(3)
            for i in range(n):
                h['b%d' % i] = rw.external(g, 'b%d' % i, BD, [(v, 1 + path().choose(2))])
                g.ctx_neighbors[h['b%d' % i]] = [v]
            if k:
                h.update(rw.bundles(g, [('N', Z, [(v, 2)]), ('K', HB, [(v, 1)])]))
        return h

    def act(mod, g, h):
        if g.backend == 'ghost':
            mine = [x for x in h.values() if not x.idx]
            saved = {n: mod.__dict__[n] for n in ('to_gh', 'spider_simp', 'is_graph_like')}
            mod.to_gh = lambda g, **k: None
            mod.spider_simp = lambda g, **k: 0
            mod.is_graph_like = lambda g, strict=False: True
            g.vertices = lambda: B.GList(mine)
            try:
                mod.to_graph_like(g)
            finally:
                mod.__dict__.update(saved)
            for x in mine:
                if int(g.type(x)) == 1 and sum(1 for w in B._it(g.neighbors(x)) if int(g.type(w)) == 0) > 1:
                    raise B.Removed('a spider still has two boundaries')
        else:
            mod.to_graph_like(g)
        return True
    rw.prove(P, 'to_graph_like, spiders with several boundaries', M, build, act)


def wires(P):
    X.install()
    mod = B.instrument(M)

    def run(p):
        from pyzx.utils import VertexType
        g = rw.fresh()
        a, b = g.ind('a', BD, 0, ext=False), g.ind('b', BD, 0, ext=False)
        et = 1 + p.choose(2)
        g.link(a, b, et)
        fr = [(a, 'x'), (b, 'y')]
        for v, n in fr:
            w = g.ind(n, Z, 0, ext=True)   # the value carried by each end
            g.link(v, w, 1)
        saved = {n: mod.__dict__[n] for n in ('to_gh', 'spider_simp', 'is_graph_like')}
        g0 = B.Snap(g)
        mod.to_gh = lambda g, **k: None
        mod.spider_simp = lambda g, **k: 0
        mod.is_graph_like = lambda g, strict=False: True
        real_n = g.neighbors
        hide = lambda v: B.GList([w for w in real_n(v) if w.name not in ('x', 'y')])
        g.neighbors = hide
        g.vertices = lambda: B.GList([a, b])
        try:
            mod.to_graph_like(g)
        finally:
            mod.__dict__.update(saved)
        for v in (a, b):
            if int(g.type(v)) == 0 and [int(g.type(w)) for w in hide(v)] != [1]:
                return (False, 'boundary %r is not on a spider' % v)
        return B.equal_maps(g0, g, [])
    paths = P.explore(run)
    bad = [r for _, r in paths if r is not True and not r[0]]
    P.record('to_graph_like, wires between boundaries', not bad, 'path-sum normal form', detail=str(bad[:1]))


def register(S):
    q = lambda *a: ['pyzx.simplify.' + x for x in a]
    for name, fns, f, lim in [
            ('driver', q('simp', 'simp_iter'), driver, 60),
            ('rule pairs', [], instances, 60),
            ('strategies by contract', q('interior_clifford_simp', 'clifford_simp', 'full_reduce', 'reduce_scalar', 'phase_free_simp'), strategies, 120),
            ('colour changes', q('to_gh', 'to_rg'), lambda P: (colour(P, 'to_gh'), colour(P, 'to_rg')), 120),
            ('to_graph_like by execution', q('to_graph_like'), lambda P: (graph_like(P), wires(P)), 120)]:
        S.proof(name, functions=fns, limit=lim)(f)
