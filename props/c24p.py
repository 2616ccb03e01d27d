"""C24, deductive part: the congruences on arbitrary graph-like neighbourhoods (bundle engine, maps up to a nonzero scalar)."""
from fractions import Fraction
from pyvc import bundle as B, rw, exact as X
from pyvc.core import path
from props.c01p import Z, XX, BD, HB

M = 'pyzx.local_search.congruences'


def with_toggle(mod, g):
    """toggle_edge by its contract: the map is multiplied by a controlled-Z between the two spiders, up to a nonzero scalar"""
    if g.backend != 'ghost':
        return mod

    def toggle_edge(g, a, b):
        B.need_active((a, b))
        g.bump(a, b, 2, 1)
    mod.toggle_edge = toggle_edge
    return mod


def congruence(P, name, build, call, what=None, pre=None):
    def act(mod, g, h):
        if pre is not None and not pre(mod, g, h):
            return False
        call(with_toggle(mod, g), g, h)
        return True
    real = B.instrument(M).toggle_edge
    try:
        rw.prove(P, name, M, build, act, what=what or 'the map changes by a nonzero factor at most, the interface stays', proportional=True)
    finally:
        B.instrument(M).toggle_edge = real


def toggle(P):
    def build(g):
        u, v = g.ind('u', Z, X.phase_sym('a')), g.ind('v', Z, X.phase_sym('b'))
        h = rw.H(u=u, v=v, on=path().choose(2))
        if h.on:
            g.link(u, v, 2)
        h.update(rw.bundles(g, [('A', Z, [(u, 2)]), ('C', Z, [(v, 2)])]))
        return h

    def act(mod, g, h):
        mod.toggle_edge(g, h.u, h.v)
        # undone by a CZ: one more Hadamard edge (two of them cancel up to a scalar)
        if g.backend == 'ghost':
            g.bump(h.u, h.v, 2, 1)
        else:
            g.add_edge_table({(h.u, h.v): [0, 1]})
        return True
    rw.prove(P, 'toggle_edge', M, build, act, what='the effect is a controlled-Z up to a nonzero factor', proportional=True)


def star(g, v, h, bad=True):
    h.update(rw.bundles(g, [('N', Z, [(v, 2)]), ('K', Z, [(v, 2)])]))
    k = path().choose(3) if bad else 0
    if k:
        h['b'] = rw.external(g, 'b', BD, [(v, k)])


def lc(P, name):
    def build(g):
        v = g.ind('v', Z, X.phase_sym('a'))
        h = rw.H(v=v)
        star(g, v, h)
        return h
    congruence(P, name, build, lambda mod, g, h: getattr(mod, name)(g, h.v), pre=lambda mod, g, h: mod.is_lc_vertex(g, h.v))


def unfuse(P):
    def build(g):
        v = g.ind('v', Z, X.phase_sym('a'))
        h = rw.H(v=v)
        h.update(rw.bundles(g, [('N', Z, [(v, 2)]), ('K', XX, [(v, 1)])]))
        for i in range(path().choose(3)):
            h['b%d' % i] = rw.external(g, 'b%d' % i, BD, [(v, 1 + path().choose(2))])
        return h

    def call(mod, g, h):
        w = mod.unfuse(g, h.v)
        if any(int(g.type(b)) == 0 for b in B._it(g.neighbors(h.v))) or not g.phase(h.v) == 0 or int(g.type(w)) != 1:
            raise B.Removed('unfuse leaves a boundary or the phase behind')
    congruence(P, 'unfuse', build, call)


def pivot_cong(P):
    def build(g):
        u, v = g.ind('u', Z, X.phase_sym('a')), g.ind('v', Z, X.phase_sym('b'))
        g.link(u, v, 2)
        h = rw.H(u=u, v=v)
        h.update(rw.bundles(g, [('A', Z, [(u, 2)]), ('C', Z, [(v, 2)]), ('D', Z, [(u, 2), (v, 2)])]))
        k = path().choose(5)
        if k in (1, 3):
            h['b'] = rw.external(g, 'b', BD, [(u, 1 + path().choose(2))])
        if k in (2, 3):
            h['c'] = rw.external(g, 'c', BD, [(v, 1 + path().choose(2))])
        if k == 4:
            h['b'] = rw.external(g, 'b', BD, [(u, 1)])
            h['c'] = rw.external(g, 'c', BD, [(u, 2)])
        return h
    congruence(P, 'pivot_cong', build, lambda mod, g, h: mod.pivot_cong(g, h.u, h.v), pre=lambda mod, g, h: mod.is_pivot_edge(g, g.edge(h.u, h.v)))


def register(S):
    L = 'local_search.congruences.'
    for name, fns, f, lim in [
            ('toggle_edge', ['toggle_edge'], toggle, 60),
            ('local complementation', ['lc_cong', 'is_lc_vertex'], lambda P: lc(P, 'lc_cong'), 120),
            ('local complementation by a gadget', ['lc_cong2', 'is_lc_vertex'], lambda P: lc(P, 'lc_cong2'), 120),
            ('unfuse any boundaries', ['unfuse'], unfuse, 120),
            ('pivot', ['pivot_cong', 'toggle_subset_connectivity', 'unfuse', 'is_pivot_edge'], pivot_cong, 200)]:
        S.proof(name, functions=[L + x for x in fns], limit=lim)(f)


# ---------------------------------------------------------------------------------------------- the searches, by the contracts of the moves
def contracts(**over):
    """callee contracts of the searches: every move keeps the denotation (up to a nonzero scalar)"""
    from pyvc import flow as F

    def move(g, *a, **k):
        if not isinstance(g, F.Diag):
            raise F.Breach('a move on something that is no diagram')
        g.mutate('a move')

    def extract_circuit(g, *a, **k):
        g.mutate('extract_circuit')
        g.valid = False
        return F.Circ(g.map)

    def optimize(c, *a, **k):
        c.need('basic_optimization')
        return F.Circ(c.map)
    r = dict(apply_rand_pivot=move, apply_rand_lc=move, full_reduce=move, to_graph_like=move, extract_circuit=extract_circuit, basic_optimization=optimize,
             random=F.AnyModule(sample=lambda xs, k: sample(xs, k)), math=F.AnyModule(), tqdm=lambda it, **k: it, shuffle=lambda xs: shuffle(xs))
    r.update(over)
    return r


def sample(xs, k):
    """k different positions of the list, every choice"""
    xs, out = list(xs), []
    for _ in range(k):
        out.append(xs.pop(path().choose(len(xs))))
    return out


def shuffle(xs):
    xs[:] = sample(xs, len(xs))


def anneal(P):
    from pyvc import flow as F
    m = F.load('pyzx.local_search.simulated_annealing', contracts(g_wgc=lambda g, **k: (g.need('score'), F.Any())[1]))

    def run(p):
        g = F.Diag('M', frozen=True, name='the argument')
        kw = dict(iters=F.Any(), temp=F.Any(), cool=F.Any(), full_reduce_prob=F.Any(), reset_prob=F.Any(), quiet=True, score=m.g_wgc)
        r = m.anneal(g, **kw)
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], F.Diag) and r[0].valid and r[0].map == 'M'):
            raise F.Breach('the result does not denote the argument\'s map')
        if r[0] is g:
            raise F.Breach('the result is the argument itself')
    F.prove(P, 'anneal', run, 'any number of iterations: the argument is unchanged, the result is another diagram with the same map')


def scores(P):
    from pyvc import flow as F
    m = F.load('pyzx.local_search.scores', contracts(wgc=lambda c, **k: (c.need('wgc'), F.Any())[1]))

    def run(p):
        g = F.Diag('M', frozen=True, name='the scored diagram')
        m.g_wgc(g, g_simplify=path().choose(2) == 0, c_simplify=path().choose(2) == 0)
    F.prove(P, 'g_wgc', run, 'the scored diagram is unchanged')


def mutation(P):
    from pyvc import flow as F
    m = F.load('pyzx.local_search.genetic', contracts())

    def run(p):
        c, g = F.Circ('M', frozen=True, name='the circuit'), F.Diag('M', frozen=True, name='the diagram')
        ok, (c2, g2) = [m.rand_pivot, m.rand_lc][path().choose(2)](c, g)
        if ok is not True or not isinstance(c2, F.Circ) or not isinstance(g2, F.Diag) or c2.map != 'M' or g2.map != 'M' or not g2.valid or not c2.valid:
            raise F.Breach('the mutated pair does not denote the same map')
    F.prove(P, 'rand_pivot, rand_lc', run, 'the arguments are unchanged, diagram and circuit of the result denote the same map')


def evolve(P, n):
    from pyvc import flow as F

    class Population:
        """any population the loop may have produced"""

    def score(mu):
        mu.c_curr.need('score')
        return F.Any()
    m = F.load('pyzx.local_search.genetic', contracts())

    def fresh(o):
        """an arbitrary population of n mutants: distinct objects, diagram and circuit denote the map"""
        out = []
        for _ in range(n):
            mu = m.Mutant.__new__(m.Mutant)
            mu.c_orig, mu.c_curr, mu.g_curr, mu.score, mu.dead = o.c_orig, F.Circ('M'), F.Diag('M'), F.Any(), path().choose(2) == 0 if n < 3 else False
            out.append(mu)
        return out

    def good(mu, name='a mutant'):
        if mu.g_curr.map != 'M' or not mu.g_curr.valid or mu.c_curr.map != 'M' or not mu.c_curr.valid:
            raise F.Breach('%s no longer denotes the map' % name)

    def run(p):
        o = m.GeneticOptimizer.__new__(m.GeneticOptimizer)

        def act(c, g):  # contract of an action
            g.need('an action')
            c.need('an action')
            ok = path().choose(2) == 0
            return ok, (F.Circ(c.map), F.Diag(g.map))
        o.actions, o.score = [act], score
        m.Mutant.__havoc__ = lambda self, pool: good(self) or [self, fresh(o)[0]][path().choose(2)]
        m.Mutant.__inv__ = lambda self, new, name: good(new, name)
        g = F.Diag('M', frozen=True, name='the argument')
        orig_mutate = m.GeneticOptimizer.mutate

        def mutate(self):
            """the generation loop is entered with an arbitrary population"""
            if path().memo.get('started') is None:
                path().memo['started'] = True
                if path().choose(2):
                    for x in self.mutants:
                        good(x)
                    self.mutants = fresh(self)
            orig_mutate(self)
            for x in self.mutants:
                good(x)
        o.mutate = _types.MethodType(mutate, o)
        orig_select = o.select

        def select(*a, **k):
            orig_select(*a, **k)
            if len(self_ids := {id(x) for x in o.mutants}) != n:
                raise F.Breach('the next population has %d distinct mutants instead of %d' % (len(self_ids), n))
            if len({id(x.g_curr) for x in o.mutants}) != n:
                raise F.Breach('two mutants share a diagram')
            for x in o.mutants:
                good(x)
        o.select = select
        r = o.evolve(g, n, F.Any())
        if not isinstance(r, F.Diag) or not r.valid or r.map != 'M' or r is g:
            raise F.Breach('the result does not denote the argument\'s map')
    import types as _types
    F.prove(P, 'evolve with %d mutants' % n, run, 'any number of generations: the argument is unchanged, the result and every mutant denote its map', max_paths=60000)


def moves(P):
    """apply_rand_lc / apply_rand_pivot choose an admissible subject and apply the congruence once"""
    from pyvc import flow as F
    state = {}

    class Rnd:
        def choice(self, xs, k, p=None):
            xs = list(range(xs)) if isinstance(xs, int) else list(xs)
            return [xs[path().choose(len(xs))]]

    class Np:
        random = Rnd()

    class G:
        def vertices(self): return ['v0', 'v1', 'v2']
        def edges(self): return [('v0', 'v1'), ('v1', 'v2')]
        def edge_st(self, e): return e
    over = dict(np=Np(), is_lc_vertex=lambda g, v: state.setdefault(v, path().choose(2) == 0), is_pivot_edge=lambda g, e: state.setdefault(e, path().choose(2) == 0),
                lc_cong=lambda g, v: state['calls'].append(v), lc_cong2=lambda g, v: state['calls'].append(v), pivot_cong=lambda g, a, b: state['calls'].append((a, b)))
    m = F.load(M, over)

    def run(p):
        state.clear()
        state['calls'] = []
        g = G()
        k = path().choose(2)
        [m.apply_rand_lc, m.apply_rand_pivot][k](g)
        calls = state.pop('calls')
        subjects = g.vertices() if k == 0 else g.edges()
        ok = [s for s in subjects if state.get(s)]
        if bool(calls) != bool(ok) or len(calls) > 1 or any(s not in ok for s in calls):
            raise F.Breach('subjects %s, admissible %s' % (calls, ok))
    F.prove(P, 'apply_rand_lc, apply_rand_pivot', run, 'one congruence at an admissible subject, nothing if there is none')


_register = register


def register(S):
    _register(S)
    L = 'local_search.'
    for name, fns, f, lim in [
            ('random moves by contract', ['congruences.apply_rand_lc', 'congruences.apply_rand_pivot'], moves, 60),
            ('annealing', ['simulated_annealing.anneal', 'scores.g_wgc'], lambda P: (anneal(P), scores(P)), 120),
            ('mutations', ['genetic.rand_pivot', 'genetic.rand_lc'], mutation, 60),
            ('evolution', ['genetic.GeneticOptimizer.evolve', 'genetic.GeneticOptimizer._evolve', 'genetic.GeneticOptimizer.mutate', 'genetic.GeneticOptimizer.select', 'genetic.Mutant'], lambda P: evolve(P, 2), 200)]:
        S.proof(name, functions=[L + x for x in fns], limit=lim)(f)
