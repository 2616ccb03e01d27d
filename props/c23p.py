"""C23, deductive part: the single-step rules on regions with arbitrarily many neighbours."""
from fractions import Fraction
from pyvc import bundle as B, rw, exact as X
from pyvc.core import path
from props.c01p import Z, XX, BD, HB

M = 'pyzx.basicrules'


class Contract(B.Removed):
    pass


def call(name):
    def act(mod, g, h):
        from lib import gens
        site = [h[x] for x in h['site']]
        ghost = g.backend == 'ghost'
        s = g.clone_state() if ghost else gens.snapshot(g)
        ok = getattr(mod, 'check_' + name)(g, *site)
        why = g.same_state(s) if ghost else (None if gens.snapshot(g) == s else 'the diagram')
        if why:
            raise Contract('the check changes: %s' % why)
        r = getattr(mod, name)(g, *site)
        if r is not True and r is not False or bool(ok) != r:
            raise Contract('check answers %r, the rule returns %r' % (ok, r))
        return r
    return act


def legs(g, h, v, k):
    """one extra leg of another kind at v: boundary or H-box, plain or Hadamard"""
    if k:
        h['b'] = rw.external(g, 'b', BD if k < 3 else HB, [(v, 1 + k % 2)])


def nbrs(v, name=''):
    return [(name + 'Zs', Z, [(v, 1)]), (name + 'Zh', Z, [(v, 2)]), (name + 'Xs', XX, [(v, 1)]), (name + 'Xh', XX, [(v, 2)])]


def loops(g, v, k):
    if k == 1:
        g.link(v, v, 1)
    elif k == 2:
        g.link(v, v, 2)


def one_vertex(P, name):
    def build(g):
        t = [Z, XX, HB, BD][path().choose(4)]
        v = g.ind('v', t, X.phase_sym('a') if t in (Z, XX) else 0)
        h = rw.H(site=('v',), v=v)
        if t == BD:
            h['n'] = rw.external(g, 'n', Z, [(v, 1 + path().choose(2))])
            g.set_outputs((v,))
            g.ext[v] = True
            return h
        loops(g, v, path().choose(3))
        h.update(rw.bundles(g, nbrs(v)))
        legs(g, h, v, path().choose(5))
        return h
    rw.prove(P, name, M, build, call(name), what='check pure, accepted applications keep the map, rejected ones change nothing', need=name != 'remove_id')


def strong_comp(P):
    def build(g):
        t = [(Z, XX), (XX, Z), (Z, Z), (XX, XX)][path().choose(4)]
        u, v = g.ind('u', t[0], X.phase_sym('a')), g.ind('v', t[1], X.phase_sym('b'))
        h = rw.H(site=('u', 'v'), u=u, v=v)
        k = path().choose(6)
        if k < 5:
            g.link(u, v, 1)
        if k in (1, 2):
            g.link(u, v, k)
        if k == 3:
            g.link(u, u, 2)
        if k == 4:
            g.link(v, v, 1)
        if k == 0:
            ns = nbrs(u, 'u')[:3] + nbrs(v, 'v')[1:3]
            h.update(rw.bundles(g, ns))
            j = path().choose(3)
            if j == 1:
                h['b'] = rw.external(g, 'b', BD, [(u, 2)])
            if j == 2:
                h['b'] = rw.external(g, 'b', HB, [(v, 1)])
        else:
            h.update(rw.one_of(g, nbrs(u, 'u') + [('uv', Z, [(u, 1), (v, 2)]), ('uw', XX, [(u, 1), (v, 1)])], 1))
        return h
    rw.prove(P, 'strong_comp', M, build, call('strong_comp'), what='check pure, accepted applications keep the map, rejected ones change nothing')


def strong_comp_common(P):
    def build(g):
        u, v = g.ind('u', Z, X.phase_sym('a')), g.ind('v', XX, X.phase_sym('b'))
        g.link(u, v, 1)
        h = rw.H(site=('u', 'v'), u=u, v=v)
        h.update(rw.one_of(g, [('C%d%d%d' % (t, i, j), t, [(u, i), (v, j)]) for t in (Z, XX) for i in (1, 2) for j in (1, 2)], 2))
        return h
    rw.prove(P, 'strong_comp with common neighbours', M, build, call('strong_comp'), what='check pure, accepted applications keep the map, rejected ones change nothing')


def copy_X(P):
    def build(g):
        t = [(XX, Z), (XX, XX), (Z, XX)][path().choose(3)]
        v, w = g.ind('v', t[0], X.phase_sym('a')), g.ind('w', t[1], X.phase_sym('b'))
        h = rw.H(site=('v',), v=v, w=w)
        g.link(v, w, 1 + path().choose(2))
        k = path().choose(5)
        if k == 1:
            g.link(w, w, 1)
        elif k == 2:
            g.link(v, w, 1)
        elif k == 3:
            h['y'] = rw.external(g, 'y', Z, [(v, 1)])
        if k in (0, 4):
            h.update(rw.bundles(g, nbrs(w)))
            legs(g, h, w, path().choose(5) if k == 4 else 0)
        return h
    rw.prove(P, 'copy_X', M, build, call('copy_X'), what='check pure, accepted applications keep the map, rejected ones change nothing')


def fuse(P):
    def build(g):
        tu, tv = [(Z, Z), (XX, XX), (Z, XX), (HB, HB)][path().choose(4)]
        u, v = g.ind('u', tu, X.phase_sym('a')), g.ind('v', tv, X.phase_sym('b'))
        h = rw.H(site=('u', 'v'), u=u, v=v)
        k = path().choose(8)
        if k < 6:
            g.link(u, v, 1)
        if k in (1, 2):
            g.link(u, v, k)
        elif k == 3:
            g.link(u, u, 2)
        elif k == 4:
            g.link(v, v, 2)
        elif k == 5:
            g.link(v, v, 1)
        elif k == 6:
            g.link(u, v, 2)
        t = 1 + path().choose(2)
        spec = [('C%d%d' % (i, j), t, [(u, i)] * (i > 0) + [(v, j)] * (j > 0)) for i in (0, 1, 2) for j in (0, 1, 2) if i or j]
        h.update(rw.one_of(g, spec, 2 if k == 0 else 1))
        legs(g, h, [u, v][path().choose(2)], path().choose(4) if k == 0 else 0)
        return h
    rw.prove(P, 'fuse', M, build, call('fuse'), what='check pure, accepted applications keep the map, rejected ones change nothing')


def remove_id(P):
    def build(g):
        t = [Z, XX, HB][path().choose(3)]
        v = g.ind('v', t, X.phase_sym('a') if t != HB else path().choose(2))
        h = rw.H(site=('v',), v=v)
        k = path().choose(12)
        if k < 6:
            t0, t1 = [(BD, BD), (Z, XX), (Z, BD), (HB, Z), (XX, XX), (HB, BD)][k]
            h['n0'] = rw.external(g, 'n0', t0, [(v, 1 + path().choose(2))])
            h['n1'] = rw.external(g, 'n1', t1, [(v, 1 + path().choose(2))])
        elif k < 8:
            h['n0'] = n0 = g.ind('n0', k - 5, X.phase_sym('c'))   # both edges to one spider
            g.link(v, n0, 1 + path().choose(2))
            g.link(v, n0, 1 + path().choose(2))
            h.update(rw.bundles(g, nbrs(n0)[:2]))
        elif k == 8:
            g.link(v, v, 1 + path().choose(2))
        else:
            for n in ('n0', 'n1', 'n2')[:1 + 2 * (k % 2)]:
                h[n] = rw.external(g, n, Z, [(v, 1 + path().choose(2))])
        return h
    rw.prove(P, 'remove_id', M, build, call('remove_id'), what='check pure, accepted applications keep the map, rejected ones change nothing')


def color_change_diagram(P):
    """one iteration of the loop of color_change_diagram, for an arbitrary vertex"""
    def build(g):
        t = [Z, XX, HB][path().choose(3)]
        v = g.ind('v', t, X.phase_sym('a') if t != HB else 1)
        h = rw.H(v=v)
        loops(g, v, path().choose(3) if t != HB else 0)
        if t != HB:
            h.update(rw.bundles(g, nbrs(v)))
        legs(g, h, v, path().choose(5) if t != HB else 1)
        return h

    def act(mod, g, h):
        if g.backend != 'ghost':
            if g.type(h.v) in (1, 2):
                mod.color_change(g, h.v)
            return True
        g.cand_v = [h.v]
        g.vertices = lambda: B.GList(g.cand_v)
        mod.color_change_diagram(g)
        return True
    rw.prove(P, 'color_change_diagram, step at a vertex that is no boundary', M, build, act)

    # step at a boundary: exactly its edge is toggled
    X.install()
    mod = B.instrument(M)

    def run(p):
        g = rw.fresh()
        b = g.ind('b', BD, 0)
        other = [Z, XX, BD, HB][p.choose(4)]
        et = 1 + p.choose(2)
        n = rw.external(g, 'n', other, [(b, et)])
        g.set_inputs((b,))
        s = g.clone_state()
        g.vertices = lambda: B.GList([b])
        mod.color_change_diagram(g)
        c = g.count(b, n)
        got = (c[0].d, c[1].d)
        want = (B.PP.const(et == 2).d, B.PP.const(et == 1).d)
        s['E'] = {k: list(v) for k, v in g.E.items()}
        return got == want and g.same_state(s) is None
    paths = P.explore(run)
    P.record('color_change_diagram, step at a boundary: its edge and nothing else is toggled', all(r for _, r in paths), 'execution', detail=str([r for _, r in paths]))


def conjugated(P):
    """check_copy_Z, copy_Z, check_pi_commute_X, pi_commute_X: against the contracts of color_change_diagram, copy_X, pi_commute_Z"""
    mod = B.instrument(M)
    for outer, inner in (('copy_Z', 'copy_X'), ('pi_commute_X', 'pi_commute_Z'), ('check_copy_Z', 'check_copy_X'), ('check_pi_commute_X', 'check_pi_commute_Z')):
        def run(p):
            log = []
            res = p.choose(2) == 1
            g, v = object(), object()
            saved = mod.color_change_diagram, getattr(mod, inner)
            try:
                mod.color_change_diagram = lambda x: log.append(('cc', x))
                setattr(mod, inner, lambda x, y: (log.append((inner, x, y)), res)[1])
                r = getattr(mod, outer)(g, v)
            finally:
                mod.color_change_diagram = saved[0]
                setattr(mod, inner, saved[1])
            return r is res and log == [('cc', g), (inner, g, v), ('cc', g)]
        paths = P.explore(run)
        ok = all(r for _, r in paths)
        P.record('%s conjugates %s by the colour change' % (outer, inner), True if ok else None, 'callee contracts', detail='another sequence of calls')


ALL = [('one_vertex', ('color_change',), ['color_change', 'check_color_change']), ('one_vertex', ('pi_commute_Z',), ['pi_commute_Z', 'check_pi_commute_Z']),
       ('strong_comp', (), ['strong_comp', 'check_strong_comp']), ('strong_comp_common', (), ['strong_comp', 'check_strong_comp']),
       ('copy_X', (), ['copy_X', 'check_copy_X']), ('fuse', (), ['fuse', 'check_fuse']), ('remove_id', (), ['remove_id', 'check_remove_id']),
       ('color_change_diagram', (), ['color_change_diagram']), ('conjugated', (), ['copy_Z', 'check_copy_Z', 'pi_commute_X', 'check_pi_commute_X'])]


def register(S):
    def add(f, args, fns):
        @S.proof('proof of %s' % ' '.join([f] + list(args)), functions=['basicrules.' + x for x in fns], limit=300)
        def _(P):
            globals()[f](P, *args)
    for f, args, fns in ALL:
        add(f, args, fns)
