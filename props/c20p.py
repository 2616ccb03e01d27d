"""C20, deductive part: each ZH rule on regions with arbitrarily many neighbours (bundle engine)."""
from pyvc import bundle as B, rw, exact as X
from pyvc.core import path
from props.c01p import Z, XX, BD, HB, only

M = 'pyzx.hrules'


def hbox(g, name, phase=1):
    return g.ind(name, HB, phase)


def rule(match, apply, sel):
    def act(mod, g, h):
        m = getattr(mod, match)(g, sel(g, h)) if sel else getattr(mod, match)(g)
        return m and rw.apply_rule(g, mod, apply, m)
    return act


def hadamards(P):
    def build(g):
        ph = [1, X.phase_sym('a')][path().choose(2)]
        v = hbox(g, 'v', ph)
        h = rw.H(v=v)
        k = path().choose(5)
        if k == 4:
            g.link(v, v, 1 + path().choose(2))
        ts = [Z, XX, BD, HB]
        if k < 2:  # two different neighbours
            for n in 'ab':
                h[n] = rw.external(g, n, ts[path().choose(4)], [(v, 1 + path().choose(2))])
        elif k == 2:
            e = path().choose(2)
            h['a'] = rw.external(g, 'a', [Z, XX][path().choose(2)], [(v, 1), (v, 1 + e)])
        elif k == 3:
            for n in 'ab':
                h[n] = rw.external(g, n, Z, [(v, 1)])
            h.update(rw.bundles(g, [('N', Z, [(v, 1)]), ('K', XX, [(v, 2)])]))
            if path().choose(2):
                h['c'] = rw.external(g, 'c', BD, [(v, 1)])
        return h
    rw.prove(P, 'match_hadamards / hadamard_to_h_edge', M, build, rule('match_hadamards', 'hadamard_to_h_edge', lambda g, h: only(h.v)))


def hadamards2(P):
    """two candidates sharing a neighbour or not"""
    def build(g):
        v, w = hbox(g, 'v'), hbox(g, 'w')
        h = rw.H(v=v, w=w)
        k = path().choose(4)
        t = [Z, XX][path().choose(2)]
        a = h['a'] = rw.external(g, 'a', t, [(v, 1)] + ([(w, 2)] if k < 2 else []))
        if k == 3:
            g.link(v, w, 1 + path().choose(2))
        else:
            b = h['b'] = rw.external(g, 'b', Z, [(v, 1 + path().choose(2))] + ([(w, 1)] if k == 0 else []))
        if k > 0:
            h['c'] = rw.external(g, 'c', XX, [(w, 2)])
            if k in (2,):
                h['d'] = rw.external(g, 'd', Z, [(w, 1 + path().choose(2))])
        return h
    rw.prove(P, 'two Hadamard boxes at once', M, build, rule('match_hadamards', 'hadamard_to_h_edge', lambda g, h: only(h.v, h.w)))


def nbrs(v, n=''):
    return [(n + 'Zs', Z, [(v, 1)]), (n + 'Zh', Z, [(v, 2)]), (n + 'Xs', XX, [(v, 1)]), (n + 'Xh', XX, [(v, 2)])]


def fuse_hboxes(P):
    def build(g):
        k = path().choose(5)
        pu, pv = [(1, X.phase_sym('a')), (X.phase_sym('a'), 1), (1, 1), (X.phase_sym('a'), X.phase_sym('b')), (1, X.phase_sym('a'))][k]
        u, v = hbox(g, 'u', pu), hbox(g, 'v', pv)
        g.link(u, v, 2)
        h = rw.H(u=u, v=v)
        j = path().choose(6) if k in (0, 1) else 0
        if j == 1:
            g.link(u, v, 1)
        elif j == 2:
            h['c'] = rw.external(g, 'c', Z, [(u, 1), (v, 1 + path().choose(2))])
        elif j == 3:
            h['c'] = rw.external(g, 'c', BD, [(u, 1 + path().choose(2))])
        elif j == 4:
            h['c'] = rw.external(g, 'c', HB, [(v, 1 + path().choose(2))])
        if j:
            h.update(rw.one_of(g, nbrs(u, 'u') + nbrs(v, 'v'), 1))
        else:
            h.update(rw.bundles(g, nbrs(u, 'u')[:2] + nbrs(v, 'v')[1:3]))
        return h
    rw.prove(P, 'match_connected_hboxes / fuse_hboxes', M, build, rule('match_connected_hboxes', 'fuse_hboxes',
             lambda g, h: lambda e: set(g.edge_st(e)) == {h.u, h.v}))


def copy(P, tw, tiers=None):
    def build(g):
        tv = [Z, XX, HB][path().choose(3)]
        v = g.ind('v', tv, X.phase_sym('a'))
        w = g.ind('w', tw, X.phase_sym('b'))
        g.link(v, w, 1 + path().choose(2))
        h = rw.H(v=v, w=w)
        k = path().choose(7)
        if k == 0:
            h.update(rw.bundles(g, nbrs(w)))
        elif k < 5:
            h.update(rw.one_of(g, nbrs(w), 1))
            h['b'] = rw.external(g, 'b', BD if k % 2 else HB, [(w, 1 + k // 3)])
        elif k == 5:
            h['c'] = rw.external(g, 'c', Z, [(w, 1), (w, 2)])
        elif tw != HB:
            g.link(w, w, 2)
        return h
    rw.prove(P, 'match_copy / apply_copy', M, build, rule('match_copy', 'apply_copy', lambda g, h: only(h.v)))


def copy_z(P): copy(P, Z)
def copy_x(P): copy(P, XX)
def copy_h(P): copy(P, HB)


def copy2(P):
    """two copyable spiders on the same or on neighbouring vertices"""
    def build(g):
        k = path().choose(3)
        v, v2 = g.ind('v', XX, X.phase_sym('a')), g.ind('v2', [XX, HB][path().choose(2)], X.phase_sym('a2'))
        w = g.ind('w', [Z, HB][path().choose(2)], X.phase_sym('b'))
        h = rw.H(v=v, v2=v2, w=w)
        g.link(v, w, 1)
        if k == 0:
            g.link(v2, w, 1 + path().choose(2))
        elif k == 1:
            w2 = h['w2'] = g.ind('w2', [Z, HB][path().choose(2)], X.phase_sym('b2'))
            g.link(v2, w2, 1)
            g.link(w, w2, 1 + path().choose(2))
        else:
            w2 = h['w2'] = g.ind('w2', [Z, HB][path().choose(2)], X.phase_sym('b2'))
            g.link(v2, w2, 1)
            h['c'] = rw.external(g, 'c', Z, [(w, 1), (w2, 1)])
        h.update(rw.one_of(g, nbrs(w)[:2], 1))
        return h
    rw.prove(P, 'two copies at once', M, build, rule('match_copy', 'apply_copy', lambda g, h: only(h.v, h.v2)))


def notbox(g, n, a, b, k):
    """a NOT between a and b: an X pi with plain edges or a Z pi with Hadamard edges"""
    x = g.ind(n, [XX, Z][k], 1)
    g.link(a, x, 1 + k)
    g.link(x, b, 1 + k)
    return x


def parallel_not(P):
    def build(g):
        g.ctx_degree = True
        t = hbox(g, 't', [1, X.phase_sym('b')][path().choose(2)])
        k = path().choose(5)
        tv, ev, tx, px, e1, e2 = Z, 1, [XX, Z][path().choose(2)], 1, 1, 1
        e1 = e2 = 1 if tx == XX else 2
        if k == 0:  # any types and edges in the triangle
            tv, ev, px, e1, e2 = [Z, XX][path().choose(2)], 1 + path().choose(2), X.phase_sym('c'), 1 + path().choose(2), 1 + path().choose(2)
        v = g.ind('v', tv, X.phase_sym('a'), ext=True)
        g.link(t, v, ev)
        x = g.ind('x', tx, px)
        g.link(t, x, e1)
        g.link(x, v, e2)
        h = rw.H(t=t, v=v, x=x)
        if k == 0:
            h.update(rw.one_of(g, nbrs(t), 1))
        elif k == 4:
            h.update(rw.bundles(g, nbrs(t)))
        elif k == 1:
            h['c'] = rw.external(g, 'c', BD, [(t, 1 + path().choose(2))])
        elif k == 2:
            h['c'] = rw.external(g, 'c', HB, [(t, 1 + path().choose(2))])
        elif k == 3:
            g.link(t, v, 1)
        return h
    rw.prove(P, 'match_hbox_parallel_not / hbox_parallel_not_remove', M, build,
             rule('match_hbox_parallel_not', 'hbox_parallel_not_remove', lambda g, h: only(h.t)))


def par_hbox(P, n=2):
    def build(g):
        hs = [hbox(g, 'h%d' % i, X.phase_sym('a%d' % i)) for i in range(n)]
        h = rw.H({t.name: t for t in hs})
        bs = rw.bundles(g, [('R', Z, [(t, 1) for t in hs]), ('K', XX, [(t, 2) for t in hs])])
        h.update(bs)
        for j in range(path().choose(3) if n == 2 else path().choose(2)):
            w = g.ind('w%d' % j, Z, X.phase_sym('p%d' % j), ext=True)
            h['w%d' % j] = w
            for i, t in enumerate(hs):
                h['x%d%d' % (i, j)] = notbox(g, 'x%d%d' % (i, j), t, w, (i + j) % 2)
        k = path().choose(6)
        if k == 5:  # each box has its NOT on another target
            for j in (0, 1):
                w = h['d%d' % j] = g.ind('d%d' % j, Z, X.phase_sym('q%d' % j), ext=True)
                for i, t in enumerate(hs):
                    if i % 2 == j:
                        h['y%d%d' % (i, j)] = notbox(g, 'y%d%d' % (i, j), t, w, j)
                    else:
                        g.link(t, w, 1)
        elif k == 1:
            h['d'] = rw.external(g, 'd', Z, [(hs[0], 1)])
        elif k == 2:
            h['d'] = rw.external(g, 'd', BD, [(t, 1) for t in hs[:1]])
        elif k == 3:
            w = h['d'] = g.ind('d', Z, X.phase_sym('q'), ext=True)
            g.link(hs[0], w, 1)
            h['y'] = notbox(g, 'y', hs[1], w, 0)
        elif k == 4:
            w = h['d'] = g.ind('d', Z, X.phase_sym('q'), ext=True)
            for i, t in enumerate(hs):
                g.link(t, w, 1)
                h['y%d' % i] = notbox(g, 'y%d' % i, t, w, 0)
        return h
    rw.prove(P, 'match_par_hbox / par_hbox on %d boxes' % n, M, build, rule('match_par_hbox', 'par_hbox', lambda g, h: only(*[h['h%d' % i] for i in range(n)])))


def par_hbox3(P): par_hbox(P, 3)


def par_intro(P):
    def build(g):
        g.ctx_degree = True
        ph = X.phase_sym('a')
        h0, h1 = hbox(g, 'h0', ph), hbox(g, 'h1', [ph, X.phase_sym('b')][path().choose(2)])
        h = rw.H(h0=h0, h1=h1)
        h.update(rw.bundles(g, [('R', Z, [(h0, 1), (h1, 1)])]))
        v = h['v'] = g.ind('v', Z, X.phase_sym('p'), ext=True)
        k = path().choose(4)
        if k % 2 == 0:
            g.link(h0, v, 1)
        else:
            h['x'] = notbox(g, 'x', h0, v, 0)
        if k < 2:
            h['y'] = notbox(g, 'y', h1, v, path().choose(2))
        else:
            g.link(h1, v, 1)
        j = path().choose(3)
        if j == 1:  # a second target behind NOTs on both, or on one
            w = h['w'] = g.ind('w', Z, X.phase_sym('q'), ext=True)
            for i, t in enumerate([h0, h1]):
                if path().choose(2):
                    h['z%d' % i] = notbox(g, 'z%d' % i, t, w, i)
                else:
                    g.link(t, w, 1)
        for t in (h0, h1):
            for i in range(path().choose(3) if j == 2 else 0):
                s = h['s%s%d' % (t.name, i)] = g.ind('s%s%d' % (t.name, i), Z, [0, X.phase_sym('s')][path().choose(2) if i == 0 else 0])
                g.link(t, s, 1)
        return h
    rw.prove(P, 'match_par_hbox_intro / par_hbox_intro', M, build, rule('match_par_hbox_intro', 'par_hbox_intro', lambda g, h: only(h.h0, h.h1)))


def zero_hbox(P):
    def build(g):
        v = hbox(g, 'v', [0, X.phase_sym('a')][path().choose(2)])
        h = rw.H(v=v)
        h.update(rw.bundles(g, nbrs(v)))
        k = path().choose(4)
        if k == 1:
            h['c'] = rw.external(g, 'c', BD, [(v, 1)])
        elif k == 2:
            h['c'] = rw.external(g, 'c', Z, [(v, 1), (v, 1)])
        elif k == 3:
            h['c'] = g.ind('c', HB, 1, ext=True)
            g.link(v, h['c'], 1)
        return h

    def act(mod, g, h):
        m = mod.match_zero_hbox(g)
        if m:
            mod.zero_hbox(g, m)
        return m
    rw.prove(P, 'match_zero_hbox / zero_hbox', M, build, act)


def hpivot(P, p, q, small=False):
    """h between v0 (p further H-boxes, phase 1) and v1 (q H-boxes, any phase); every membership pattern of the targets"""
    def build(g):
        t = hbox(g, 'h', 1)
        v0, v1 = g.ind('v0', Z, 0), g.ind('v1', Z, 0)
        g.link(t, v0, 1)
        g.link(t, v1, 1)
        h = rw.H(h=t, v0=v0, v1=v1)
        k = path().choose(2 if small else 6)
        hs = []
        for i in range(p):
            x = h['x%d' % i] = hbox(g, 'x%d' % i, X.phase_sym('c') if k == 5 and i == 0 else 1)
            g.link(x, v0, 1)
            hs.append(x)
        for i in range(q):
            x = h['y%d' % i] = hbox(g, 'y%d' % i, X.phase_sym('a%d' % i))
            g.link(x, v1, 1)
            hs.append(x)
        pats = [[x for j, x in enumerate(hs) if m >> j & 1] for m in range(1, 1 << len(hs))]
        spec = [('N' + ''.join(x.name for x in pt), Z, [(x, 1) for x in pt]) for pt in pats]
        h.update(rw.one_of(g, spec, 2 if k in (0, 1) and not small else 1))
        if k in (1, 2):
            h['b'] = rw.external(g, 'b', BD, [([v0, v1][k - 1], 1 + path().choose(2))])
        elif k == 3:
            h['b'] = rw.external(g, 'b', BD, [(v0, 1)])
            h['d'] = rw.external(g, 'd', BD, [(v1, 1)])
        elif k == 4:
            h['b'] = rw.external(g, 'b', Z, [([v0, v1][path().choose(2)], 1 + path().choose(2))])
        return h

    def act(mod, g, h):
        m = mod.match_hpivot(g, only(h.h))
        if m:
            mod.hpivot(g, m)
        return m
    rw.prove(P, 'match_hpivot / hpivot, %d and %d H-boxes' % (p, q), M, build, act)


def register(S):
    from functools import partial
    R = 'hrules.'
    for name, fns, f, lim, tiers in [
            ('Hadamard boxes', ['match_hadamards', 'hadamard_to_h_edge'], lambda P: (hadamards(P), hadamards2(P)), 120, None),
            ('fusing H-boxes', ['match_connected_hboxes', 'fuse_hboxes'], fuse_hboxes, 200, None),
            ('copy', ['match_copy', 'apply_copy'], lambda P: (copy_z(P), copy_x(P), copy_h(P)), 120, None),
            ('two copies', ['match_copy', 'apply_copy'], copy2, 120, None),
            ('parallel NOT', ['match_hbox_parallel_not', 'hbox_parallel_not_remove', 'is_NOT_gate'], parallel_not, 120, None),
            ('multiply', ['match_par_hbox', 'par_hbox'], par_hbox, 120, None),
            ('multiply, three boxes', ['match_par_hbox', 'par_hbox'], par_hbox3, 860, ('thorough',)),
            ('intro', ['match_par_hbox_intro', 'par_hbox_intro'], par_intro, 150, None),
            ('zero', ['match_zero_hbox', 'zero_hbox'], zero_hbox, 60, None),
            ('hyperpivot', ['match_hpivot', 'hpivot'], lambda P: (hpivot(P, 0, 0), hpivot(P, 1, 0), hpivot(P, 1, 1)), 120, None),
            ('hyperpivot, three H-boxes', ['match_hpivot', 'hpivot'], lambda P: (hpivot(P, 2, 1, True), hpivot(P, 1, 2, True)), 300, None),
            ('hyperpivot, three H-boxes, all shapes', ['match_hpivot', 'hpivot'], lambda P: (hpivot(P, 2, 1), hpivot(P, 1, 2)), 860, ('thorough',))]:
        kw = dict(tiers=tiers) if tiers else {}
        S.proof(name, functions=[R + x for x in fns], limit=lim, **kw)(f)
