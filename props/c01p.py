"""C01, deductive part: each rewrite rule on an arbitrary region with bundles of arbitrarily many neighbours."""
from fractions import Fraction
from pyvc import bundle as B, rw, exact as X
from pyvc.core import path

RULES = 'pyzx.rules'
Z, XX, BD, HB = 1, 2, 0, 3


def sub(P, spec, k=None):
    return spec


def only(*vs):
    s = set(vs)
    return lambda x: x in s


def edge_only(g, u, v):
    return lambda e: set(g.edge_st(e)) == {u, v}


def lcomp(P):
    def build(g):
        v = g.ind('v', Z, X.phase_sym('a'))
        h = rw.H(v=v)
        h.update(rw.bundles(g, [('N', Z, [(v, 2)])]))
        k = path().choose(4)
        if k:
            rw.external(g, 'b', [None, BD, XX, Z][k], [(v, [None, 2, 2, 1][k])])
        return h

    def act(mod, g, h):
        m = mod.match_lcomp_parallel(g, vertexf=only(h.v))
        return m and rw.apply_rule(g, mod, 'lcomp', m)
    rw.prove(P, 'lcomp', RULES, build, act)


def pivot(P):
    def build(g):
        u, v = g.ind('u', Z, X.phase_sym('a')), g.ind('v', Z, X.phase_sym('b'))
        g.link(u, v, 1 + path().choose(2))
        h = rw.H(u=u, v=v)
        h.update(rw.bundles(g, [('A', Z, [(u, 2)]), ('C', Z, [(v, 2)]), ('D', Z, [(u, 2), (v, 2)])]))
        k = path().choose(7)
        if k:
            w = u if k <= 3 else v
            rw.external(g, 'b', BD if k % 3 else XX, [(w, 1 + k % 2)])
        return h

    def act(mod, g, h):
        m = mod.match_pivot_parallel(g, matchf=edge_only(g, h.u, h.v))
        return m and rw.apply_rule(g, mod, 'pivot', m)
    rw.prove(P, 'pivot, with and without a boundary', RULES, build, act)


def pivot_gadget(P):
    def build(g):
        u, v = g.ind('u', Z, X.phase_sym('a')), g.ind('v', Z, X.phase_sym('b'))
        g.link(u, v, 2)
        h = rw.H(u=u, v=v)
        h.update(rw.bundles(g, [('A', Z, [(u, 2)]), ('C', Z, [(v, 2)]), ('D', Z, [(u, 2), (v, 2)])]))
        k = path().choose(4)
        if k == 1:
            h['l'] = l = g.ind('l', Z, X.phase_sym('c'))  # a leaf: u or v is the axle of a phase gadget
            g.link(u, l, 2)
        elif k == 2:
            h['l'] = l = g.ind('l', Z, X.phase_sym('c'))
            g.link(v, l, 2)
        elif k == 3:
            rw.external(g, 'b', BD, [(u, 1)])
        return h

    def act(mod, g, h):
        m = mod.match_pivot_gadget(g, matchf=edge_only(g, h.u, h.v))
        return m and rw.apply_rule(g, mod, 'pivot', m)
    rw.prove(P, 'pivot after gadgetizing a non-Pauli phase', RULES, build, act)


def pivot_boundary(P):
    def build(g):
        u, v = g.ind('u', Z, X.phase_sym('a')), g.ind('v', Z, X.phase_sym('b'))
        g.link(u, v, 2)
        h = rw.H(u=u, v=v)
        bs = rw.bundles(g, [('A', Z, [(u, 2)]), ('C', Z, [(v, 2)]), ('D', Z, [(u, 2), (v, 2)])])
        h.update(bs)
        k = path().choose(4)
        b = rw.external(g, 'b', BD, [(v, 1 + k % 2)])
        if k >= 2:
            g.set_inputs((b,))
        c = g.ind('ctx', Z, 0, ext=True)
        for w in bs.values():
            g.ctx_neighbors[w] = [u, c]
        return h

    def act(mod, g, h):
        m = mod.match_pivot_boundary(g, matchf=only(h.u))
        return m and rw.apply_rule(g, mod, 'pivot', m)
    rw.prove(P, 'pivot at a boundary spider', RULES, build, act)


def spider(P, tiers=None):
    def build(g):
        tu, tv = [(Z, Z), (XX, XX), (Z, XX)][path().choose(3)]
        u, v = g.ind('u', tu, X.phase_sym('a')), g.ind('v', tv, X.phase_sym('b'))
        h = rw.H(u=u, v=v)
        extra_edge = path().choose(6)
        g.link(u, v, 1)
        if extra_edge in (1, 2):
            g.link(u, v, extra_edge)
        elif extra_edge == 3:
            g.link(u, u, 2)
        elif extra_edge == 4:
            g.link(v, v, 2)
        elif extra_edge == 5:
            g.link(v, v, 1)
        t = 1 + path().choose(2)
        spec = [('C%d%d' % (i, j), t, [(u, i)] * (i > 0) + [(v, j)] * (j > 0)) for i in (0, 1, 2) for j in (0, 1, 2) if i or j]
        if path().choose(2):
            h.update(rw.one_of(g, spec, 1))
            return h
        else:
            h.update({c: g.bundle(c, ty) for c, ty, _ in spec})
            for c, ty, l in spec:
                for x, et in l:
                    g.link(x, h[c], et)
        k = path().choose(4)
        if k:
            rw.external(g, 'b', BD if k < 3 else HB, [([u, v][k % 2], 1 + k // 2)])
        return h

    def act(mod, g, h):
        m = mod.match_spider_parallel(g, matchf=lambda e: set(g.edge_st(e)) == {h.u, h.v} and int(g.edge_type(e)) == 1)
        return m and rw.apply_rule(g, mod, 'spider', m)
    rw.prove(P, 'spider fusion', RULES, build, act)


def bialg(P):
    def build(g):
        tu, tv = [(Z, XX), (XX, Z), (Z, Z)][path().choose(3)]
        u, v = g.ind('u', tu, X.phase_sym('a')), g.ind('v', tv, X.phase_sym('b'))
        g.link(u, v, 1)
        h = rw.H(u=u, v=v)
        k = path().choose(4)
        for c, w, t in (('A', u, tv), ('C', v, tu)):
            if path().choose(2):
                h[c] = x = g.bundle(c, t, phase=0 if k != 3 else None)
                g.link(w, x, 1)
        if k == 1:
            rw.external(g, 'b', BD, [(u, 1)])
        elif k == 2:
            rw.external(g, 'b', tu, [(v, 2)])
        return h

    def act(mod, g, h):
        m = mod.match_bialg_parallel(g, matchf=edge_only(g, h.u, h.v))
        return m and rw.apply_rule(g, mod, 'bialg', m)
    rw.prove(P, 'bialgebra', RULES, build, act)


def ids(P):
    def build(g):
        v = g.ind('v', [Z, XX, HB][path().choose(3)], X.phase_sym('a'))
        h = rw.H(v=v)
        k = path().choose(10)
        if k < 6:
            t0, t1 = [(BD, BD), (Z, XX), (Z, BD), (HB, Z), (XX, XX), (HB, BD)][k]
            h['n0'] = rw.external(g, 'n0', t0, [(v, 1 + path().choose(2))])
            h['n1'] = rw.external(g, 'n1', t1, [(v, 1 + path().choose(2))])
        elif k < 8:
            h['n0'] = rw.external(g, 'n0', Z, [(v, 1 + path().choose(2)), (v, 1 + path().choose(2))])
        elif k == 8:
            for n in ('n0', 'n1', 'n2')[:1 + 2 * path().choose(2)]:
                h[n] = rw.external(g, n, Z, [(v, 1 + path().choose(2))])
        return h

    def act(mod, g, h):
        m = mod.match_ids_parallel(g, vertexf=only(h.v))
        return m and rw.apply_rule(g, mod, 'remove_ids', m)
    rw.prove(P, 'identity removal', RULES, build, act)


def gadgets(P, k):
    def build(g):
        h = rw.H()
        ax = []
        for i in range(k):
            h['n%d' % i] = n = g.ind('n%d' % i, Z, X.phase_sym('p%d' % i))
            h['l%d' % i] = l = g.ind('l%d' % i, Z, X.phase_sym('a%d' % i))
            g.link(n, l, 2)
            ax.append(n)
        A = [('A', Z, [(n, 2) for n in ax])]
        if k == 2:
            A.append(('D', Z, [(ax[0], 2)]))
        h.update(rw.bundles(g, A))
        return h

    def act(mod, g, h):
        m = mod.match_phase_gadgets(g, vertexf=only(*[h['l%d' % i] for i in range(k)]))
        return m and rw.apply_rule(g, mod, 'merge_phase_gadgets', m)
    rw.prove(P, 'fusion of %d phase gadgets' % k, RULES, build, act)


def supplementarity(P):
    def build(g):
        v, w = g.ind('v', Z, X.phase_sym('a')), g.ind('w', Z, X.phase_sym('b'))
        h = rw.H(v=v, w=w)
        if path().choose(2):
            g.link(v, w, 2)
        h.update(rw.bundles(g, [('A', Z, [(v, 2), (w, 2)])]))
        c = None
        if path().choose(2):
            c = h['c'] = rw.external(g, 'c', Z, [(v, 2)])
        ctx = g.ind('ctx', Z, 0, ext=True)
        for x in list(h.values()):
            if x is not v and x is not w:
                g.ctx_neighbors[x] = [v, w, ctx] if x is not c else [v, ctx]
        return h

    def act(mod, g, h):
        m = mod.match_supplementarity(g, vertexf=only(h.v, h.w))
        return m and rw.apply_rule(g, mod, 'apply_supplementarity', m)
    rw.prove(P, 'supplementarity', RULES, build, act)


def copy(P):
    def build(g):
        v, w = g.ind('v', Z, X.phase_sym('a')), g.ind('w', [Z, XX][path().choose(2)], X.phase_sym('b'))
        g.link(v, w, 2)
        h = rw.H(v=v, w=w)
        h.update(rw.bundles(g, [('A', Z, [(w, 2)])]))
        k = path().choose(3)
        if k:
            b = rw.external(g, 'b', BD, [(w, k)])
            if path().choose(2):
                g.set_outputs((b,))
        return h

    def act(mod, g, h):
        m = mod.match_copy(g, vertexf=only(h.v))
        return m and rw.apply_rule(g, mod, 'apply_copy', m)
    rw.prove(P, 'copying a Pauli state', RULES, build, act)


def unspider(P):
    def build(g):
        u = g.ind('u', [Z, XX][path().choose(2)], X.phase_sym('a'))
        t = 1 + path().choose(2)
        h = rw.H(u=u)
        h.update(rw.bundles(g, [('A', t, [(u, 1)]), ('C', t, [(u, 2)]), ('D', t, [(u, 1)]), ('E', t, [(u, 2)])]))
        return h

    def act_for(given):
        def act(mod, g, h):
            ns = []
            for c in 'DE':
                if c in h:
                    ns.extend(h[c] if isinstance(h[c], list) else [h[c]])
            if g.backend == 'ghost':
                ns = B.GList(ns)
            mod.unspider(g, [h.u, ns] + ([X.phase_sym('b') if g.backend == 'ghost' else Fraction(3, 4)] if given else []))
            return True
        return act
    rw.prove(P, 'unfusing with the whole phase', RULES, build, act_for(False))
    rw.prove(P, 'unfusing with a given phase', RULES, build, act_for(True))


# ---- two candidates at once: the matches a matcher returns together must not interfere
def pair_spec(hs, ty=Z, et=2):
    """one class per nonempty subset of the given vertices"""
    out = []
    for m in range(1, 2 ** len(hs)):
        s = [x for i, x in enumerate(hs) if m >> i & 1]
        out.append(('C' + ''.join(x.name for x in s), ty, [(x, et) for x in s]))
    return out


def lcomp2(P):
    def build(g):
        u, v = g.ind('u', Z, X.phase_sym('a')), g.ind('v', Z, X.phase_sym('b'))
        if path().choose(2):
            g.link(u, v, 2)
        h = rw.H(u=u, v=v)
        h.update(rw.bundles(g, pair_spec([u, v])))
        return h

    def act(mod, g, h):
        m = mod.match_lcomp_parallel(g, vertexf=only(h.u, h.v))
        return m and rw.apply_rule(g, mod, 'lcomp', m)
    rw.prove(P, 'two candidates for local complementation', RULES, build, act)


def pivot2(P):
    def build(g):
        u, v, w, x = (g.ind(n, Z, X.phase_sym('p' + n)) for n in 'uvwx')
        g.link(u, v, 2)
        g.link(w, x, 2)
        k = path().choose(4)
        if k in (1, 3):
            g.link(u, w, 2)
        if k in (2, 3):
            g.link(v, x, 2)
        h = rw.H(u=u, v=v, w=w, x=x)
        for y in (u, v, w, x):
            g.ph[y] = Fraction(path().choose(2)) if y in (u, w) else Fraction(0)
        h.update(rw.one_of(g, pair_spec([u, v, w, x]), 1))
        return h

    def act(mod, g, h):
        m = mod.match_pivot_parallel(g, matchf=lambda e: set(g.edge_st(e)) in ({h.u, h.v}, {h.w, h.x}))
        return m and rw.apply_rule(g, mod, 'pivot', m)
    rw.prove(P, 'two candidates for pivoting', RULES, build, act)


def ids2(P):
    def build(g):
        v, w = g.ind('v', 1 + path().choose(2), 0), g.ind('w', 1 + path().choose(2), 0)
        h = rw.H(v=v, w=w)
        k = path().choose(3)
        if k < 2:
            g.link(v, w, 1 + path().choose(2))
            h['n'] = rw.external(g, 'n', Z, [(v, 1 + path().choose(2))] + ([(w, 1)] if k else []))
            if not k:
                h['m'] = rw.external(g, 'm', BD, [(w, 1 + path().choose(2))])
        else:
            h['n'] = rw.external(g, 'n', Z, [(v, 1 + path().choose(2)), (w, 1 + path().choose(2))])
            h['m'] = rw.external(g, 'm', Z, [(v, 1 + path().choose(2)), (w, 1 + path().choose(2))])
        return h

    def act(mod, g, h):
        m = mod.match_ids_parallel(g, vertexf=only(h.v, h.w))
        return m and rw.apply_rule(g, mod, 'remove_ids', m)
    rw.prove(P, 'two candidates for identity removal', RULES, build, act)


def spider2(P):
    def build(g):
        u, v, w = (g.ind(n, Z, X.phase_sym('p' + n)) for n in 'uvw')
        g.link(u, v, 1)
        g.link(v, w, 1 + path().choose(2))
        if path().choose(2):
            g.link(u, w, 1 + path().choose(2))
        h = rw.H(u=u, v=v, w=w)
        h.update(rw.one_of(g, pair_spec([u, v, w], et=1 + path().choose(2)), 2))
        return h

    def act(mod, g, h):
        m = mod.match_spider_parallel(g, matchf=lambda e: set(g.edge_st(e)) <= {h.u, h.v, h.w})
        return m and rw.apply_rule(g, mod, 'spider', m)
    rw.prove(P, 'several candidates for fusion', RULES, build, act)


def bialg2(P):
    def build(g):
        u, v = g.ind('u', Z, 0), g.ind('v', XX, 0)
        w, x = g.ind('w', Z, 0), g.ind('x', XX, 0)
        g.link(u, v, 1)
        k = path().choose(4)
        if k:
            g.link(u, x, 1)
        if k in (2, 3):
            g.link(w, x, 1)
        if k == 3:
            g.link(w, v, 1)
        h = rw.H(u=u, v=v, w=w, x=x)
        for c, ty, ys in rw_choice([('A', XX, [u]), ('C', Z, [v]), ('D', XX, [u, w]), ('E', Z, [v, x])]):
            h[c] = b = g.bundle(c, ty, phase=0)
            for y in ys:
                g.link(y, b, 1)
        return h

    def act(mod, g, h):
        m = mod.match_bialg_parallel(g, matchf=lambda e: set(g.edge_st(e)) <= {h.u, h.v, h.w, h.x})
        return m and rw.apply_rule(g, mod, 'bialg', m)
    rw.prove(P, 'several candidates for bialgebra', RULES, build, act)


def rw_choice(spec):
    return [s for s in spec if path().choose(2)]


def copy2(P):
    def build(g):
        v, w, x = g.ind('v', Z, X.phase_sym('a')), g.ind('w', Z, X.phase_sym('b')), g.ind('x', Z, X.phase_sym('c'))
        g.link(v, w, 2)
        h = rw.H(v=v, w=w, x=x)
        k = path().choose(3)
        if k == 0:
            g.link(x, w, 2)      # two states at the same spider
            h.update(rw.bundles(g, [('A', Z, [(w, 2)])]))
        else:
            h['y'] = y = g.ind('y', Z, X.phase_sym('d'))
            g.link(x, y, 2)
            if k == 2:
                g.link(w, y, 2)  # adjacent spiders
            h.update(rw.bundles(g, pair_spec([w, y])))
        return h

    def act(mod, g, h):
        m = mod.match_copy(g, vertexf=only(h.v, h.x))
        return m and rw.apply_rule(g, mod, 'apply_copy', m)
    rw.prove(P, 'two candidates for copying', RULES, build, act)


ALL = [('lcomp', (), ('match_lcomp_parallel', 'lcomp')), ('pivot', (), ('match_pivot_parallel', 'pivot')),
       ('pivot_gadget', (), ('match_pivot_gadget', 'pivot')), ('pivot_boundary', (), ('match_pivot_boundary', 'pivot')),
       ('spider', (), ('match_spider_parallel', 'spider')), ('bialg', (), ('match_bialg_parallel', 'bialg')), ('ids', (), ('match_ids_parallel', 'remove_ids')),
       ('gadgets', (1,), ('match_phase_gadgets', 'merge_phase_gadgets')), ('gadgets', (2,), ('match_phase_gadgets', 'merge_phase_gadgets')),
       ('supplementarity', (), ('match_supplementarity', 'apply_supplementarity')), ('copy', (), ('match_copy', 'apply_copy')), ('unspider', (), ('unspider',)),
       ('lcomp2', (), ('match_lcomp_parallel', 'lcomp')), ('pivot2', (), ('match_pivot_parallel', 'pivot')), ('ids2', (), ('match_ids_parallel', 'remove_ids')),
       ('spider2', (), ('match_spider_parallel', 'spider')), ('bialg2', (), ('match_bialg_parallel', 'bialg')), ('copy2', (), ('match_copy', 'apply_copy'))]


def register(S):
    def add(f, args, fns, tiers):
        @S.proof('proof of %s' % ' '.join([f] + [str(a) for a in args]), functions=['rules.apply_rule'] + ['rules.' + x for x in fns], limit=300, tiers=tiers)
        def _(P):
            globals()[f](P, *args)
    for f, args, fns in ALL:
        add(f, args, fns, ('quick', 'thorough'))
    add('gadgets', (3,), ('match_phase_gadgets', 'merge_phase_gadgets'), ('thorough',))
