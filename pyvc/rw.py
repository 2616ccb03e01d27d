"""Obligations for rewrite code executed on bundle diagrams (pyvc.bundle).

A contract has the form: for every diagram that contains the described region (individual vertices plus bundles of arbitrarily many
further vertices, arbitrary context beyond them), the code either does not apply / leaves the diagram as it was, or produces a diagram
denoting the same map.  `build` describes the region, `act` calls the real functions; both run on the ghost diagram (instrumented copy of
the current source) and, to confirm a refutation, on concrete random instances with the real module."""
import itertools
import random
import time
import z3
from fractions import Fraction
from . import bundle as B
from . import exact as X
from .core import Unsupported, path, PathAbort


def fresh():
    return B.ghost_class()()


class H(dict):
    """handles: h.u is a vertex, h.N the list of members of bundle N"""
    __getattr__ = dict.__getitem__


def bundles(g, spec, maxp=None):
    """spec: list of (class, type, [(vertex, edge type)...]); every class is present (n >= 1) or absent, both are explored"""
    out = {}
    for cls, ty, links in spec:
        if maxp is not None and len(out) >= maxp:
            break
        if path().choose(2) == 0:
            v = g.bundle(cls, ty)
            for u, et in links:
                g.link(u, v, et)
            out[cls] = v
    return out


def one_of(g, spec, k):
    """like bundles, but explores every choice of at most k present classes"""
    combos = [c for j in range(k + 1) for c in itertools.combinations(spec, j)]
    out = {}
    for cls, ty, links in combos[path().choose(len(combos))]:
        v = g.bundle(cls, ty)
        for u, et in links:
            g.link(u, v, et)
        out[cls] = v
    return out


def external(g, name, ty, links):
    v = g.ind(name, ty, X.phase_sym('ph_' + name) if ty in (1, 2) else 0, ext=True)
    for u, et in links:
        g.link(u, v, et)
    return v


def prove(P, name, modname, build, act, what='the map is unchanged', proportional=False, tries=60, max_paths=20000, need=True, reject_same=True):
    """build(g) -> H of handles (g a ghost diagram); act(mod, g, h) -> truthy if the rule was applied, falsy if it rejects"""
    X.install()
    t0 = time.time()
    applied = [0]
    mod = B.instrument(modname)

    def run(p):
        g = fresh()
        h = build(g)
        g0 = B.Snap(g)
        st0 = g.clone_state()
        p.g0, p.h = g0, h
        try:
            r = act(mod, g, h)
        except B.Removed as e:
            return (False, str(e))
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e:
            import traceback
            raise Unsupported('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))
        if B.st().poison:
            raise Unsupported(B.st().poison)
        classes = sorted({v.idx[0][0] for v in g0.order if v.idx})
        if not r:
            if not reject_same:
                return (True, None)
            why = g.same_state(st0)
            if why is None:
                return (True, None)
            why = 'rejected, but: %s' % why
            return (False, why)
        applied[0] += 1
        if g0.io != (g._in, g._out):
            return (False, 'inputs or outputs changed')
        return B.equal_maps(g0, g, classes, proportional)
    paths = P.explore(run, max_paths=max_paths)
    bad = [(p, r) for p, r in paths if not r[0]]
    det = None
    if bad:
        p, r = bad[0]
        det = '%s; region %s; decisions %s; substitution %s; sizes %s' % (r[1], describe(p.g0), [(k, v) for k, v in p.memo.items() if isinstance(k, tuple) and k[0] in ('vlt', 'rel', 'ne')], p.subst, p.memo.get('nsub'))
    if need and not applied[0] and not bad:
        P.undecided('%s: %s' % (name, what), 'the rule applied on none of the %d paths' % len(paths))
        return
    P.record('%s: %s (%d paths, applied on %d)' % (name, what, len(paths), applied[0]), not bad, 'path-sum normal form', time.time() - t0, detail=det,
             replay=lambda: search(modname, act, [b[0] for b in bad], what, proportional, tries))


def describe(s):
    return 'vertices %s; edges %s' % ([(repr(v), int(s.ty[v]), repr(s.ph[v]), 'ctx' if s.ext[v] else '') for v in s.order],
                                      [(repr(k), repr(c[0]), repr(c[1])) for k, c in s.E.items() if c[0].d or c[1].d])


# ---------------------------------------------------------------------------------------------- confirmation on the real code
def instance(p, rng):
    """a concrete diagram in the region of path p: (graph, handles)"""
    import pyzx as zx
    from pyzx.utils import VertexType, EdgeType
    s = p.g0
    size = {}
    for v in s.order:
        if v.idx:
            size[v.idx[0][0]] = None
    if size:
        sol = z3.Solver()
        sol.set('timeout', 2000)
        for c in p.pc:
            sol.add(c)
        for c in size:
            sol.add(z3.Int('n_' + c) >= 1, z3.Int('n_' + c) <= 12)
        for k, e in p.memo.get('nsub', {}).items():
            sol.add(z3.ToReal(z3.Int(k)) == e.z3())
        if sol.check() != z3.sat:
            return None
        for c in sorted(size, key=lambda _: rng.random()):
            want = rng.choice([1, 1, 2, 2, 3])
            for w in [want] + list(range(1, 13)):
                sol.push()
                sol.add(z3.Int('n_' + c) == w)
                if sol.check() == z3.sat:
                    size[c] = w
                    break
                sol.pop()
    env = {}

    def val(sym):
        if sym in p.subst:
            c, t = p.subst[sym]
            return c + sum(w * val(x) for x, w in t)
        if sym not in env:
            env[sym] = Fraction(rng.randrange(8), 4) if not X._syms.get(sym) else Fraction(rng.randint(0, 3))
            if rng.random() < 0.3 and not X._syms.get(sym):
                env[sym] = Fraction(rng.randrange(14), 7)
        return env[sym]

    def phase(x, own):
        if not isinstance(x, X.SymPhase):
            return x
        c, t = x._n()
        r = c
        for sy, w in t:
            r += w * (own.setdefault(sy, Fraction(rng.randrange(8), 4)) if sy.startswith('ph_') else val(sy))
        return r
    g = zx.Graph()
    names = []
    for v in s.order:
        for i in range(size[v.idx[0][0]] if v.idx else 1):
            names.append((v, i))
    rng.shuffle(names)
    at, h = {}, H()
    outs = []
    for v, i in names:
        x = at[v, i] = g.add_vertex(VertexType(int(s.ty[v])))
        g.set_row(x, rng.randint(0, 3))
        g.set_qubit(x, rng.randint(-1, 3))
        if int(s.ty[v]) != 0:
            g.set_phase(x, phase(s.ph[v], {}))
    for v in s.order:
        if v.idx:
            h[v.name] = [at[v, i] for i in range(size[v.idx[0][0]])]
        else:
            h[v.name] = at[v, 0]
    for (u, v), c in s.E.items():
        for et in (1, 2):
            if not c[et - 1].d:
                continue
            if not c[et - 1].is_const():
                return None
            for i in range(size[u.idx[0][0]] if u.idx else 1):
                for j in range(size[v.idx[0][0]] if v.idx else 1):
                    if u.idx and v.idx and u.idx[0][0] == v.idx[0][0]:
                        same = u.idx == v.idx
                        if same and i != j or not same and i >= j:
                            continue
                    for _ in range(int(c[et - 1].c())):
                        g.add_edge((at[u, i], at[v, j]), EdgeType(et))
    extv = [at[v, i] for v, i in names if s.ext[v]]
    for x in extv:
        if g.type(x) == VertexType.BOUNDARY:
            outs.append(x)
    for x in extv:
        if g.type(x) != VertexType.BOUNDARY:
            for _ in range(rng.choice([1, 1, 1, 0, 2])):
                if len(outs) < 9:
                    b = g.add_vertex(VertexType.BOUNDARY)
                    g.add_edge((x, b), EdgeType(rng.choice([1, 1, 2])))
                    outs.append(b)
    zz = [x for x in extv if g.type(x) == VertexType.Z]
    for _ in range(rng.choice([0, 0, 1, 2])):
        if len(zz) >= 2:
            a, b = rng.sample(zz, 2)
            if not g.connected(a, b):
                g.add_edge((a, b), EdgeType.HADAMARD)
    fi, fo = [[h[n] for n in names] for names in p.memo.get('io', ((), ()))]
    ins = [o for o in outs if o in fi or (o not in fo and rng.random() < 0.3)]
    outs = [o for o in fo if o in outs] + [o for o in outs if o not in fo]
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(o for o in outs if o not in ins))
    return g, h


def search(modname, act, paths, what, proportional, tries):
    """random instances of the refuted paths on the real code; dict if one fails, None otherwise"""
    import importlib
    from lib import refsem, gens
    mod = importlib.import_module(modname)
    rng = random.Random(7)
    for k in range(tries * 4):
        p = paths[k % len(paths)]
        try:
            r = instance(p, rng)
        except Exception:
            continue
        if r is None:
            continue
        g, h = r
        desc = gens.describe(g)
        try:
            before = refsem.graph_matrix(g)
        except MemoryError:
            continue
        snap = gens.snapshot(g)
        ins, outs = tuple(g.inputs()), tuple(g.outputs())
        try:
            ok = act(mod, g, h)
        except Exception as e:
            return dict(what='%s: the code raises %s: %s' % (what, type(e).__name__, e), data=dict(diagram=desc, handles=repr(dict(h))))
        if not ok:
            if gens.snapshot(g) != snap:
                return dict(what='the rule rejects but changes the diagram', data=dict(diagram=desc, handles=repr(dict(h))))
            continue
        if (tuple(g.inputs()), tuple(g.outputs())) != (ins, outs):
            return dict(what='the interface changed', data=dict(diagram=desc, handles=repr(dict(h))))
        try:
            after = refsem.graph_matrix(g)
        except MemoryError:
            continue
        if not (refsem.close_up_to_scalar if proportional else refsem.close)(before, after):
            return dict(what='the linear map changed', data=dict(diagram=desc, handles=repr(dict(h)), after=gens.describe(g)))
    return None


def apply_rule(g, mod, rule, matches):
    """the real apply_rule, or for modules without it the same sequence"""
    from pyzx import rules
    if g.backend == 'ghost':
        rules_ = B.instrument('pyzx.rules')
    else:
        rules_ = rules
    rules_.apply_rule(g, getattr(mod, rule), matches)
    return True
