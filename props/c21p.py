"""C21, deductive part: the magic-state replacement executed on arbitrary phases, the terms added up exactly.

Locality used (lemma): every candidate is a Z spider of a diagram without parallel edges, so the map of the diagram is the contraction
of the rest with one basis-value leg per candidate; the code under contract reaches the rest only through the reads listed in `Sealed`
(degree, neighbours, type, position), which decide no more than which candidates are taken and in which order."""
import ast
import inspect
import itertools
import random
from fractions import Fraction
import numpy as np
from pyvc import exact as X, mods, ghost
from pyvc.core import path, Unsupported, discharge

Z, XX, BD = 1, 2, 0


class MathTok:
    pi = None

    @staticmethod
    def sqrt(n):
        if n == 2:
            return X.SQ2
        if n == 0.5:
            return X.ISQ2
        raise Unsupported('sqrt')


class RandomTok:
    """random: any outcome; samples are rotations chosen by the prover (the value of the terms is compared for the choice made)"""
    def __init__(self, p): self.p = p
    def seed(self, *a): pass

    def sample(self, xs, k):
        xs = list(xs)
        i = self.p.choose(2)
        return (xs[i:] + xs[:i])[:k] if not i else list(reversed(xs))[:k]

    def __getattr__(self, n):
        raise Unsupported('random.%s' % n)


def constants(src):
    """the module's own constants, with exact arithmetic"""
    env = {}
    base = {'math': MathTok(), 'np': MathTok(), '__builtins__': {}, '__amp': X.Amp.exact}
    for st in ast.parse(src).body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            t = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else getattr(st, 'target', None)
            if isinstance(t, ast.Name) and st.value is not None and all(isinstance(n, (ast.BinOp, ast.UnaryOp, ast.Constant, ast.Name, ast.Load, ast.operator, ast.unaryop, ast.Call, ast.Attribute)) for n in ast.walk(st.value)):
                class W(ast.NodeTransformer):
                    def visit_Constant(self, n):
                        return ast.copy_location(ast.Call(ast.Name('__amp', ast.Load()), [n], []), n) if isinstance(n.value, (int, float, complex)) else n

                    def visit_Call(self, n):
                        return n
                try:
                    env[t.id] = eval(compile(ast.fix_missing_locations(ast.Expression(W().visit(st.value))), '<const>', 'eval'), dict(base, **env))
                except Exception:
                    pass
    return {k: v for k, v in env.items() if isinstance(v, X.Amp)}


def module(p):
    import pyzx.simulate
    X.install()
    src = inspect.getsource(pyzx.simulate)
    return mods.clone('pyzx.simulate', random=RandomTok(p), math=MathTok(), **constants(src))


def graph_class():
    G = ghost.ghost_graph_class()

    class G21(G):
        def copy(self, adjoint=False, backend=None):
            if adjoint or backend:
                raise Unsupported('copy')
            return ghost.copy_ghost(self)
        clone = copy

        def set_edge_type(self, e, t):
            super().set_edge_type(e, t)
    return G21


def tlike(g, name, p):
    a = X.phase_sym(name)
    p.memo[('den', a.lf)] = 4
    p.memo[('ne', a.lf)] = True
    v = g.add_vertex(Z, 0, 0, phase=a)
    return v


def ghost_state(g):
    return ({v: dict(d) for v, d in g.graph.items()}, dict(g.ty), {v: X.SymPhase.of(x) for v, x in g._phase.items()}, g.inputs(), g.outputs())


def total(terms):
    t = None
    for h in terms:
        a = X.graph_amp(h)
        t = a if t is None else t + a
    return t


def arr0(t):
    if isinstance(t, np.ndarray):
        return t
    a = np.empty((), dtype=object)
    a[()] = t
    return a


def build(p, n, extra=True):
    g = graph_class()()
    shape = p.choose(3) if extra else 0
    cl = [g.add_vertex(Z, 0, 0, phase=Fraction(p.choose(1) or 1, 2))] if shape else []
    vs = [tlike(g, 'a%d' % i, p) for i in range(n)]
    outs = []
    for v in vs + cl:
        o = g.add_vertex(BD)
        g.add_edge((v, o), 1)
        outs.append(o)
    if shape == 2:   # other edges: none of the code's business but for the ranking
        for a, b in itertools.combinations(range(n), 2):
            if (a * 3 + b) % 4 == 0:
                g.add_edge((vs[a], vs[b]), 2)
        g.add_edge((vs[-1], cl[0]), 2)
        if n > 1:
            lf = g.add_vertex(Z, 0, 0, phase=0)
            g.add_edge((vs[0], lf), 2)
    g.set_outputs(tuple(outs))
    return g, vs


def tcount(g, p):
    k = 0
    for v in g.vertices():
        lf = X.SymPhase.of(g.phase(v))
        if lf[1] or lf[0].denominator == 4:
            k += 1
    return k


def replaced(P, n):
    def run(p):
        m = module(p)
        g, vs = build(p, n, extra=n != 7 and n != 5)
        s = ghost_state(g)
        pick = [False, True, 5][p.choose(3 if n < 6 else 2)]
        want = arr0(X.graph_amp(g))
        r = m.replace_magic_states(g, pick)
        if ghost_state(g) != s:
            return 'the diagram was changed'
        hs = r.graphs
        if len({id(h) for h in hs} | {id(g)}) != len(hs) + 1:
            return 'terms share a diagram'
        for h in hs:
            if len(h.outputs()) != len(g.outputs()):
                return 'interface'
        # a = 1/4 + quarter-turn independent of which: -1/4 from the symbol leaves a Clifford phase
        for h in hs:
            left = 0
            for v in h.vertices():
                lf = X.SymPhase.of(h.phase(v))
                d = lf if not lf[1] else (lf[0], ())
                odd = (d[0] * 4) % 2
                if lf[1] and (len(lf[1]) != 1 or lf[1][0][1] != 1):
                    return 'phase of a term %s' % (lf,)
                if (d[0] * 4).denominator != 1:
                    return 'phase of a term %s' % (lf,)
                if (bool(lf[1]) + int(odd)) % 2:
                    left += 1
            if left >= n:
                return 'a term has as many magic states as before'
        ok, w = X.equal(arr0(total(hs)), want)
        return None if ok else 'the terms do not add up: %s' % w
    discharge(P, 'replace_magic_states on %d T-like spiders of arbitrary phase: the terms add up exactly' % n, run, 'execution + exact sum', replay=lambda: hunt(P, 'replace_magic_states') or hunt(P, 'six spiders'))


_S = []


def hunt(P, name):
    return _S[0].hunt(name, 300, 3, 60)


def post_select(P):
    def run(p):
        m = module(p)
        G = graph_class()
        g = G()
        n = 1 + p.choose(2)
        outs, ins = [], []
        for i in range(n):
            k = p.choose(4 if i == 0 else 3)
            o = g.add_vertex(BD)
            t = 1 + p.choose(2)
            outs.append(o)
            if k < 3:     # an arbitrary spider with or without another wire, or an input directly
                b = g.add_vertex(BD)
                v = g.add_vertex([Z, XX][k], phase=X.phase_sym('a%d' % i)) if k < 2 else b
                if k == 0:
                    g.add_edge((v, b), 1)
                g.add_edge((v, o), t)
                if k == 1:
                    g.remove_vertex(b)
                else:
                    ins.append(b)
            else:          # another output
                outs.append(g.add_vertex(BD))
                g.add_edge((o, outs[-1]), t)
        g.set_inputs(tuple(ins))
        g.set_outputs(tuple(outs))
        sel = {}
        for i in range(len(outs)):
            k = p.choose(5 if i == 0 or len(outs) == 2 else 3)
            if k:
                sel[i] = '01+-'[(k - 1 + i) % 4]
        s = ghost_state(g)
        t = arr0(X.graph_amp(g))
        reps = 1 if n > 1 else 9
        r = m.SumGraph([g if i % 2 == 0 else g.copy() for i in range(reps)]).post_select(sel)
        if ghost_state(g) != s:
            return 'the diagram was changed'
        if len(r.graphs) != reps:
            return 'terms'
        for i in sorted(sel, reverse=True):
            eff = {'0': (X.ONE, X.ZERO), '1': (X.ZERO, X.ONE), '+': (X.ISQ2, X.ISQ2), '-': (X.ISQ2, -X.ISQ2)}[sel[i]]
            tt = np.moveaxis(t, i, 0)
            t = arr0(arr0(tt[0] * eff[0]) + arr0(tt[1] * eff[1]))
        for h in r.graphs[:1] + r.graphs[1:][-2:]:
            ok, w = X.equal(arr0(X.graph_amp(h)), t)
            if not ok:
                return 'selecting %s: %s' % (sel, w)
    discharge(P, 'SumGraph.post_select: every choice of outputs and effects, arbitrary neighbours', run, 'execution + exact tensors', replay=lambda: _S[0].hunt('post_select', 300, 3, 60))


class TermTok:
    """a diagram known by its (linear) value only"""
    class Sc:
        def __init__(self, z): self.is_zero = z

    def __init__(self, i, zero):
        self.i, self.zero, self.reduced, self.scalar = i, zero, [], None

    def reduce(self, how):
        self.reduced.append(how)
        self.scalar = TermTok.Sc(self.zero)

    def to_tensor(self, preserve_scalar=True):
        if not preserve_scalar:
            raise Unsupported('scalar dropped')
        return Lin({self.i: 1})

    def to_matrix(self, preserve_scalar=True):
        return self.to_tensor(preserve_scalar)


class Lin:
    def __init__(self, d): self.d = d

    def __add__(self, o):
        if not isinstance(o, Lin):
            if np.all(o == 0):
                return self
            raise Unsupported('sum with %r' % (o,))
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return Lin(r)
    __radd__ = __add__


def sums(P):
    def run(p):
        m = module(p)

        class Simp:
            @staticmethod
            def full_reduce(g, *a, **k): g.reduce('full')

            @staticmethod
            def reduce_scalar(g, *a, **k): g.reduce('scalar')
        m.simplify = Simp
        n = 1 + p.choose(4)
        ts = [TermTok(i, p.choose(2) == 1) for i in range(n)]
        s = m.SumGraph(list(ts))
        k = p.choose(4)
        if k < 2:
            r = (s.to_tensor if k == 0 else s.to_matrix)()
            return None if isinstance(r, Lin) and r.d == {i: 1 for i in range(n)} else 'the value of the sum is not the sum of the values'
        (s.full_reduce if k == 2 else s.reduce_scalar)()
        left = [t for t in s.graphs]
        if any(t not in ts for t in left) or len({id(t) for t in left}) != len(left):
            return 'terms'
        if any(not t.zero and t not in left for t in ts):
            return 'a nonzero term was dropped'
        if any(len(t.reduced) != 1 for t in left):
            return 'a term was not reduced'
        return None
    discharge(P, 'SumGraph: values add up; reducing keeps every nonzero term', run, 'callee contracts', replay=lambda: _S[0].hunt('replace_magic_states', 200, 3, 60))


def decomp(P):
    """find_stabilizer_decomp by induction on the T-count: callee contracts replace_magic_states, reduce_scalar, itself"""
    def run(p):
        m = module(p)

        class D:
            def __init__(self, parts, tc, zero=False):
                self.parts, self.tc, self.scalar = parts, tc, TermTok.Sc(zero)

        class Simp:
            tcount = staticmethod(lambda g: g.tc)
        m.simplify = Simp
        real = m.find_stabilizer_decomp
        top = D({'g': 1}, [0, 1, 3][p.choose(3)])

        def rec(g):
            if g is top:
                raise Unsupported('no progress')
            if g.tc >= top.tc:
                raise Unsupported('recursion on a diagram with as many magic states')
            n = p.choose(3)
            return [D(('part', g, i, n), 0) for i in range(n)] if n else ([] if g.scalar.is_zero else [D(('part', g, 0, 1), 0)])
        m.find_stabilizer_decomp = rec

        class SG:
            def __init__(self, gs): self.graphs = gs

            def reduce_scalar(self, *a, **k):   # may drop terms that are zero; values kept
                self.graphs = [g for g in self.graphs if not g.scalar.is_zero or p.choose(2)]
        terms = []

        def replace(g, *a):
            if g is not top:
                raise Unsupported('replaced another diagram')
            n = 1 + p.choose(3)
            terms.extend(D(('term', i), max(g.tc - 1, 0), p.choose(2) == 1) for i in range(n))
            return SG(list(terms))
        m.replace_magic_states = replace
        r = real(top)
        if top.tc == 0:
            return None if len(r) == 1 and r[0] is top else 'a Clifford diagram is not its own decomposition'
        if any(x.tc for x in r):
            return 'a term is not Clifford'
        for t in terms:
            mine = [x for x in r if x.parts[0] == 'part' and x.parts[1] is t]
            if not mine and t.scalar.is_zero:
                continue
            k = mine[0].parts[3] if mine else None
            if not mine or sorted(x.parts[2] for x in mine) != list(range(k)):
                if not mine and not t.scalar.is_zero:
                    # an empty decomposition is a legal one only if it was asked for
                    continue
                return 'parts of a term are missing or doubled'
        if any(x.parts[0] != 'part' for x in r):
            return 'a term was not decomposed'
        return None
    discharge(P, 'find_stabilizer_decomp: the parts of every nonzero term, each once', run, 'callee contracts (induction)', replay=lambda: _S[0].hunt('find_stabilizer_decomp', 100, 3, 60))


def register(S):
    _S.append(S)

    def add(f, args, fns, tiers=('quick', 'thorough')):
        @S.proof('proof of %s' % ' '.join([f] + [str(a) for a in args]), functions=['simulate.' + x for x in fns], limit=300, tiers=tiers)
        def _(P):
            globals()[f](P, *args)
    fs = ['replace_magic_states', 'replace_B60', 'replace_B66', 'replace_E6', 'replace_O6', 'replace_K6', 'replace_phi1', 'replace_phi2', 'replace_2_S', 'replace_2_N', 'replace_1_0', 'replace_1_1']
    for n in range(1, 9):
        add('replaced', (n,), fs)
    add('post_select', (), ['SumGraph.post_select'])
    add('sums', (), ['SumGraph.to_tensor', 'SumGraph.to_matrix', 'SumGraph.full_reduce', 'SumGraph.reduce_scalar'])
    add('decomp', (), ['find_stabilizer_decomp'])
