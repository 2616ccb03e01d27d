"""Loop invariants for the real code: the source of a function of /repo is parsed on every run, every loop is replaced by its cut
(check the invariant, havoc what the loop assigns, assume the invariant; either run the real body once from an arbitrary iteration and
check the invariant again, or leave the loop), everything else is executed as it stands.  `break`, `continue`, `return` keep their
meaning.  Loops are numbered in source order; the invariants come with the contract.  Dropped: nothing but the loop headers."""
import ast
import inspect
import textwrap
import time
import z3
from .core import path, Unsupported, PathAbort
from .heap import Z


class GList:
    """a list of n elements, given by a function of the index (which may fork the path)"""
    def __init__(self, n, at):
        self.n, self.at_ = n, at

    def at(self, i):
        return self.at_(i)

    def __getitem__(self, i):
        return self.at_(i)

    lo, step = 0, 1

    @property
    def hi(self):
        return self.n


class SymRange:
    def __init__(self, *a):
        self.lo, self.hi, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if self.step not in (1, -1):
            raise Unsupported('range step')


class Formula:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return path().branch(self.t)


def quantified(f, seen=None):
    seen = set() if seen is None else seen
    if z3.is_quantifier(f):
        return True
    if f.get_id() in seen:
        return False
    seen.add(f.get_id())
    return any(quantified(c, seen) for c in f.children())


def assigned(nodes):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out:
                out.append(x.id)
    return out


class _T(ast.NodeTransformer):
    def __init__(self, comps=False, sets=False):
        self.sets, self.depth = sets, 0
        self.comps, self.nl, self.nd = comps, 0, 0
        self.n = 0
        self.names = {}

    def visit_ListComp(self, n):
        """[e for v in it] without conditions is the pointwise map of it"""
        if self.comps and len(n.generators) == 1 and (self.sets or not n.generators[0].ifs) and isinstance(n.generators[0].target, (ast.Name, ast.Tuple)):
            g = n.generators[0]
            if self.sets:
                self.depth += 1
            elt = self.visit(n.elt)
            ifs = [self.visit(c) for c in g.ifs]
            if self.sets:
                self.depth -= 1
            tgt = g.target
            if isinstance(tgt, ast.Name):
                args, call = [ast.arg(tgt.id)], False
            elif all(isinstance(e, ast.Name) for e in tgt.elts):
                args, call = [ast.arg(e.id) for e in tgt.elts], True
            else:
                return n
            lam = ast.Lambda(ast.arguments([], args, None, [], [], None, []), elt)
            # local variables have the values of now, the heap is only read (the contracts check that it stays)
            loaded = {x.id for y in [elt] + ifs for x in ast.walk(y) if isinstance(x, ast.Name)} & self.locals - {a.arg for a in args}
            names = [ast.arg(x) for x in sorted(loaded)]

            def close(lam):
                return ast.Call(ast.Lambda(ast.arguments([], names, None, [], [], None, []), lam), [ast.Name(a.arg, ast.Load()) for a in names], [])
            conds = [close(ast.Lambda(ast.arguments([], args, None, [], [], None, []), c)) for c in ifs]
            r = ast.Call(ast.parse('__R.comp', mode='eval').body, [close(lam), self.visit(g.iter), ast.Constant(call)] + conds, [])
            return ast.Call(ast.parse('__R.asset', mode='eval').body, [r], []) if isinstance(n, ast.SetComp) else r
        return n
    visit_GeneratorExp = visit_ListComp

    def visit_List(self, n):
        self.generic_visit(n)
        if n.elts or not isinstance(n.ctx, ast.Load) or not self.comps:
            return n
        self.nl += 1
        return ast.parse('__R.empty(%d)' % (self.nl - 1), mode='eval').body

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys or not self.comps:
            return n
        self.nd += 1
        return ast.parse('__R.emptydict(%d)' % (self.nd - 1), mode='eval').body

    def visit_SetComp(self, n):
        return self.visit_ListComp(n) if self.sets else n

    def visit_Compare(self, n):
        """membership inside comprehensions stays a formula"""
        self.generic_visit(n)
        if self.depth and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return ast.Call(ast.parse('__R.isin', mode='eval').body, [n.left, n.comparators[0], ast.Constant(isinstance(n.ops[0], ast.In))], [])
        return n

    def visit_Lambda(self, n): return n

    def visit_DictComp(self, n):
        """{k: v for t in it}: the iterable may know what it is (a permutation and its inverse)"""
        g = n.generators[0]
        if not self.comps or len(n.generators) > 1 or g.ifs or not isinstance(g.target, (ast.Name, ast.Tuple)):
            return n
        tgt = [g.target] if isinstance(g.target, ast.Name) else g.target.elts
        if not all(isinstance(e, ast.Name) for e in tgt):
            return n
        lam = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in tgt], None, [], [], None, []), ast.Tuple([n.key, n.value], ast.Load()))
        names = sorted({x.id for y in (n.key, n.value) for x in ast.walk(y) if isinstance(x, ast.Name)} & self.locals - {e.id for e in tgt})
        if names:
            return n
        return ast.Call(ast.parse('__R.dictcomp', mode='eval').body, [lam, self.visit(g.iter), ast.Constant(isinstance(g.target, ast.Tuple))], [])

    def _loop(self, node, kind):
        k = self.n
        self.n += 1
        names = assigned(node.body)
        tgt = assigned([node.target]) if kind == 'for' else []
        self.names[k] = names
        body = [self.visit(s) for s in node.body]
        flat = []
        for b in body:
            flat += b if isinstance(b, list) else [b]
        orelse = []
        for s in node.orelse:
            b = self.visit(s)
            orelse += b if isinstance(b, list) else [b]
        names = [x for x in names if x not in tgt]
        pre = ast.parse('__R.enter(%d, None, locals())' % k).body
        if kind == 'for':
            pre[0].value.args[1] = node.iter
        for x in names:
            pre += ast.parse('try: %s = __R.havoc(%d, %r, %s)\nexcept UnboundLocalError: pass' % (x, k, x, x)).body
        pre += ast.parse('__R.havoced(%d, locals())' % k).body
        if kind == 'for':
            loop = ast.parse('while __R.more(%d, locals()):\n    pass' % k).body[0]
            asg = ast.Assign(targets=[node.target], value=ast.parse('__R.item(%d)' % k, mode='eval').body)
            loop.body = [asg] + flat
        else:
            loop = ast.parse('while __R.wmore(%d, locals()) and x:\n    pass' % k).body[0]
            loop.test.values[1] = node.test
            loop.body = flat
        loop.orelse = orelse
        return pre + [loop]

    def visit_For(self, node): return self._loop(node, 'for')
    def visit_While(self, node): return self._loop(node, 'while')


class Runtime:
    """spec: {loop number: Inv}; verdicts: {obligation name: [ok, worst message]}"""
    def __init__(self, specs, verdicts):
        self.specs, self.verdicts = specs, verdicts
        self.act = {}
        self.boundary = None    # called at every loop boundary

    def prove(self, name, f, timeout=10000):
        v = self.verdicts.setdefault(name, [True, None, 0.0, 0])
        v[3] += 1
        if isinstance(f, bool):
            r = z3.unsat if f else z3.sat
            m = None
        else:
            t0 = time.time()
            r = z3.unknown
            for mbqi, seed, to in ((False, 0, 2000), (False, 7, 2000), (False, 3, timeout), (True, 0, 3000)):
                s = z3.Solver()
                s.set('timeout', to)
                s.set('auto_config', False)
                s.set('mbqi', mbqi)
                s.set('random_seed', seed)
                for h in path().pc:
                    s.add(h)
                s.add(z3.Not(f))
                r = s.check()
                if r != z3.unknown:
                    break
            v[2] += time.time() - t0
            if r == z3.sat and not mbqi:
                r = z3.unknown
        if r != z3.unsat and v[0]:
            v[0] = False
            v[1] = ('counter-model %s' % str(s.model())[:600] if r == z3.sat else 'not proved: the solver answered unknown') if not isinstance(f, bool) else 'no value'

    empties = ()
    dicts = ()

    def emptydict(self, k):
        return self.dicts[k]() if k < len(self.dicts) else {}

    def empty(self, k):
        return self.empties[k]() if k < len(self.empties) else []

    def reached(self, what):
        """some path gets here with hypotheses the solver cannot refute (guards against vacuous proofs)"""
        c = self.verdicts.setdefault('reachable: ' + what, [False, 'every path here is refuted: contradictory hypotheses', 0.0, 0])
        c[3] += 1
        if c[0]:
            return
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 1000)
        s.set('auto_config', False)
        s.set('mbqi', False)
        for h in path().pc:
            s.add(h)
        if s.check() != z3.unsat:
            c[0] = True
        c[2] += time.time() - t0

    def isin(self, x, S, pos):
        if hasattr(S, 'has'):
            f = S.has(x)
            return Formula(f if pos else z3.Not(f))
        return (x in S) == pos

    def asset(self, x):
        return x.asset() if hasattr(x, 'asset') else set(x)

    def comp(self, f, it, call, *conds):
        h = (lambda x: f(*x)) if call else f
        if hasattr(it, 'comp'):
            return it.comp(h, [(lambda x, c=c: c(*x)) if call else c for c in conds])
        if conds:
            if isinstance(it, (SymRange, GList)):
                raise Unsupported('comprehension with a condition over an arbitrary range')
            r = []
            for x in it:
                if all(c(*x) if call else c(x) for c in conds):
                    r.append(h(x))
            return r
        if isinstance(it, SymRange):
            if it.step != 1:
                raise Unsupported('comprehension over a descending range')
            n = Z(z3.simplify(z3.If(Z.of(it.hi) >= Z.of(it.lo), Z.of(it.hi) - Z.of(it.lo), 0)))
            return GList(n, lambda i: h(i + it.lo))
        if hasattr(it, 'at') and hasattr(it, 'hi'):
            return GList(it.hi, lambda i: h(it.at(i)))
        return [h(x) for x in it]

    def dictcomp(self, f, it, call):
        if hasattr(it, 'dictcomp'):
            return it.dictcomp((lambda x: f(*x)) if call else f)
        return dict((f(*x) if call else f(x)) for x in it)

    def _spec(self, k):
        if k not in self.specs:
            raise Unsupported('loop %d has no invariant' % k)
        return self.specs[k]

    def enter(self, k, it, env):
        sp = self._spec(k)
        if it is not None and not (hasattr(it, 'lo') and hasattr(it, 'hi')) and not hasattr(it, 'member'):
            it = sp.iterable(it)
        self.act[k] = dict(it=it, seen=False, pos=None)
        if self.boundary:
            self.boundary('entry of loop %d' % k)
        pos = None if it is None else (lambda t: z3.BoolVal(False)) if hasattr(it, 'member') else it.lo
        if hasattr(it, 'member'):
            self.act[k]['it'] = it.snapshot()
        for nm, f in sp.inv(env, pos):
            self.prove('loop %d (%s): %s holds initially' % (k, sp.name, nm), f)

    def havoc(self, k, name, old):
        return self._spec(k).fresh(name, old)

    def havoced(self, k, env):
        self.act[k]['env'] = env
        self._spec(k).heap(env)

    def _assume(self, fs):
        for nm, f in fs:
            if f is False:
                raise PathAbort()
            if f is not True:
                path().assume(f)

    def more(self, k, env):
        a, sp = self.act[k], self._spec(k)
        it = a['it']
        if hasattr(it, 'member'):
            return self._more_set(k, a, sp, it, env)
        lo, hi, st = Z.of(it.lo), Z.of(it.hi), it.step
        if a['seen']:
            self.reached('end of the body of loop %d' % k)
            if self.boundary:
                self.boundary('end of loop %d' % k)
            for nm, f in sp.inv(env, Z(z3.simplify(a['pos'].t + st))):
                self.prove('loop %d (%s): %s is preserved' % (k, sp.name, nm), f)
            raise PathAbort()
        a['seen'] = True
        if path().choose(2):
            end = Z(z3.simplify(z3.If(hi >= lo, hi, lo) if st == 1 else z3.If(hi <= lo, hi, lo)))
            self._assume(sp.inv(env, end))
            if not path().feasible():
                raise PathAbort()
            return False
        i = Z.fresh('it%d' % k)
        path().assume(z3.And(lo <= i.t, i.t < hi) if st == 1 else z3.And(lo >= i.t, i.t > hi))
        a['pos'] = i
        self._assume(sp.inv(env, i))
        if not path().feasible():
            raise PathAbort()
        return True

    def _more_set(self, k, a, sp, it, env):
        """a loop over a set in arbitrary order: the elements seen so far are an arbitrary subset"""
        if a['seen']:
            self.reached('end of the body of loop %d' % k)
            if self.boundary:
                self.boundary('end of loop %d' % k)
            i, old = a['pos'].t, a['sub']
            for nm, f in sp.inv(env, lambda t: z3.Or(old(t), t == i)):
                self.prove('loop %d (%s): %s is preserved' % (k, sp.name, nm), f)
            raise PathAbort()
        a['seen'] = True
        if path().choose(2):
            self._assume(sp.inv(env, it.member))
            if not path().feasible():
                raise PathAbort()
            return False
        i = it.element('it%d' % k)
        sub = z3.Function('seen%d!%d' % (k, i.t.get_id()), z3.IntSort(), z3.BoolSort())
        v = z3.Int('sv!%d' % i.t.get_id())
        path().assume(z3.ForAll([v], z3.Implies(sub(v), it.member(v))))
        path().assume(z3.Not(sub(i.t)))
        a['pos'], a['sub'] = i, (lambda t: sub(t))
        self._assume(sp.inv(env, a['sub']))
        if not path().feasible():
            raise PathAbort()
        return True

    def item(self, k):
        a = self.act[k]
        it = a['it']
        if hasattr(it, 'member'):
            return a['pos']
        return it.at(a['pos']) if hasattr(it, 'at') else a['pos']

    def wmore(self, k, env):
        a, sp = self.act[k], self._spec(k)
        if a['seen']:
            self.reached('end of the body of loop %d' % k)
            if self.boundary:
                self.boundary('end of loop %d' % k)
            for nm, f in sp.inv(env, None):
                self.prove('loop %d (%s): %s is preserved' % (k, sp.name, nm), f)
            raise PathAbort()
        a['seen'] = True
        self._assume(sp.inv(env, None))
        if not path().feasible():
            raise PathAbort()
        return True


class Inv:
    def __init__(self, name, inv, fresh=None, heap=None, iterable=None):
        self.name, self.inv = name, inv
        self.fresh = fresh or (lambda n, old: Z.fresh(n) if isinstance(old, (Z, int)) else old)
        self.heap = heap or (lambda env: None)
        self._iterable = iterable

    def iterable(self, it):
        if self._iterable is None:
            raise Unsupported('loop over %r' % (it,))
        return self._iterable(it)


def instrument(fn, runtime, comps=False, sets=False, **names):
    """the function with its loops cut; names are replaced in its globals"""
    fn = inspect.unwrap(fn)
    src = textwrap.dedent(inspect.getsource(fn))
    tree = ast.parse(src)
    fd = tree.body[0]
    fd.decorator_list = []
    fd.returns = None
    for a in fd.args.args + fd.args.kwonlyargs:
        a.annotation = None
    t = _T(comps, sets)
    t.locals = set(assigned(fd.body)) - {x.id for n in ast.walk(fd) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    body = []
    for s in fd.body:
        b = t.visit(s)
        body += b if isinstance(b, list) else [b]
    fd.body = body
    ast.fix_missing_locations(tree)
    env = dict(fn.__globals__, __R=runtime, **names)
    exec(compile(tree, fn.__code__.co_filename, 'exec'), env)
    f = env[fd.name]
    f.loops = t.n
    return f
