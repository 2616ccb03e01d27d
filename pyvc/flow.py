"""Procedures that only compose other procedures: the real function is executed (a copy built from its current source, loops cut by an
invariant) on tokens that carry a denotation; every callee is replaced by its contract.

Token kinds: Diag/Circ objects have a denotation `map`, an owner and a `valid` flag.  A callee contract may mutate a token in place
(denotation kept or replaced) or invalidate it.  Numbers the procedure computes are `Any`: comparisons explore both outcomes.
Loop rule: a loop is entered in an arbitrary state of the variables it assigns (each token variable: any token with the invariant
denotation, aliased in every possible way with the other variables and with the tokens from before the loop), its body is executed
once, and the invariant must hold again; after the loop the state is arbitrary again."""
import ast
import importlib
import inspect
import types as _types
from .core import Unsupported, path, PathAbort, Path


class Breach(Exception):
    """a contract is violated"""


class Widen(BaseException):
    """the alias invariant of a loop was too strong; explore again with the weaker one"""


class Any:
    """an arbitrary number, string or flag"""
    def __init__(self, what=''):
        self.what = what

    def _a(self, *o):
        return Any(self.what)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __mod__ = __floordiv__ = __abs__ = __pow__ = _a
    __rpow__ = __rmod__ = __rfloordiv__ = _a

    def _c(self, o=None):
        return path().choose(2) == 0
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _c
    __hash__ = None

    def __bool__(self):
        return self._c()

    def __round__(self, *a):
        return Any()

    def __format__(self, spec):
        return '?'
    __str__ = __repr__ = lambda self: '?'

    def __deepcopy__(self, memo):
        return self


class Pos(Any):
    """an arbitrary positive integer"""
    def __add__(self, o):
        return Pos() if isinstance(o, Pos) or isinstance(o, (int, bool)) and o >= 0 else Any()
    __radd__ = __add__

    def __mul__(self, o):
        return Pos() if isinstance(o, Pos) or isinstance(o, int) and o > 0 else o if isinstance(o, int) and o == 0 else Any()
    __rmul__ = __mul__

    def __bool__(self): return True
    def __eq__(self, o): return False if isinstance(o, (int, bool)) and o <= 0 else self._c()
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return False if isinstance(o, int) and o <= 1 else self._c()
    def __le__(self, o): return False if isinstance(o, int) and o <= 0 else self._c()
    def __gt__(self, o): return not self <= o
    def __ge__(self, o): return not self < o
    __hash__ = None


class AnyModule:
    """random, math, time: every function returns an arbitrary value"""
    def __init__(self, **over):
        self.__dict__.update(over)

    def __getattr__(self, n):
        return lambda *a, **k: Any(n)


class Tok:
    kind = 'token'

    def __init__(self, map, frozen=False, name=''):
        self.map, self.frozen, self.valid, self.name = map, frozen, True, name

    def mutate(self, what, map=None):
        if self.frozen:
            raise Breach('%s changes %s' % (what, self.name or 'an object that must not change'))
        self.need(what)
        if map is not None:
            self.map = map

    def need(self, what):
        if not self.valid:
            raise Breach('%s is applied to an object whose contents are gone' % what)

    def copy(self, *a, **k):
        self.need('copy')
        return type(self)(self.map)

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.kind, n))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Diag(Tok):
    kind = 'diagram'


class Circ(Tok):
    kind = 'circuit'

    def to_basic_gates(self):
        return self.copy()


class AnyList(list):
    """a list with arbitrary contents, as left by earlier iterations"""
    def __init__(self, elem=None):
        list.__init__(self)
        self.elem = elem


# ------------------------------------------------------------------------------------------------ loop cut
def havoc(val, pool):
    """an arbitrary value with the invariant of `val`; pool: tokens this variable may be aliased with"""
    if isinstance(val, Tok):
        opts = [val] + [t for t in pool if isinstance(t, type(val)) and t is not val and t.valid and t.map == val.map]
        k = path().choose(len(opts) + 1)
        return opts[k] if k < len(opts) else type(val)(val.map)
    if isinstance(val, (Any, int, float, complex, str, bool)) and not isinstance(val, type):
        return Any()
    if val is None:
        return None if path().choose(2) == 0 else Any()
    if type(val).__name__ == 'Fraction':
        return Any()
    if isinstance(val, list) and val and all(hasattr(x, '__havoc__') for x in val):
        return [val[0].__havoc__(pool) for _ in range(path().choose(2))]      # each round of a loop over the list starts from the invariant
    if isinstance(val, list) and not any(isinstance(x, Tok) for x in val):
        return AnyList()
    if hasattr(val, '__havoc__'):
        return val.__havoc__(pool)
    raise Unsupported('loop variable of type %s' % type(val).__name__)


def invariant(old, new, name):
    if isinstance(old, Tok):
        if not isinstance(new, Tok) or type(new) is not type(old):
            raise Breach('after an iteration %s is no longer a %s' % (name, old.kind))
        if new.map != old.map:
            raise Breach('after an iteration %s denotes something else' % name)
        if not new.valid:
            raise Breach('after an iteration the contents of %s are gone' % name)
    elif isinstance(old, list) and old and all(hasattr(x, '__inv__') for x in old):
        for x in new:
            if x is not None:
                old[0].__inv__(x, name)
    elif hasattr(old, '__inv__'):
        old.__inv__(new, name)


class Cut(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_FunctionDef(self, node):
        node.returns = None
        node.decorator_list = [d for d in node.decorator_list]
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a.annotation = None
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

    def _cut(self, node, iter_, target, test):
        from .bundle import stored
        self.n += 1
        names = set()
        for s in node.body:
            names |= stored(s)
        targets = stored(target) if target is not None else set()
        names = sorted(n for n in names - targets if not n.startswith('vc_'))
        lid = ast.Constant(self.n)
        src = []
        src.append('vc_st_ = vc_head_(%d, locals(), %r)' % (self.n, names))
        for i, n in enumerate(names):
            src.append('if %r in vc_st_: %s = vc_st_[%r]' % (n, n, n))
        hv = ast.parse('\n'.join(src)).body
        if test is None:
            once = ast.For(target, ast.Call(ast.Name('vc_once_', ast.Load()), [iter_], []), node.body, ast.parse('vc_tail_(%d, locals())' % self.n).body)
            body = [ast.If(ast.Call(ast.Name('vc_enter_', ast.Load()), [lid, iter_], []), [once], node.orelse or [ast.Pass()])]
        else:
            t = ast.Name('vc_dummy_', ast.Store())
            once = ast.For(t, ast.Tuple([ast.Constant(0)], ast.Load()), node.body, ast.parse('vc_tail_(%d, locals())' % self.n).body)
            body = [ast.If(test, [once], node.orelse or [ast.Pass()])]
        return hv + body

    def visit_For(self, node):
        self.generic_visit(node)
        if isinstance(node.iter, (ast.Tuple, ast.List)):
            return node
        out = self._cut(node, node.iter, node.target, None)
        guard = ast.parse('if vc_concrete_(vc_i_): pass').body[0]
        pre = ast.Assign([ast.Name('vc_i_', ast.Store())], node.iter)
        import copy
        plain = ast.For(copy.deepcopy(node.target), ast.Name('vc_i_', ast.Load()), copy.deepcopy(node.body), copy.deepcopy(node.orelse))
        for x in out:
            for y in ast.walk(x):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('vc_once_', 'vc_enter_'):
                    y.args[-1] = ast.Name('vc_i_', ast.Load())
        return [pre, ast.If(guard.test, [plain], out)]

    def visit_While(self, node):
        self.generic_visit(node)
        return self._cut(node, None, None, node.test)


class AnyRange:
    """an iterable of unknown length"""
    def __init__(self, elem=None):
        self.elem = elem or (lambda: Any())

    def __iter__(self):
        raise Unsupported('iteration over an unknown collection outside a loop')

    def __len__(self):
        raise Unsupported('len')


def _concrete(i):
    return not isinstance(i, (AnyRange, AnyList))


def load(modname, patches, hooks=None, pre=None):
    """a copy of the module with cut loops and the given callees replaced"""
    real = importlib.import_module(modname)
    tree = ast.parse(inspect.getsource(real))
    if pre:
        pre(tree)
    tr = Cut()
    body = []
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            n = tr.visit(n)
        elif isinstance(n, ast.If):
            if '__main__' in ast.dump(n.test):
                continue
        body.append(n)
    tree.body = body
    ast.fix_missing_locations(tree)
    m = _types.ModuleType(real.__name__)
    m.__dict__.update(__file__=real.__file__, __package__=real.__package__, __name__=real.__name__)
    exec(compile(tree, real.__file__, 'exec'), m.__dict__)
    alias = m.alias = set()  # (loop, x, y): at the head of the loop x may be the object y was when the loop was entered / is now

    def head(lid, loc, names):
        """invariant holds at entry by construction (the values themselves define it); arbitrary state"""
        old = {n: loc[n] for n in names if n in loc}
        st = {}
        for n, v in old.items():
            if hooks and n in hooks:
                hooks[n][1](v, v)      # the invariant holds at entry
                st[n] = hooks[n][0](v)
                continue
            st[n] = havoc(v, [w for x, w in old.items() if x != n and (lid, n, x) in alias] + [w for x, w in st.items() if (lid, n, x) in alias or (lid, x, n) in alias])
        path().memo[('loop', lid)] = old
        return st

    def tail(lid, loc):
        old = path().memo[('loop', lid)]
        for n, v in old.items():
            if n not in loc:
                raise Breach('%s is gone after an iteration' % n)
            if hooks and n in hooks:
                hooks[n][1](v, loc[n])
                continue
            invariant(v, loc[n], n)
            if isinstance(v, Tok):
                for x, w in old.items():
                    if x != n and isinstance(w, Tok) and (loc[n] is w or loc[n] is loc[x]) and (lid, n, x) not in alias:
                        alias.add((lid, n, x))
                        raise Widen()
        raise PathAbort()

    def enter(lid, it):
        return path().choose(2) == 0

    def once(it):
        if isinstance(it, AnyRange):
            return (it.elem(),)
        if isinstance(it, AnyList) and it.elem:
            return (it.elem(),)
        raise Unsupported('iteration over %s' % type(it).__name__)

    def rng(*a):
        if any(isinstance(x, Any) for x in a):
            return AnyRange()
        return range(*a)
    m.__dict__.update(vc_head_=head, vc_tail_=tail, vc_enter_=enter, vc_once_=once, vc_concrete_=_concrete, range=rng)
    m.__dict__.update(patches)
    return m


def prove(P, name, run, what, max_paths=20000, replay=None):
    """run(path) executes the procedure and checks the postcondition (raise Breach); every path must satisfy it"""
    import time
    t0 = time.time()

    def one(p):
        try:
            run(p)
        except Breach as e:
            return (False, str(e))
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, NameError) as e:
            import traceback
            raise Unsupported('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        return (True, None)
    paths0 = P.paths_explored
    for _ in range(40):
        try:
            paths = P.explore(one, max_paths=max_paths)
            break
        except Widen:
            pass
    else:
        raise Unsupported('alias invariants do not stabilise')
    bad = [r for _, r in paths if not r[0]]
    n = P.paths_explored - paths0
    P.record('%s: %s (%d paths)' % (name, what, n), not bad, 'path enumeration', time.time() - t0, detail=bad[0][1] if bad else None, replay=replay)
