"""Ghost state used as the callee side of contracts: opaque wire labels, a graph that implements exactly the contracts of the
primitive graph mutators (add_vertex, add_edge, set_phase, ... : 'the diagram now has this vertex / edge / phase mod 2'; these
contracts are themselves obligations of C08/C09), and a scalar that implements the contracts of Scalar (obligations of C13)."""
from fractions import Fraction
from .core import Path, path, Unsupported
from . import exact as X


class Lab:
    """an arbitrary wire label (integer); distinct Labs are distinct labels"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Lab):
            return False
        if isinstance(o, (int, float)):
            p = path()
            key = ('labeq', self.name, o)
            if key not in p.memo:
                if any(k[0] == 'labeq' and v and (k[1] == self.name or k[2] == o) for k, v in p.memo.items() if isinstance(k, tuple) and len(k) == 3):
                    p.memo[key] = False
                else:
                    p.memo[key] = p.choose(2) == 1
            return p.memo[key]
        return False

    def __ne__(self, o):
        return not self == o

    def _lt(self, o):
        if self is o:
            return False
        if not isinstance(o, Lab):
            key = ('lablt', self.name, o)
            p = path()
            if key not in p.memo:
                p.memo[key] = p.choose(2) == 0
            return p.memo[key]
        p = path()
        key, rev = ('lablt', self.name, o.name), ('lablt', o.name, self.name)
        if key not in p.memo:
            p.memo[key] = p.choose(2) == 0
            p.memo[rev] = not p.memo[key]
        return p.memo[key]

    def __lt__(self, o): return self._lt(o)
    def __gt__(self, o): return (o._lt(self) if isinstance(o, Lab) else not self._lt(o) and not self == o)
    def __le__(self, o): return self is o or self._lt(o)
    def __ge__(self, o): return self is o or self > o

    def _pos(self, *a):
        return 0.0  # layout only
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _pos
    def __index__(self):
        raise Unsupported('wire label used as an index')
    __int__ = __float__ = __format__ = __str__ = __index__


def ghost_graph_class():
    from pyzx.graph.graph_s import GraphS
    from pyzx.utils import VertexType

    class GhostGraph(GraphS):
        def __init__(self):
            super().__init__()
            self.scalar = GhostScalar()

        def add_vertex(self, ty=VertexType.BOUNDARY, qubit=-1, row=-1, phase=None, ground=False):
            v = self.add_vertices(1)[0]
            self.ty[v] = ty
            self._phase[v] = phase if phase is not None else (1 if ty == VertexType.H_BOX else 0)
            if ground:
                self.set_ground(v, True)
            return v

        def set_phase(self, v, p):
            self._phase[v] = p

        def add_to_phase(self, v, p):
            self._phase[v] = self._phase[v] + p

        def set_qubit(self, v, q): pass
        def set_row(self, v, r): pass
        def set_position(self, *a): pass
        def qubit(self, v): return 0
        def row(self, v): return 0
    return GhostGraph


class GhostScalar:
    """contract of pyzx.graph.scalar.Scalar: every method multiplies the exact value"""
    def __init__(self):
        self.val = X.ONE

    def mul(self, a):
        self.val = self.val * a

    def add_power(self, n): self.mul(X.sqrt2pow(n))
    def add_phase(self, p): self.mul(X.e(p))
    def add_node(self, p): self.mul(X.ONE + X.e(p))
    def add_float(self, f): self.mul(X.Amp.of(f))

    def add_spider_pair(self, p1, p2):
        self.mul((X.ONE + X.e(p1) + X.e(p2) - X.e(p1 + p2)) * X.ISQ2)

    def mult_with_scalar(self, o): self.mul(o.val)
    def copy(self, conjugate=False):
        s = GhostScalar()
        s.val = self.val.conj() if conjugate else self.val
        return s


def copy_ghost(g):
    """contract of copy(): an equal diagram with the same vertex names that shares no state (obligation of C10)"""
    h = g.__class__()
    h.graph = {v: dict(d) for v, d in g.graph.items()}
    for a in ('_vindex', 'nedges', '_inputs', '_outputs'):
        setattr(h, a, getattr(g, a))
    for a in ('ty', '_phase', '_grounds', '_vdata', '_qindex', '_rindex'):
        x = getattr(g, a, None)
        if isinstance(x, dict):
            setattr(h, a, dict(x))
        elif isinstance(x, set):
            setattr(h, a, set(x))
    h.scalar = g.scalar.copy()
    return h


def module_constants(mod, names):
    """the right-hand sides of module-level constant assignments, re-evaluated exactly (sqrt 2 and complex literals exact)"""
    import ast
    import inspect
    env = {}
    src = ast.parse(inspect.getsource(mod))
    base = {'sq2': X.SQ2, 'math': None, 'np': None, '__builtins__': {}}
    for st in src.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id in names:
            class W(ast.NodeTransformer):
                def visit_Constant(self, n):
                    return ast.copy_location(ast.Call(ast.Name('__amp', ast.Load()), [n], []), n)
            e = ast.fix_missing_locations(ast.Expression(W().visit(st.value)))
            env[st.targets[0].id] = eval(compile(e, '<const>', 'eval'), dict(base, __amp=X.Amp.exact, **env))
    return env
