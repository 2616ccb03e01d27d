"""Reference (oracle) semantics of ZX/ZH/ZW diagrams, independent of pyzx.tensor.

The linear map of a diagram is the contraction of one defining tensor per vertex and one 2x2 matrix per
edge (identity or Hadamard), times the number denoted by its scalar.  Only the graph's read accessors are used."""
import cmath, math
from fractions import Fraction
import numpy as np

H2 = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
I2 = np.eye(2, dtype=complex)
PI = math.pi


def ph(x, env=None):
    """e^{i pi x}; x number or symbolic polynomial (env: variable name -> value)."""
    return cmath.exp(1j * PI * numval(x, env))


def numval(x, env=None):
    if isinstance(x, (int, float, Fraction)):
        return float(x)
    if isinstance(x, complex):
        return x
    if hasattr(x, 'terms'):  # Poly: evaluated from its term list by definition
        tot = 0
        for c, t in x.terms:
            v = c if not isinstance(c, Fraction) else float(c)
            for var, e in t.vars:
                v = v * (env[var.name] ** e)
            tot += v
        return tot
    return float(x)


def spider_z(n, c):
    t = np.zeros((2,) * n, dtype=complex)
    if n == 0:
        return np.array(1 + c, dtype=complex)
    t[(0,) * n] = 1
    t[(1,) * n] = c
    return t


def app1(t, m, axis):
    return np.moveaxis(np.tensordot(m, t, axes=(1, axis)), 0, axis)


def spider_x(n, c):
    t = spider_z(n, c)
    for i in range(n):
        t = app1(t, H2, i)
    return t


def hbox(n, c):
    t = np.ones((2,) * n, dtype=complex)
    if n == 0:
        return np.array(c, dtype=complex)
    t[(1,) * n] = c
    return t


def wnode(n):
    """W state on n legs: sum of weight-one basis states (leg order symmetric)."""
    t = np.zeros((2,) * n, dtype=complex)
    for i in range(n):
        ix = [0] * n
        ix[i] = 1
        t[tuple(ix)] = 1
    return t


def scalar_value(s, env=None):
    """The number a Scalar denotes, computed from its fields alone."""
    if s.is_zero:
        return 0.0
    v = ph(s.phase, env)
    for p in s.phasenodes:
        v *= 1 + ph(p, env)
    v *= math.sqrt(2) ** s.power2
    v *= complex(s.floatfactor)
    return v


class Net:
    """list of labelled tensors, contracted greedily (smallest result first)."""

    def __init__(self):
        self.ts = []

    def add(self, t, labels):
        t = np.asarray(t, dtype=complex)
        labels = list(labels)
        # self-trace on repeated labels
        while True:
            rep = [l for l in labels if labels.count(l) == 2]
            if not rep:
                break
            l = rep[0]
            i = labels.index(l)
            j = labels.index(l, i + 1)
            t = np.trace(t, axis1=i, axis2=j)
            labels = [x for k, x in enumerate(labels) if k not in (i, j)]
        self.ts.append((t, labels))

    def contract(self, out):
        outs = set(out)
        ts = self.ts
        where = {}
        # repeatedly choose the label whose contraction is cheapest
        while True:
            where = {}
            for i, (_, ls) in enumerate(ts):
                for l in ls:
                    where.setdefault(l, []).append(i)
            best = None
            for l, idx in where.items():
                if l in outs or len(idx) != 2:
                    continue
                i, j = idx
                a, b = ts[i][1], ts[j][1]
                cost = len(set(a) ^ set(b))
                if best is None or cost < best[0]:
                    best = (cost, i, j)
            if best is None:
                break
            _, i, j = best
            a, la = ts[i]
            b, lb = ts[j]
            common = [l for l in la if l in lb and l not in outs]
            t = np.tensordot(a, b, axes=([la.index(l) for l in common], [lb.index(l) for l in common]))
            ls = [l for l in la if l not in common] + [l for l in lb if l not in common]
            if t.ndim > 22:
                raise MemoryError('reference contraction too large')
            ts = [x for k, x in enumerate(ts) if k not in (i, j)] + [(t, ls)]
        res, ls = np.array(1.0 + 0j), []
        for t, l in ts:
            res = np.tensordot(res, t, axes=0)
            ls += l
        return np.transpose(res, [ls.index(o) for o in out]) if out else res


def graph_tensor(g, env=None, scalar=True, order=None):
    """Tensor with axes (outputs..., inputs...) like pyzx's to_tensor, by definition."""
    ins, outs = list(g.inputs()), list(g.outputs())
    net = Net()
    legs = {v: [] for v in g.vertices()}
    n = 0
    for e in g.edges():
        s, t = g.edge_st(e)
        et = int(g.edge_type(e))
        la, lb = ('e', n, 0), ('e', n, 1)
        n += 1
        legs[s].append(la)
        legs[t].append(lb)
        if et == 1 or et == 3:
            net.add(I2, [la, lb])
        elif et == 2:
            net.add(H2, [la, lb])
        else:
            raise ValueError('edge type %r' % et)
    bl = {}
    for v in legs:
        ty = int(g.type(v))
        d = len(legs[v])
        if d > 20:
            raise MemoryError('degree')
        p = g.phase(v)
        if ty == 0:
            isin, isout = v in ins, v in outs
            k = int(isin) + int(isout)
            if d + k != 2:
                raise ValueError('boundary %r of degree %d used %d times' % (v, d, k))
            ls = list(legs[v])
            if isin:
                bl[('in', v)] = ('in', v)
                ls.append(('in', v))
            if isout:
                ls.append(('out', v))
            net.add(I2, ls)
        elif ty == 1:
            net.add(spider_z(d, ph(p, env)), legs[v])
        elif ty == 2:
            net.add(spider_x(d, ph(p, env)), legs[v])
        elif ty == 3:
            net.add(hbox(d, ph(p, env)), legs[v])
        elif ty == 6:
            lab = g.vdata(v, 'label', 1)
            net.add(spider_z(d, complex(lab)), legs[v])
        elif ty in (4, 5):
            # the two halves of a W node (joined by a W_IO edge) are both weight-one states
            net.add(wnode(d), legs[v])
        else:
            raise ValueError('vertex type %r' % ty)
    out = [('out', v) for v in outs] + [('in', v) for v in ins]
    t = net.contract(out)
    if scalar:
        t = t * scalar_value(g.scalar, env)
    return t


def graph_matrix(g, env=None, scalar=True):
    t = graph_tensor(g, env, scalar)
    return np.asarray(t).reshape(2 ** len(g.outputs()), 2 ** len(g.inputs()))


def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    m = max(1.0, float(np.max(np.abs(a))) if a.size else 0, float(np.max(np.abs(b))) if b.size else 0)
    return bool(np.max(np.abs(a - b)) <= tol * m) if a.size else True


def close_up_to_scalar(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=complex).ravel(), np.asarray(b, dtype=complex).ravel()
    if a.shape != b.shape:
        return False
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < 1e-9 or nb < 1e-9:
        return na < 1e-9 and nb < 1e-9
    return abs(abs(np.vdot(a, b)) - na * nb) <= tol * na * nb * 10


def close_up_to_phase(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    return close_up_to_scalar(a, b, tol) and abs(np.linalg.norm(a) - np.linalg.norm(b)) <= 1e-6 * max(1, np.linalg.norm(a))
