"""C18: circuit equality verification and tensor comparison are never wrong."""
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import refsem, gens

S = Suite('C18', 'proof',
          note='Contract of verify_equality: True only if the circuit matrices agree up to a global phase (up to a permutation of the qubits with up_to_swaps); arguments unchanged. Contract of compare_tensors: True iff the shapes agree and the arrays agree (preserve_scalar) or are nonzero multiples of each other, entries compared to 1e-5 relative to the largest; find_scalar_correction(z*t, t) = z; is_unitary iff the matrix is a nonzero multiple of a unitary.',
          rule='bounded part: equal and unequal pairs judged by matrix products of the standard gates; non-trivial = distinct pair')

SETS = [gens.GATES_BASIC, gens.GATES_CLIFF, gens.GATES_T, gens.GATES_ALL]


def mutate(rng, c):
    """a circuit that differs from c by a small change, perhaps an equivalent one"""
    from pyzx.circuit import gates as G
    d = c.copy()
    n = d.qubits
    k = rng.randrange(11)
    pos = rng.randint(0, len(d.gates))
    q = rng.randrange(n)
    if k == 0 and d.gates:
        del d.gates[rng.randrange(len(d.gates))]
    elif k == 1:
        d.gates.insert(pos, G.ZPhase(q, rng.choice([Fraction(1, 4), Fraction(1, 8), Fraction(1), Fraction(1, 1000)])))
    elif k == 2:
        d.gates.insert(pos, rng.choice([G.NOT, G.Z, G.HAD, G.S])(q))
    elif k == 3 and n > 1:
        a, b = rng.sample(range(n), 2)
        d.gates.insert(pos, rng.choice([G.SWAP, G.CNOT, G.CZ])(a, b))
    elif k == 4 and n > 1:
        a, b = rng.sample(range(n), 2)
        d.gates[pos:pos] = [G.CNOT(a, b), G.CNOT(b, a), G.CNOT(a, b)]
    elif k == 5:
        g = gens.rand_gate(rng, n, gens.GATES_T)
        d.gates[pos:pos] = [g, g.to_adjoint()]
    elif k == 6 and len(d.gates) > 1:
        i = rng.randrange(len(d.gates) - 1)
        d.gates[i], d.gates[i + 1] = d.gates[i + 1], d.gates[i]
    elif k == 7:
        d = d.adjoint()
    elif k == 8:
        d.gates[pos:pos] = [G.NOT(q), G.Z(q), G.NOT(q)]
    elif k == 9:
        d.gates += [G.HAD(i) for i in range(n)]
    return d


def same_up_to_swaps(a, b, n):
    import itertools
    for p in itertools.permutations(range(n)):
        t = b.reshape((2,) * n + (2 ** n,)).transpose(p + (n,)).reshape(2 ** n, 2 ** n)
        if refsem.close_up_to_phase(a, t, 1e-6):
            return True
    return False


@S.bounded('verify_equality', quick=1500, thorough=30000, split=4, limit=200, bound='pairs of circuits of up to 4 qubits and 16 gates, both options, widths that differ',
           functions=['Circuit.verify_equality', 'Circuit.adjoint', 'Circuit.add_circuit', 'full_reduce'])
def _(c):
    rng = c.rng
    a = gens.rand_circuit(rng, (1, 4), (0, 12), rng.choice(SETS))
    r = rng.random()
    if r < 0.1:
        b = gens.rand_circuit(rng, (1, 4), (0, 4), rng.choice(SETS))
    elif r < 0.2:
        from pyzx.circuit import Circuit
        b = Circuit(rng.choice([a.qubits, max(1, a.qubits - 1), a.qubits + 1]))
        b.gates = [g.copy() for g in a.gates if max(g._max_target(), 0) < b.qubits]
    else:
        b = a.copy()
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            b = mutate(rng, b)
    sw = rng.random() < 0.3
    c.note(a=[str(g) for g in a.gates], qa=a.qubits, b=[str(g) for g in b.gates], qb=b.qubits, up_to_swaps=sw)
    sa, sb = gens.gates_snapshot(a), gens.gates_snapshot(b)
    v = a.verify_equality(b, up_to_swaps=sw) if sw or rng.random() < 0.7 else a.verify_equality(b)
    c.check(gens.gates_snapshot(a) == sa and gens.gates_snapshot(b) == sb, 'verification changed a circuit', key='verify_equality changes')
    c.check(isinstance(v, (bool, np.bool_)), 'answer %r' % (v,), key='answer type')
    if a.qubits != b.qubits:
        c.check(not v, 'circuits on %d and %d qubits reported equal' % (a.qubits, b.qubits), key='verify_equality width')
    elif v:
        ma, mb = gens.circuit_matrix(a), gens.circuit_matrix(b)
        ok = refsem.close_up_to_phase(ma, mb, 1e-6) or (sw and same_up_to_swaps(ma, mb, a.qubits))
        c.check(ok, 'different circuits reported equal', key='verify_equality unsound')
    elif not v and sa == sb and not sw and all(g.name in ('HAD', 'ZPhase', 'XPhase', 'CNOT', 'CZ', 'S', 'T', 'Z', 'NOT') for g in a.gates):
        # the documentation promises only soundness; a circuit against itself reduces spider by spider
        pass
    c.sig((str(sa), str(sb), sw, v))


@S.bounded('identity pairs', quick=300, thorough=4000, split=2, bound='Clifford circuits of up to 4 qubits against rewritten copies', functions=['Circuit.verify_equality'])
def _(c):
    rng = c.rng
    a = gens.rand_circuit(rng, (1, 4), (0, 14), gens.GATES_CLIFF)
    b = mutate(rng, mutate(rng, a))
    c.note(a=[str(g) for g in a.gates], b=[str(g) for g in b.gates])
    eq = refsem.close_up_to_phase(gens.circuit_matrix(a), gens.circuit_matrix(b), 1e-6)
    if any(g.name not in ('HAD', 'S', 'S*', 'Z', 'NOT', 'CNOT', 'CZ', 'SWAP') and not (g.name == 'ZPhase' and (2 * g.phase).denominator == 1) for g in b.gates):
        raise Skip()
    v = a.verify_equality(b)
    c.check(not v or eq, 'different circuits reported equal', key='verify_equality unsound')
    c.sig((str(gens.gates_snapshot(a)), str(gens.gates_snapshot(b)), bool(v)))


def rand_array(rng, shape):
    nr = np.random.RandomState(rng.randrange(2 ** 31))
    t = np.array(nr.randn(*shape) + 1j * nr.randn(*shape))
    if rng.random() < 0.5 and t.size > 1:
        t = np.array(t * (nr.rand(*shape) < 0.4))
    if rng.random() < 0.3:
        t = np.round(t)
    return np.array(t)


@S.bounded('arrays', quick=6000, thorough=60000, split=4, bound='arrays of up to 4 legs, scales 1e-6 to 1e6, perturbed in one entry or everywhere, zero arrays, other shapes',
           functions=['compare_tensors', 'find_scalar_correction'])
def _(c):
    from pyzx.tensor import compare_tensors, find_scalar_correction
    rng = c.rng
    shape = (2,) * rng.randint(0, 4)
    t = rand_array(rng, shape)
    if rng.random() < 0.05:
        t = np.array(t * 0)
    k = rng.randrange(9)
    z = 1.0
    u = np.array(t)
    m = float(abs(t).max())
    if k in (1, 2, 3, 4, 5):
        z = complex(rng.choice([-1, 1, 1j, 2, 0.5, 1e-4, 1e4, 0.6 + 0.8j, 1e-6, 1e6, 1 / 2 ** 30]))
        u = np.array(z * t)
    if k in (3, 7):
        i = rng.randrange(t.size)
        u.flat[i] += rng.choice([1, -1, 1j, 0.01, 1e-3]) * max(m, 1e-30) * abs(z)
    if k == 4:
        u = u + np.array(rand_array(rng, shape)) * 1e-11 * m * abs(z)
    if k == 6:
        u = rand_array(rng, shape)
    if k == 8:
        u = rng.choice([lambda: rand_array(rng, shape + (2,)), lambda: np.stack([t, t]), lambda: t.reshape(-1), lambda: np.zeros(shape, dtype=complex), lambda: t[..., None], lambda: t[None]])()
    s = rng.choice([1, 1, 1, 1e-5, 1e5, 1e-9])
    t, u = np.array(t * s), np.array(u * s)
    if k == 5 and t.size > 1: # a first entry that is rounding noise
        t.flat[0] = 3e-14 * (1 if s == 1 else 0)
        u.flat[0] = 0
    ps = rng.random() < 0.4
    c.note(t=[str(x) for x in t.flat], u=[str(x) for x in u.flat], shapes=[list(t.shape), list(u.shape)], preserve_scalar=ps)
    t0, u0 = t.copy(), u.copy()
    v = compare_tensors(t, u, ps)
    c.check(np.array_equal(t, t0) and np.array_equal(u, u0), 'arguments changed', key='compare_tensors changes')
    tiny = 1e-13
    if t.shape != u.shape:
        want = False
    else:
        mt, mu = abs(t).max(), abs(u).max()
        if mt < tiny or mu < tiny:
            want = True if max(mt, mu) < 1e-15 else False if min(mt, mu) == 0 and max(mt, mu) > 1e-6 else None
        elif ps:
            d = abs(t - u).max() / max(mt, mu)
            want = True if d < 1e-9 else False if d > 5e-5 else None
        else:
            i = int(np.argmax(abs(t)))
            if abs(u.flat[i]) < 1e-4 * mu:
                want = False
            else:
                d = abs(t / t.flat[i] - u / u.flat[i]).max()
                want = True if d < 1e-9 else False if d > 5e-5 else None
    if want is not None:
        c.check(bool(v) == want, 'compare_tensors answered %s, %s expected' % (v, want), key='compare_tensors %s' % ('exact' if ps else 'up to scalar'))
    if k in (1, 2, 4, 5) and t.shape == u.shape and abs(t).max() > 1e-3 * s and s > 1e-6 and abs(z) > 1e-5:
        f = find_scalar_correction(u, t)
        c.check(abs(f - z) < 1e-6 * abs(z), 'scalar correction %s, expected %s' % (f, z), key='find_scalar_correction')
    c.sig((t.tobytes(), u.tobytes(), ps))


@S.bounded('graphs and circuits', quick=1200, thorough=12000, split=4, bound='diagrams of up to 7 vertices and circuits of up to 3 qubits compared with rescaled, rewritten and changed copies',
           functions=['compare_tensors', 'find_scalar_correction'])
def _(c):
    import pyzx as zx
    from pyzx.tensor import compare_tensors, find_scalar_correction
    rng = c.rng
    if rng.random() < 0.5:
        g = gens.rand_graph(rng, types=rng.choice([(1, 2), (1, 2, 3)]), nv=(1, 5))
    else:
        g = gens.rand_circuit(rng, (1, 3), (0, 8), gens.GATES_T).to_graph()
    h = g.copy() if rng.random() < 0.8 else gens.rand_graph(rng, nv=(1, 5))
    k = rng.randrange(5)
    if k == 1:
        h.scalar.add_power(rng.randint(-4, 4))
        h.scalar.add_phase(rng.choice(gens.T8))
    elif k == 2 and h.num_vertices():
        v = rng.choice([v for v in h.vertices()])
        if h.type(v) != 0:
            h.add_to_phase(v, rng.choice([1, Fraction(1, 2), Fraction(1, 8)]))
    elif k == 3:
        try:
            zx.spider_simp(h, quiet=True)
        except ValueError as e:
            if 'unreducible' not in str(e):
                raise
            raise Skip()  # the simple backend cannot hold the result
    c.note(a=gens.describe(g), b=gens.describe(h))
    ma, mb = refsem.graph_tensor(g), refsem.graph_tensor(h)
    ps = rng.random() < 0.5
    sa, sb = gens.snapshot(g), gens.snapshot(h)
    v = compare_tensors(g, h, ps)
    c.check(gens.snapshot(g) == sa and gens.snapshot(h) == sb, 'comparison changed a diagram', key='compare_tensors changes')
    na, nb = abs(ma).max(), abs(mb).max()
    # without scalars, a scalar of zero is not seen
    if ma.shape != mb.shape:
        c.check(not v, 'maps of different type reported equal', key='compare shapes')
    elif min(na, nb) > 1e-6 or not ps:
        if not ps:
            ma, mb = refsem.graph_tensor(g, scalar=False), refsem.graph_tensor(h, scalar=False)
            na, nb = abs(ma).max(), abs(mb).max()
            za, zb = na < 1e-9, nb < 1e-9
            if (za and na > 0) or (zb and nb > 0):
                raise Skip()  # a map that is zero only up to rounding
            want = (za and zb) if za or zb else refsem.close_up_to_scalar(ma, mb, 1e-6)
            wantlax = want
        else:
            want = refsem.close(ma, mb, 1e-7)
            wantlax = refsem.close(ma, mb, 1e-4)
        c.check(bool(v) == want or bool(v) == wantlax, 'compare_tensors answered %s, %s expected' % (v, want), key='compare_tensors diagrams')
        if want and min(na, nb) > 1e-6:
            f = find_scalar_correction(g, h)
            ta, tb = refsem.graph_tensor(g), refsem.graph_tensor(h)
            c.check(refsem.close(ta, f * tb, 1e-6), 'scalar correction %s' % f, key='find_scalar_correction')
    c.sig((sa, sb, ps))


@S.bounded('is_unitary', quick=800, thorough=8000, split=2, bound='diagrams of up to 7 vertices, up to 2+2 wires, and circuits of up to 3 qubits', functions=['is_unitary', 'adjoint', 'compose'])
def _(c):
    from pyzx.tensor import is_unitary
    rng = c.rng
    if rng.random() < 0.6:
        k = rng.randint(0, 2)
        g = gens.rand_graph(rng, nv=(1, 4), io=(k, k, k, k) if rng.random() < 0.8 else (0, 2, 0, 2), density=0.4)
    else:
        g = gens.rand_circuit(rng, (1, 3), (0, 8), gens.GATES_T).to_graph()
        if rng.random() < 0.4:
            g.apply_state(rng.choice('01+-') + '/' * (g.num_inputs() - 1))
    c.note(diagram=gens.describe(g))
    m = refsem.graph_matrix(g)
    s = gens.snapshot(g)
    if abs(m).max() < 1e-6:
        raise Skip()
    v = is_unitary(g)
    c.check(gens.snapshot(g) == s, 'is_unitary changed the diagram', key='is_unitary changes')
    # the maps G^dagger G agree with a multiple of the identity on the inputs
    p = m.conj().T @ m
    want = refsem.close(p / p[0, 0], np.eye(len(p)), 1e-7) if abs(p[0, 0]) > 1e-9 else False
    c.check(bool(v) == want if m.shape[0] == m.shape[1] else (not v or want), 'is_unitary answered %s, %s expected' % (v, want), key='is_unitary')
    c.sig((s, bool(v)))


from props import c18p  # noqa: E402
c18p.register(S)
