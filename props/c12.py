"""C12: printing a circuit and parsing the text back is lossless; parsing denotes the standard meaning; malformed text is rejected."""
import cmath, math, os, re, tempfile
from fractions import Fraction
import numpy as np
from lib.harness import Suite, Skip
from lib import gens, refsem

S = Suite('C12', 'exploration',
          note='Contract: parse(print(c)) denotes the unitary of c up to a global phase on the same number of qubits, angles kept exactly; a parser maps standard text to its standard '
               'meaning or raises; text outside the format raises.',
          rule='bounded part: random circuits, random programs in each format evaluated by an independent interpreter, random angle expressions, random malformed programs')

REJECT = (TypeError, ValueError, KeyError, IndexError, ZeroDivisionError)


def matrix(c):
    return gens.circuit_matrix(c)


def angle(rng):
    r = rng.random()
    if r < 0.5:
        return Fraction(rng.randrange(-8, 9), 4)
    if r < 0.8:
        return Fraction(rng.randrange(-40, 40), rng.randrange(1, 20))
    d = rng.randrange(1, 10 ** 6)
    return Fraction(rng.randrange(-2 * d, 2 * d), d)


def circuit(rng, gates):
    from pyzx.circuit import Circuit, gates as G
    n = rng.randint(1, 3)
    c = Circuit(n)
    for _ in range(rng.randint(0, 8)):
        g = gens.rand_gate(rng, n, gates)
        if rng.random() < 0.4 and hasattr(g, 'phase') and type(g).__name__ in ('ZPhase', 'XPhase', 'YPhase', 'CRX', 'CRY', 'CRZ', 'CPhase', 'RXX', 'RZZ', 'ParityPhase'):
            g.phase = angle(rng)
        c.add_gate(g)
    return c


QC_GATES = [g for g in gens.GATES_ALL if g[0] not in ('FSim',)]


def roundtrip(c, circ, text, parsed, what):
    c.check(parsed.qubits == circ.qubits, '%s: %d qubits became %d\n%s' % (what, circ.qubits, parsed.qubits, text), key=what + ' qubits')
    c.check(refsem.close_up_to_phase(matrix(circ), matrix(parsed)), '%s: parsing the printed text gives another unitary\n%s' % (what, text), key=what + ' unitary')


@S.bounded('print and parse every format', quick=5000, thorough=60000, split=4, bound='circuits of up to 3 qubits and 8 gates over the whole gate set',
           functions=['Circuit.to_qasm', 'Circuit.to_qc', 'Circuit.to_quipper', 'Gate.to_qasm', 'Gate.to_qc', 'Gate.to_quipper', 'QASMParser.parse', 'parse_qc', 'parse_quipper_block'])
def _(c):
    from pyzx.circuit import Circuit
    fmt = c.rng.choice(['qasm2', 'qasm3', 'qc', 'quipper'])
    gates = gens.GATES_ALL
    if c.rng.random() < 0.3:
        gates = [c.rng.choice(gates), ('HAD', 1)]
    elif fmt in ('qc',) and c.rng.random() < 0.7:
        gates = [g for g in gates if g[0] not in gens.NPAR and g[0] not in ('FSim', 'ParityPhase')] + [('ZPhase', 1)]
    circ = circuit(c.rng, gates)
    if fmt == 'qc' and c.rng.random() < 0.9:
        for g in circ.gates:
            if hasattr(g, 'phase') and type(g).__name__ in ('ZPhase', 'XPhase'):
                g.phase = Fraction(c.rng.randrange(0, 8), 4)
    c.note(circuit=str(circ.gates), qubits=circ.qubits, format=fmt)
    snap = gens.gates_snapshot(circ)
    try:
        text = circ.to_qasm(2) if fmt == 'qasm2' else circ.to_qasm(3) if fmt == 'qasm3' else circ.to_qc() if fmt == 'qc' else circ.to_quipper()
    except TypeError:
        raise Skip()
    c.check(gens.gates_snapshot(circ) == snap, 'printing changed the circuit', key=fmt + ' mutates')
    c.note(text=text)
    c.sig((fmt, text))
    p = {'qasm2': Circuit.from_qasm, 'qasm3': Circuit.from_qasm, 'qc': Circuit.from_qc, 'quipper': Circuit.from_quipper}[fmt](text)
    roundtrip(c, circ, text, p, fmt)


BIG = [g for g in gens.GATES_ALL if g[0] not in ('FSim',)]


@S.bounded('wide and long circuits survive printing', quick=120, thorough=2000, split=4, bound='circuits of 9 to 40 qubits and 30 to 150 gates over the gates each format has',
           functions=['Circuit.to_qasm', 'Circuit.to_qc', 'Circuit.to_quipper', 'QASMParser.parse', 'parse_qc', 'parse_quipper_block'])
def _(c):
    """too wide for a matrix: the gates must come back as they are, or denote the same small unitaries on the same qubits"""
    from pyzx.circuit import Circuit
    rng = c.rng
    n = rng.randint(9, 40)
    fmt = rng.choice(['qasm2', 'qasm3', 'qc', 'quipper'])
    pool = {'qasm2': [g for g in BIG if g[0] != 'ParityPhase'], 'qasm3': [g for g in BIG if g[0] != 'ParityPhase'],
            'qc': [(k, a) for k, a in BIG if k in ('HAD', 'NOT', 'S', 'T', 'Z', 'CNOT', 'CZ', 'TOF', 'CCZ')], 'quipper': [(k, a) for k, a in BIG if k in ('HAD', 'NOT', 'ZPhase', 'XPhase', 'S', 'T', 'Z', 'CNOT', 'CZ', 'TOF', 'CCZ')]}[fmt]
    circ = Circuit(n)
    for _ in range(rng.randint(30, 150)):
        circ.add_gate(gens.rand_gate(rng, n, pool))
    c.note(circuit=str(circ.gates), qubits=n, format=fmt)
    try:
        text = circ.to_qasm(int(fmt[-1])) if fmt[0:4] == 'qasm' else circ.to_qc() if fmt == 'qc' else circ.to_quipper()
    except TypeError:
        raise Skip()
    c.sig((fmt, text))
    p = {'qasm2': Circuit.from_qasm, 'qasm3': Circuit.from_qasm, 'qc': Circuit.from_qc, 'quipper': Circuit.from_quipper}[fmt](text)
    c.check(p.qubits == n, '%s: %d qubits became %d' % (fmt, n, p.qubits), key=fmt + ' qubits')
    # gate by gate: a gate printed as k gates comes back as k gates with the same product
    i = 0
    for g in circ.gates:
        u, qs = gens.gate_unitary(g)
        m = None
        for k in range(1, 6):
            if i + k > len(p.gates):
                break
            sub = [(gens.gate_unitary(h)) for h in p.gates[i:i + k]]
            used = {q for _, q2 in sub for q in q2}
            if not used <= set(qs):
                break
            m = np.eye(2 ** len(qs), dtype=complex)
            for v, q2 in sub:
                m = gens.apply(v, [list(qs).index(q) for q in q2], len(qs)) @ m
            if refsem.close_up_to_phase(u, m):
                i += k
                break
        else:
            k = 6
        c.check(m is not None and refsem.close_up_to_phase(u, m), '%s: gate %r comes back as %r' % (fmt, g, p.gates[i:i + 3]), key=fmt + ' gate in a wide circuit')
    c.check(i == len(p.gates), '%s: gates were added' % fmt, key=fmt + ' extra gates')


@S.bounded('angles survive exactly', quick=5000, thorough=60000, split=4, bound='rational multiples of pi with denominators up to 10^6 in every one-gate circuit with an angle',
           functions=['Gate.to_qasm', 'ZPhase.to_quipper', 'XPhase.to_quipper', 'QASMParser.parse_phase_arg', 'parse_quipper_block'])
def _(c):
    from pyzx.circuit import Circuit, gates as G
    name = c.rng.choice(['ZPhase', 'XPhase', 'YPhase', 'CRX', 'CRY', 'CRZ', 'CPhase', 'RXX', 'RZZ', 'U2', 'U3', 'CU3', 'CU'])
    two = name[0] in 'CR'
    ps = [angle(c.rng) for _ in range(gens.NPAR[name])]
    g = G.gate_types[name](*([0, 1] if two else [0]), *ps)
    circ = Circuit(2)
    circ.add_gate(g)
    fmts = ['qasm2', 'qasm3'] + (['quipper'] * 2 if name in ('ZPhase', 'XPhase') else [])
    fmt = c.rng.choice(fmts)
    text = circ.to_quipper() if fmt == 'quipper' else circ.to_qasm(int(fmt[-1]))
    c.note(gate=name, angles=list(map(str, ps)), text=text)
    c.sig((name, ps, fmt))
    p = Circuit.from_quipper(text) if fmt == 'quipper' else Circuit.from_qasm(text)
    h = p.gates[0]
    c.check(len(p.gates) == 1 and type(h) is type(g), '%s: gate %r became %r' % (fmt, g, p.gates), key=fmt + ' gate')
    qs = [h.phase] if hasattr(h, 'phase') else h.phases
    c.check(all(Fraction(a) == b for a, b in zip(ps, qs)), '%s: angles %s became %s' % (fmt, ps, qs), key=fmt + ' angle')


# ------------------------------------------------------------ standard programs
U1 = {}


def std(name, ps):
    """defining matrix of a standard gate name (qelib1 / stdgates), independent of the code"""
    ex = lambda x: cmath.exp(1j * x)
    I2 = np.eye(2)
    X = np.array([[0, 1], [1, 0]], dtype=complex)
    Y = np.array([[0, -1j], [1j, 0]])
    Z = np.diag([1, -1]).astype(complex)
    H = (X + Z) / math.sqrt(2)

    def rot(P, t):
        return math.cos(t / 2) * np.eye(P.shape[0]) - 1j * math.sin(t / 2) * P

    def u3(t, p, l):
        return np.array([[math.cos(t / 2), -ex(l) * math.sin(t / 2)], [ex(p) * math.sin(t / 2), ex(p + l) * math.cos(t / 2)]])

    def ctl(u):
        r = np.eye(2 * u.shape[0], dtype=complex)
        r[u.shape[0]:, u.shape[0]:] = u
        return r
    SX = np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2
    SW = np.eye(4)[[0, 2, 1, 3]]
    t = dict(x=X, y=Y, z=Z, h=H, s=np.diag([1, 1j]), sdg=np.diag([1, -1j]), t=np.diag([1, ex(math.pi / 4)]), tdg=np.diag([1, ex(-math.pi / 4)]), sx=SX, sxdg=SX.conj().T,
             cx=ctl(X), CX=ctl(X), cy=ctl(Y), cz=ctl(Z), ch=ctl(H), csx=ctl(SX), swap=SW, ccx=ctl(ctl(X)), ccz=ctl(ctl(Z)), cswap=ctl(SW), id=I2)
    if name in t:
        return t[name]
    if name in ('rx', 'ry', 'rz'):
        return rot(dict(rx=X, ry=Y, rz=Z)[name], ps[0])
    if name in ('p', 'u1'):
        return np.diag([1, ex(ps[0])])
    if name in ('crx', 'cry', 'crz'):
        return ctl(rot(dict(crx=X, cry=Y, crz=Z)[name], ps[0]))
    if name in ('cp', 'cphase', 'cu1'):
        return ctl(np.diag([1, ex(ps[0])]))
    if name == 'rxx':
        return rot(np.kron(X, X), ps[0])
    if name == 'rzz':
        return rot(np.kron(Z, Z), ps[0])
    if name == 'u2':
        return u3(math.pi / 2, ps[0], ps[1])
    if name in ('u3', 'u', 'U'):
        return u3(*ps)
    if name == 'cu3':
        # qelib1 cu3 is the controlled u3 with determinant-normalised phase only up to a phase on the control: its body multiplies out to ctl(u3)
        return ctl(u3(*ps))
    if name == 'cu':
        return ctl(ex(ps[3]) * u3(*ps[:3]))
    raise KeyError(name)


ARITY = {1: ['x', 'y', 'z', 'h', 's', 'sdg', 't', 'tdg', 'sx', 'sxdg', 'id'], 2: ['cx', 'CX', 'cy', 'cz', 'ch', 'csx', 'swap'], 3: ['ccx', 'ccz', 'cswap']}
PARAM = {1: [('rx', 1), ('ry', 1), ('rz', 1), ('p', 1), ('u1', 1), ('u2', 2), ('u3', 3), ('u', 3), ('U', 3)],
         2: [('crx', 1), ('cry', 1), ('crz', 1), ('cp', 1), ('cu1', 1), ('cphase', 1), ('rxx', 1), ('rzz', 1), ('cu3', 3), ('cu', 4)]}


def ang_text(rng):
    """a plain angle expression and its value"""
    n, d = rng.randrange(1, 20), rng.choice([1, 2, 3, 4, 5, 8, 16, 100])
    sg = rng.choice(['', '', '-'])
    s = -1 if sg else 1
    k = rng.randrange(9)
    sp = rng.choice(['', ' '])
    if k == 0:
        return sg + 'pi', s * math.pi
    if k == 1:
        return '%spi%s/%s%d' % (sg, sp, sp, d), s * math.pi / d
    if k == 2:
        return '%s%d%s*%spi%s/%s%d' % (sg, n, sp, sp, sp, sp, d), s * n * math.pi / d
    if k == 3:
        return '%s%d*pi' % (sg, n), s * n * math.pi
    if k == 4:
        f = rng.uniform(-3, 3)
        return '%r' % f, f
    if k == 5:
        f = rng.uniform(-2, 2)
        return '%r*pi' % f, f * math.pi
    if k == 6:
        return '0', 0.0
    if k == 7:
        return '%s%d/%d%s*%spi' % (sg, n, d, sp, sp), s * n * math.pi / d
    return '%spi*%d' % (sg, n), s * n * math.pi


class Prog:
    def __init__(self, n):
        self.U = np.eye(2 ** n, dtype=complex)
        self.n = n

    def do(self, m, qs):
        self.U = gens.apply(m, qs, self.n) @ self.U


def gate_call(rng, nq, ang=ang_text):
    k = rng.choice([j for j in (1, 1, 1, 2, 2, 3) if j <= nq])
    if k < 3 and rng.random() < 0.45:
        name, m = rng.choice(PARAM[k])
        a = [ang(rng) for _ in range(m)]
        return name + '(' + rng.choice([',', ', ']).join(x[0] for x in a) + ')', std(name, [x[1] for x in a]), k
    name = rng.choice(ARITY[k])
    return name, std(name, []), k


def qasm_program(rng):
    v = rng.choice([2, 2, 3])
    regs, n = [], 0
    names = rng.sample(['q', 'r', 'anc', 'x1', 'gate_a', 'measured', 'pi2', 'Q'], rng.randint(1, 2))
    lines = ['OPENQASM %s;' % ('2.0' if v == 2 else rng.choice(['3', '3.0'])), 'include "%s";' % ('qelib1.inc' if v == 2 else 'stdgates.inc')]
    if rng.random() < 0.2:
        lines.insert(0, '// a comment')
    for nm in names:
        k = rng.randint(1, 2)
        regs.append((nm, n, k))
        n += k
        lines.append(('qreg %s[%d];' % (nm, k)) if v == 2 or rng.random() < 0.2 else 'qubit[%d] %s;' % (k, nm))
    customs = {}
    for cn in rng.sample(['foo', 'mygate', 'bar2'], rng.randint(0, 2)):
        k = rng.randint(1, 2)
        formal = rng.sample(['a', 'b', 'c', 'q'], k)
        P = Prog(k)
        body = []
        for _ in range(rng.randint(1, 3)):
            opts = [o for o in customs if customs[o][1] <= k]
            if opts and rng.random() < 0.3:
                o = rng.choice(opts)
                m, kk = customs[o]
                t = o
            else:
                t, m, kk = gate_call(rng, k)
            qs = rng.sample(range(k), kk)
            P.do(m, qs)
            body.append('%s %s;' % (t, rng.choice([',', ', ']).join(formal[i] for i in qs)))
        sep = rng.choice([' ', '\n  '])
        lines.append('gate %s %s%s{%s%s%s}' % (cn + rng.choice(['', '()']), ','.join(formal), rng.choice([' ', '']), sep, sep.join(body), sep))
        customs[cn] = (P.U, k)
    P = Prog(n)
    if rng.random() < 0.5:
        lines.append('creg c[2];' if v == 2 else 'bit[2] c;')
    for _ in range(rng.randint(0, 6)):
        if rng.random() < 0.1:
            lines.append(rng.choice(['barrier %s;' % regs[0][0], '// x %s[0];' % regs[0][0], 'id %s[0];' % regs[0][0], '']))
            continue
        if customs and rng.random() < 0.35:
            t = rng.choice(sorted(customs))
            m, k = customs[t]
        else:
            t, m, k = gate_call(rng, n)
        if k > n:
            continue
        if rng.random() < 0.2:
            # broadcast over a register
            nm, off, size = rng.choice(regs)
            free = [(a, o + i) for a, o, s in regs for i in range(s) if a != nm]
            pool = [o for o in regs if o[2] == size]
            if k == 1:
                lines.append('%s %s;' % (t, nm))
                for i in range(size):
                    P.do(m, [off + i])
                continue
            if k == 2 and free:
                first = rng.random() < 0.5
                if len(pool) > 1 and rng.random() < 0.5:
                    other = rng.choice([o for o in pool if o[0] != nm])
                    lines.append('%s %s, %s;' % (t, nm, other[0]))
                    for i in range(size):
                        P.do(m, [off + i, other[1] + i])
                else:
                    a, o = rng.choice(free)
                    base = [b for b in regs if b[0] == a][0][1]
                    one = '%s[%d]' % (a, o - base)
                    lines.append('%s %s;' % (t, ','.join([one, nm] if first else [nm, one])))
                    for i in range(size):
                        P.do(m, [o, off + i] if first else [off + i, o])
                continue
        qs = rng.sample(range(n), k)
        def ref(i):
            for nm, off, size in regs:
                if off <= i < off + size:
                    return '%s[%d]' % (nm, i - off)
        stmt = '%s %s;' % (t, rng.choice([',', ', ']).join(ref(i) for i in qs))
        if rng.random() < 0.1 and lines[-1].endswith(';') and not lines[-1].startswith('//') and len(lines) > 3:
            lines[-1] += ' ' + stmt
        else:
            lines.append(stmt + rng.choice(['', '', ' // c']))
        P.do(m, qs)
    if rng.random() < 0.3 and any(l.startswith(('creg', 'bit')) for l in lines):
        lines.append('measure %s[0] -> c[0];' % regs[0][0] if v == 2 else 'c[0] = measure %s[0];' % regs[0][0])
    return '\n'.join(lines) + '\n', P.U, n


@S.bounded('QASM programs have their standard meaning', quick=5000, thorough=60000, split=4, bound='programs over one or two registers of at most 4 qubits, custom gates, broadcasts, QASM 2 and 3',
           functions=['QASMParser.parse', 'QASMParser.parse_custom_gate', 'QASMParser.extract_command_parts', 'QASMParser.parse_command', 'Circuit.from_qasm', 'qasm', 'Circuit.from_qasm_file'])
def _(c):
    from pyzx.circuit import Circuit
    from pyzx.circuit.qasmparser import qasm
    text, U, n = qasm_program(c.rng)
    c.note(text=text)
    c.sig(text)
    how = c.rng.random()
    if how < 0.8:
        p = Circuit.from_qasm(text)
    elif how < 0.9:
        p = qasm(text)
    else:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'x.qasm')
            open(f, 'w').write(text)
            p = Circuit.from_qasm_file(f) if how < 0.95 else Circuit.load(f)
    c.check(p.qubits == n, 'program on %d qubits parsed to %d' % (n, p.qubits), key='qasm program qubits')
    c.check(refsem.close_up_to_phase(U, matrix(p)), 'parsed program denotes another unitary', key='qasm program')


def rand_expr(rng, d=0):
    """random arithmetic over pi: (text, value)"""
    r = rng.random()
    if d > 2 or r < 0.45:
        k = rng.randrange(5)
        if k < 2:
            return 'pi', math.pi
        if k == 2:
            n = rng.randrange(0, 12)
            return str(n), float(n)
        if k == 3:
            f = rng.choice(['0.5', '.25', '1e-1', '2.', '1.5E1'])
            return f, float(f)
        return 'pi/%d' % 4, math.pi / 4
    a, va = rand_expr(rng, d + 1)
    b, vb = rand_expr(rng, d + 1)
    if r < 0.55:
        return '-' + a, None
    if r < 0.62:
        return '(' + a + ')', va
    op = rng.choice('+-**//')
    return a + rng.choice(['', ' ']) + op + rng.choice(['', ' ']) + b, None


@S.bounded('angle expressions are read correctly or rejected', quick=12000, thorough=150000, split=4, bound='random expressions of up to 8 atoms over numbers, pi and + - * / ( )',
           functions=['QASMParser.parse_phase_arg'])
def _(c):
    import ast
    from pyzx.circuit import Circuit
    e = rand_expr(c.rng)[0] if c.rng.random() < 0.6 else ang_text(c.rng)[0]
    if c.rng.random() < 0.1:
        i = c.rng.randrange(len(e) + 1)
        e = e[:i] + c.rng.choice(list('0123.*/+-pi ') + ['pi', 'tau']) + e[i:]
    e = re.sub(r'(?<![\w.])0+(\d)', r'\1', e)
    if '(' in e or ')' in e:
        e = e.replace('(', '').replace(')', '')
    try:
        val = eval(compile(ast.parse(re.sub(r'((?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)\s*pi', r'\1*pi', e.strip(), flags=0), mode='eval'), '', 'eval'), {'__builtins__': {}, 'pi': math.pi})
        val = None if not isinstance(val, (int, float)) else val
    except (SyntaxError, NameError, ZeroDivisionError, TypeError, AttributeError, OverflowError):
        val = None
    c.note(expression=e, value=val)
    c.sig(e)
    try:
        p = Circuit.from_qasm('OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[1];\nrz(%s) q[0];\n' % e)
    except REJECT + (OverflowError,):
        return
    g = p.gates[0]
    c.check(val is not None, 'malformed angle %r was read as %s*pi' % (e, g.phase), key='malformed angle accepted')
    c.check(abs(float(g.phase) * math.pi - val) < 1e-6 * max(1, abs(val)), 'angle %r = %s was read as %s*pi' % (e, val, g.phase), key='angle misread')


PLAIN = ['pi', '-pi', 'pi/2', '-pi/4', '3*pi/4', '-3*pi/4', '0.25*pi', '-0.25*pi', '0', '1.5', '-1.5', '3pi/4', 'pi/8', '2*pi', '1e-3']


@S.bounded('standard angle forms are accepted', quick=60, thorough=60, bound='15 fixed forms by 4 gates', functions=['QASMParser.parse_phase_arg'], exhaustive=True)
def _(c):
    from pyzx.circuit import Circuit
    e = PLAIN[c.i % 15]
    gate = ['rz', 'rx', 'ry', 'p'][c.i // 15]
    c.note(expression=e, gate=gate)
    c.sig((e, gate))
    p = Circuit.from_qasm('OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[1];\n%s(%s) q[0];\n' % (gate, e))
    v = eval(e.replace('3pi', '3*pi'), {'pi': math.pi})
    c.check(abs(float(p.gates[0].phase) * math.pi - v) < 1e-6, 'angle %s read as %s' % (e, p.gates[0].phase), key='plain angle')


BAD = ['x q[5];', 'x r[0];', 'x q[-1];', 'cx q[0],q[0];', 'cx q[0];', 'x q[0],q[1];', 'ccx q[0],q[1],q[1];', 'rz q[0];', 'rz() q[0];', 'rz(pi,pi) q[0];', 'foo q[0];', 'x(pi) q[0];', 'u3(pi,pi) q[0];',
       'cx q[0],q[1],q[2];', 'x q[a];', 'if (c==1) x q[0];', 'reset q[0];', 'opaque g a;', 'swap q[1],q[1];', 'crz(pi/4) q[2],q[2];', 'cu(pi,pi,pi) q[0],q[1];', 'cx q,q;', 'x q[3];',
       'qreg q[2];', 'gate g(t) a {rz(t) a;}', 'gate g a,a {x a;}', 'gate g a {x b;}', 'gate g a {x a;} g q[0],q[1];', 'gate g a,b {cx a,b;} g q[0],q[0];', 'rzz(pi) q[0],q[0];', 'x q[0', 'rz(pi q[0];',
       'rz(tau) q[0];', 'h', 'measure', 'cswap q[0],q[1],q[0];', 'x q[1.5];', 'h q[];', 'cx q[0] q[1];', 'inv @ x q[0];', 'ctrl @ x q[0],q[1];', 'u2(pi) q[0];', 'cy q[0],q[1],q[1];']


@S.bounded('malformed QASM is rejected', quick=2 * len(BAD), thorough=2 * len(BAD), bound='a fixed list of %d ill-formed statements in QASM 2 and 3' % len(BAD), exhaustive=True,
           functions=['QASMParser.parse_command', 'QASMParser.parse', 'QASMParser.parse_custom_gate'])
def _(c):
    from pyzx.circuit import Circuit
    s = BAD[c.i // 2]
    text = ('OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[3];\n' if c.i % 2 else 'OPENQASM 3;\ninclude "stdgates.inc";\nqubit[3] q;\n') + s + '\n'
    c.note(text=text)
    c.sig(text)
    try:
        p = Circuit.from_qasm(text)
    except REJECT:
        return
    if s == 'measure':
        return
    c.check(False, 'malformed statement %r was accepted as %s' % (s, p.gates), key='malformed accepted: ' + s)


@S.bounded('.qc programs have their standard meaning', quick=2500, thorough=40000, split=4, bound='up to 5 named qubits, up to 8 gates, Toffolis with up to 4 controls',
           functions=['parse_qc', 'Circuit.from_qc'])
def _(c):
    from pyzx.circuit import Circuit
    rng = c.rng
    n = rng.randint(1, 5)
    names = rng.sample(['a', 'b', 'c1', 'q0', 'q7', 'X', 'x', 'anc', '1', '2'], n)
    lines = ['.v ' + rng.choice([' ', ',', ', ']).join(names)]
    if rng.random() < 0.5:
        lines.append('.i ' + ' '.join(names[:rng.randint(1, n)]))
    if rng.random() < 0.3:
        lines.append('.o ' + ' '.join(names))
    if rng.random() < 0.2:
        lines.insert(0, '# comment')
    lines += ['', 'BEGIN']
    P = Prog(n)
    X = std('x', [])
    big = False
    one = dict(x='x', not_='x', tof='x', t1='x', z='z', s='s', p='s', t='t', h='h', y='y')
    for _ in range(rng.randint(0, 8)):
        k = rng.choice([j for j in (1, 1, 1, 2, 2, 3, 4, 5) if j <= n])
        qs = rng.sample(range(n), k)
        if k == 1:
            nm = rng.choice(['x', 'not', 'tof', 't1', 'z', 's', 'p', 't', 'h', 's*', 'p*', 't*', 'y'])
            base = {'not': 'x', 'tof': 'x', 't1': 'x', 'p': 's', 's*': 'sdg', 'p*': 'sdg', 't*': 'tdg'}.get(nm, nm)
            m = std(base, [])
        elif k == 2:
            nm = rng.choice(['cnot', 'tof', 't2', 'cz', 'z', 'swap'])
            m = std({'cnot': 'cx', 'tof': 'cx', 't2': 'cx', 'cz': 'cz', 'z': 'cz', 'swap': 'swap'}[nm], [])
        elif k == 3:
            nm = rng.choice(['tof', 't3', 'z', 'ccz'])
            m = std({'tof': 'ccx', 't3': 'ccx', 'z': 'ccz', 'ccz': 'ccz'}[nm], [])
        else:
            nm = rng.choice(['tof', 't%d' % k])
            m = np.eye(2 ** k, dtype=complex)
            m[-2:, -2:] = X
            big = max(big, k - 3)
        P.do(m, qs)
        nm = rng.choice([nm, nm.upper(), nm.capitalize()])
        lines.append('%s %s' % (nm, rng.choice([' ', ',', ', ']).join(names[i] for i in qs)))
        if rng.random() < 0.05:
            lines.append('# tof a b')
    lines.append('END')
    text = '\n'.join(lines) + '\n'
    c.note(text=text)
    c.sig(text)
    p = Circuit.from_qc(text)
    anc = int(big)
    c.check(p.qubits == n + anc, '%d qubits instead of %d' % (p.qubits, n + anc), key='qc program qubits')
    M = matrix(p)
    if anc:
        # ancillas start and end in the zero state
        d = 2 ** anc
        c.check(np.allclose(np.delete(M.reshape(2 ** n, d, 2 ** n, d)[:, :, :, 0], 0, axis=1), 0), 'ancillas are not returned to zero', key='qc ancillas')
        M = M.reshape(2 ** n, d, 2 ** n, d)[:, 0, :, 0]
    c.check(refsem.close_up_to_phase(P.U, M), 'parsed .qc program denotes another unitary', key='qc program')


@S.bounded('Quipper programs have their standard meaning or are rejected', quick=2500, thorough=40000, split=4, bound='up to 4 qubits, up to 8 gates', functions=['parse_quipper_block', 'Circuit.from_quipper'])
def _(c):
    from pyzx.circuit import Circuit
    rng = c.rng
    n = rng.randint(1, 4)
    P = Prog(n)
    lines = ['Inputs: ' + ', '.join('%d:Qbit' % i for i in range(n))]
    tricky = False
    ctl = lambda u: np.block([[np.eye(u.shape[0]), np.zeros(u.shape)], [np.zeros(u.shape), u]])
    base = {'not': 'x', 'X': 'x', 'H': 'h', 'Z': 'z', 'S': 's', 'T': 't', 'Y': 'y'}
    for _ in range(rng.randint(0, 8)):
        if rng.random() < 0.25:
            ax = rng.choice('XZ')
            t = rng.uniform(-3, 3)
            q = rng.randrange(n)
            lines.append('QRot["exp(-i%%%s)",%r](%d)' % (ax, t, q) + rng.choice(['', ' with nocontrol']))
            P.do(std('r' + ax.lower(), [2 * t]), [q])
            continue
        if rng.random() < 0.05:
            lines.append('Comment["hello"](0:"q")')
            continue
        k = rng.choice([j for j in (0, 0, 0, 1, 1, 2) if j < n])
        nm = rng.choice(list(base) if rng.random() < 0.3 else ['not', 'H', 'Z', 'S', 'T'] if k == 0 else ['not', 'Z'])
        adj = rng.random() < 0.3
        m = std(base[nm], [])
        if adj:
            m = m.conj().T
        qs = rng.sample(range(n), k + 1)
        sg = [rng.choice('++-') for _ in range(k)]
        for s, q in zip(sg, qs):
            if s == '-':
                P.do(std('x', []), [q])
        for _ in range(k):
            m = ctl(m)
        P.do(m, qs)
        for s, q in zip(sg, qs):
            if s == '-':
                P.do(std('x', []), [q])
        l = 'QGate["%s"]%s(%d)' % (nm, '*' if adj else '', qs[-1])
        if k:
            l += ' with controls=[%s]' % ', '.join('%s%d' % (s, q) for s, q in zip(sg, qs))
        lines.append(l + rng.choice(['', ' with nocontrol']))
    lines.append(lines[0].replace('Inputs', 'Outputs'))
    text = '\n'.join(lines)
    c.note(text=text)
    c.sig(text)
    try:
        p = Circuit.from_quipper(text)
    except TypeError:
        c.check(any(x in text for x in ('"X"', '"Y"', '[-')) or 'with controls' in text, 'standard Quipper text rejected', key='quipper rejected')
        raise Skip()
    c.check(p.qubits == n, '%d qubits instead of %d' % (p.qubits, n), key='quipper program qubits')
    c.check(refsem.close_up_to_phase(P.U, matrix(p), 1e-6), 'parsed Quipper program denotes another unitary', key='quipper program')


@S.bounded('qsim programs have their standard meaning or are rejected', quick=1500, thorough=15000, split=4, bound='up to 3 qubits, up to 6 gates', functions=['parse_qsim', 'Circuit.from_qsim_file'])
def _(c):
    from pyzx.circuit import Circuit
    from pyzx.circuit.qsimparser import parse_qsim
    rng = c.rng
    n = rng.randint(1, 3)
    P = Prog(n)
    is2 = 1 / math.sqrt(2)
    one = {'x_1_2': np.array([[0.5 + 0.5j, 0.5 - 0.5j], [0.5 - 0.5j, 0.5 + 0.5j]]), 'y_1_2': np.array([[0.5 + 0.5j, -0.5 - 0.5j], [0.5 + 0.5j, 0.5 + 0.5j]]),
           'hz_1_2': np.array([[0.5 + 0.5j, -1j * is2], [is2, 0.5 + 0.5j]]), 'h': std('h', []), 't': std('t', []), 'x': std('x', [])}
    lines = [str(n)]
    known = True
    for i in range(rng.randint(0, 6)):
        r = rng.random()
        if r < 0.25:
            t = rng.uniform(-3, 3)
            q = rng.randrange(n)
            lines.append('%d rz %d %r' % (i, q, t))
            P.do(std('rz', [t]), [q])
        elif r < 0.5 and n > 1:
            a, b = rng.sample(range(n), 2)
            s, f = rng.choice([1, -1]), rng.uniform(-3, 3)
            m = np.zeros((4, 4), dtype=complex)
            m[0, 0], m[1, 2], m[2, 1], m[3, 3] = 1, -1j * s, -1j * s, cmath.exp(-1j * f)
            lines.append('%d fs %d %d %r %r' % (i, a, b, s * math.pi / 2, f))
            P.do(m, [a, b])
        else:
            nm = rng.choice(['x_1_2', 'y_1_2', 'hz_1_2'] * 5 + ['h', 't', 'x'])
            known = known and nm not in ('h', 't', 'x')
            q = rng.randrange(n)
            lines.append('%d %s %d' % (i, nm, q))
            P.do(one[nm], [q])
    text = '\n'.join(lines) + '\n'
    c.note(text=text)
    c.sig(text)
    try:
        p = parse_qsim(text)
    except REJECT + (AssertionError,):
        c.check(not known, 'supported qsim text rejected', key='qsim rejected')
        raise Skip()
    c.check(p.qubits == n and refsem.close_up_to_phase(P.U, matrix(p), 1e-6), 'parsed qsim program denotes another unitary', key='qsim program')


@S.proof('multiply controlled NOT statements', functions=['parse_qc'])
def mcx(P):
    """tof/tk statements with 2..6 controls: the parsed gate list, run on symbolic bits, is target ^= conjunction and returns the (zero) ancillas to zero;
    with two such statements after each other the ancillas are shared"""
    import z3
    from pyzx.circuit import Circuit
    P.under_contract('parse_qc')

    def run(text, n):
        p = Circuit.from_qc(text)
        xs = [z3.Bool('x%d' % i) for i in range(n)]
        st = xs + [z3.BoolVal(False)] * (p.qubits - n)
        for g in p.gates:
            nm = type(g).__name__
            cs = {'Tofolli': ['ctrl1', 'ctrl2'], 'CNOT': ['control'], 'NOT': []}[nm]
            cs = [getattr(g, a) for a in cs]
            if g.target in cs or len(set(cs)) != len(cs):
                return None, 'gate %s acts twice on one qubit' % g
            st[g.target] = z3.Xor(st[g.target], z3.And([st[c] for c in cs]))
        return xs, st

    def ob(texts, n, eff):
        def f():
            try:
                xs, st = run('.v ' + ' '.join('q%d' % i for i in range(n)) + '\n\nBEGIN\n' + '\n'.join(texts) + '\nEND\n', n)
            except Exception as e:
                return False, '%s: %s' % (type(e).__name__, e)
            if xs is None:
                return False, st
            want = list(xs)
            for cs, t in eff:
                want[t] = z3.Xor(want[t], z3.And([want[c] for c in cs]))
            want += [z3.BoolVal(False)] * (len(st) - n)
            s = z3.Solver()
            s.add(z3.Or([a != b for a, b in zip(st, want)]))
            r = s.check()
            return r == z3.unsat, '' if r == z3.unsat else str(s.model())
        ok, why = f()
        P.record(' ; '.join(texts), ok, 'z3', detail=why, replay=lambda: dict(what='%s: not the multiply controlled NOT with clean ancillas: %s' % (texts, why), data=dict(texts=texts, model=why)) if not ok else False)

    for k in range(1, 7):
        ops = ['q%d' % i for i in range(k + 1)]
        for nm in ('tof', 't%d' % (k + 1)):
            ob(['%s %s' % (nm, ' '.join(ops))], k + 1, [(list(range(k)), k)])
            ob(['%s %s' % (nm, ','.join(reversed(ops)))], k + 1, [(list(range(1, k + 1)), 0)])
    for k in range(3, 7):
        ob(['tof q0 q1 q2 q3', 't%d %s' % (k + 1, ' '.join('q%d' % i for i in range(k, -1, -1))), 'tof q0 q1 q2 q3'], max(k + 1, 4), [([0, 1, 2], 3), (list(range(k, 0, -1)), 0), ([0, 1, 2], 3)])
