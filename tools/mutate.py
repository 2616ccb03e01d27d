"""mutate.py OUT FILES N [SEED] : random single-token mutants of FILES (comma separated, relative to /repo); each is run against the checks of the
properties anchored in the file, survivors against the stable tests.  Works on copies under /tmp; OUT receives one line per mutant."""
import ast, json, os, random, shutil, subprocess, sys

out, files, n = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 0
only = sys.argv[5].split(',') if len(sys.argv) > 5 else None
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    for f in d['anchors']['files']:
        props.setdefault(f, []).append(d['id'])
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Mod: '*', ast.FloorDiv: '*', ast.Div: '*', ast.BitXor: '|', ast.BitOr: '&', ast.BitAnd: '|'}


def sites(src):
    t = ast.parse(src)
    L = src.split('\n')
    off = [0]
    for x in L:
        off.append(off[-1] + len(x.encode()) + 1)
    b = src.encode()
    pos = lambda ln, c: off[ln - 1] + c
    r = []
    ann = set()
    for x in ast.walk(t):
        for fld in ('annotation', 'returns'):
            a = getattr(x, fld, None)
            if a is not None:
                ann |= {id(y) for y in ast.walk(a)}
    skip = set()
    for x in ast.walk(t):
        if isinstance(x, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('print', 'cast', 'TypeVar')):
            skip |= {id(y) for y in ast.walk(x)}
    for x in ast.walk(t):
        if id(x) in ann or id(x) in skip:
            continue
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            a, c = x.left, x.comparators[0]
            s, e = pos(a.end_lineno, a.end_col_offset), pos(c.lineno, c.col_offset)
            seg = b[s:e].decode()
            for k, v in CMP.items():
                if type(x.ops[0]) is k:
                    old = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}[k]
                    r.append((s, e, seg.replace(old, v, 1)))
        elif isinstance(x, ast.BinOp) and type(x.op) in BIN:
            s, e = pos(x.left.end_lineno, x.left.end_col_offset), pos(x.right.lineno, x.right.col_offset)
            seg = b[s:e].decode()
            old = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Mod: '%', ast.FloorDiv: '//', ast.Div: '/', ast.BitXor: '^', ast.BitOr: '|', ast.BitAnd: '&'}[type(x.op)]
            r.append((s, e, seg.replace(old, BIN[type(x.op)], 1)))
        elif isinstance(x, ast.BoolOp):
            a, c = x.values[0], x.values[1]
            s, e = pos(a.end_lineno, a.end_col_offset), pos(c.lineno, c.col_offset)
            seg = b[s:e].decode()
            o, w = ('and', 'or') if isinstance(x.op, ast.And) else ('or', 'and')
            r.append((s, e, seg.replace(o, w, 1)))
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub)):
            s, e = pos(x.lineno, x.col_offset), pos(x.operand.lineno, x.operand.col_offset)
            r.append((s, e, ' ' if isinstance(x.op, ast.Not) else ''))
        elif isinstance(x, ast.Constant) and type(x.value) is int:
            s, e = pos(x.lineno, x.col_offset), pos(x.end_lineno, x.end_col_offset)
            r.append((s, e, str(x.value + 1)))
            if x.value > 0:
                r.append((s, e, str(x.value - 1)))
        elif isinstance(x, ast.Constant) and type(x.value) is bool:
            s, e = pos(x.lineno, x.col_offset), pos(x.end_lineno, x.end_col_offset)
            r.append((s, e, str(not x.value)))
        elif isinstance(x, (ast.Break, ast.Continue)):
            s, e = pos(x.lineno, x.col_offset), pos(x.end_lineno, x.end_col_offset)
            r.append((s, e, 'pass'))
        elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
            s, e = pos(x.lineno, x.col_offset), pos(x.end_lineno, x.end_col_offset)
            r.append((s, e, 'pass'))
        elif isinstance(x, ast.Call) and len(x.args) == 2 and not x.keywords:
            a, c = x.args
            s, e = pos(a.lineno, a.col_offset), pos(c.end_lineno, c.end_col_offset)
            sa = b[s:pos(a.end_lineno, a.end_col_offset)].decode()
            sc = b[pos(c.lineno, c.col_offset):e].decode()
            if sa != sc:
                r.append((s, e, sc + ', ' + sa))
    return [(s, e, w) for s, e, w in sorted(set(r)) if b[s:e].decode() != w]


d = '/tmp/mw_%d' % os.getpid()
shutil.copytree('/repo', d, symlinks=True)
rng = random.Random('%s:%s' % (files, seed))
todo = []
for f in files:
    src = open('/repo/' + f).read()
    for s in sites(src):
        todo.append((f, s))
rng.shuffle(todo)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
try:
    for f, (s, e, w) in todo[:n]:
        src = open('/repo/' + f, 'rb').read()
        new = src[:s] + w.encode() + src[e:]
        line = src[:s].count(b'\n') + 1
        desc = '%s:%d %r -> %r | %s' % (f, line, src[s:e].decode()[:60], w[:60], src.split(b'\n')[line - 1].decode().strip()[:110])
        try:
            compile(new, f, 'exec')
        except SyntaxError:
            continue
        open(d + '/' + f, 'wb').write(new)
        caught = None
        for p in only or props.get(f, []):
            try:
                r = subprocess.run(['python3', 'check.py', p, '--tier', 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                caught = p + ' timeout'
                break
            if r.returncode == 1:
                nof = all('no-failing-input-found' in l for l in r.stdout.splitlines() if l.startswith('VIOLATION'))
                caught = p + (' (no input)' if nof else '')
                break
            if r.returncode != 0:
                caught = p + ' exit %d' % r.returncode
        if caught and 'exit' not in caught:
            res = 'caught ' + caught
        else:
            t = subprocess.run(['bash', '/tmp/mtest.sh', d], capture_output=True, text=True, timeout=600)
            res = ('SURVIVED' if 'missing []' in t.stdout else 'tests-fail') + (' ' + caught if caught else '')
        open(out, 'a').write(res + ' | ' + desc + '\n')
        open(d + '/' + f, 'wb').write(src)
finally:
    shutil.rmtree(d)
