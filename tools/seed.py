#!/usr/bin/env python3
"""maintenance tool: builds and tries planted bugs on copies of /repo.  seed.py SPEC.py [id...]   SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
seed.py --try [id...]   applies seeded/<id>/patch.diff to a copy of /repo, runs the stable tests, the demo (on both) and the property's quick check;  --fast without the tests"""
import json, os, runpy, subprocess, sys, tempfile
V = '/verif/seeded'
BASE = '76b1045'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seed') + '/repo'
    sh('cp -a /repo %s && git -C %s checkout -q -- .' % (d, d))
    return d


def drop(d):
    assert d.startswith('/tmp/seed')
    sh('rm -rf %s' % os.path.dirname(d))


def stable(d):
    o = os.path.dirname(d)
    t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + d).replace('find /repo ', 'find %s ' % d).replace('/repo/.git', d + '/.git')
    open(o + '/t.sh', 'w').write(t)
    sh('bash %s/t.sh %s/o.json' % (o, o), env=dict(os.environ, PYTHONPATH=d))
    b = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open(o + '/o.json'))
    return [t for t in b['stable'] if t not in r['passed']]


def demo(i, d):
    return sh('bash %s/%s/demo.sh' % (V, i), cwd=d)


def original(d):
    """the patch removes or changes at least one line of the original repository, and no line of a later commit"""
    out = []
    for l in sh('git -C %s diff -U0' % d).stdout.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        if l.startswith('@@'):
            a = l.split()[1][1:].split(',')
            s, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n:
                for x in sh('git -C %s blame -s -L %d,%d HEAD -- %s' % (d, s, s + n - 1, f)).stdout.splitlines():
                    out.append(x.lstrip('^').startswith(BASE[:7]))
    return out


def attempt(i, tests=True):
    meta = json.load(open('%s/%s/meta.json' % (V, i)))
    d = copy()
    try:
        r0 = demo(i, d)
        a = sh('git -C %s apply %s/%s/patch.diff' % (d, V, i))
        if a.returncode:
            print(i, 'PATCH DOES NOT APPLY', a.stderr); return
        orig = original(d)
        miss = stable(d) if tests else []
        r1 = demo(i, d)
        c = sh('cd /verif && python3 check.py %s' % meta['property'], env=dict(os.environ, VERIF_REPO=d))
    finally:
        drop(d)
    v = [l[:150] for l in c.stdout.splitlines() if 'VIOLATION' in l]
    print(i, meta['property'], 'demo %d/%d' % (r0.returncode, r1.returncode), 'original lines', orig, 'tests missing', miss, 'rc=%d' % c.returncode, 'CAUGHT' if v else 'MISSED', v[:2], flush=True)
    if r0.returncode or not r1.returncode:
        print('  BAD DEMO', (r0.stdout + r0.stderr)[-800:])
    if c.returncode not in (0, 1):
        print((c.stdout + c.stderr)[-1500:])


if __name__ == '__main__':
    if sys.argv[1] in ('--try', '--fast'):
        for i in sys.argv[2:] or sorted(os.listdir(V)):
            attempt(i, sys.argv[1] == '--try')
    else:
        for s in runpy.run_path(sys.argv[1])['SEEDS']:
            if sys.argv[2:] and s['id'] not in sys.argv[2:]:
                continue
            d = copy()
            ok = True
            for f, old, new in s['edits']:
                t = open(d + '/' + f).read()
                if t.count(old) != 1:
                    print(s['id'], 'edit matches', t.count(old), 'times in', f); ok = False; break
                open(d + '/' + f, 'w').write(t.replace(old, new))
            if ok:
                w = os.path.join(V, s['id'])
                os.makedirs(w, exist_ok=True)
                open(w + '/patch.diff', 'w').write(sh('git -C %s diff' % d).stdout)
                open(w + '/demo.py', 'w').write(s['demo'].lstrip())
                open(w + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
                json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(w + '/meta.json', 'w'), indent=1)
            drop(d)
            if ok:
                attempt(s['id'])
