"""writes TASKS.md: every task of every suite, with the functions it puts under contract or drives and its bound"""
import glob, importlib, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get('VERIF_REPO', '/repo')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
out = ['# Tasks of every check', '', '(generated by tools/tasks.py)', '']
for i in range(1, 25):
    S = importlib.import_module('props.c%02d' % i).S
    out += ['## C%02d (level %s)' % (i, S.level), '', S.note, '']
    for k, title in (('proof', 'Proved (obligations, all inputs):'), ('bounded', 'Bounded:')):
        ts = [t for t in S.tasks if t.kind == k]
        if ts:
            out += [title, '']
        for t in ts:
            fs = ', '.join(sorted(set(t.functions)))
            out.append('- %s%s%s' % (t.name, (' -- ' + fs) if fs else '', ('; %d cases quick, %d thorough; bound: %s' % (t.n['quick'], t.n['thorough'], t.bound)) if k == 'bounded' else ''))
        if ts:
            out.append('')
    if S.trusted:
        out += ['Trusted: ' + '; '.join(S.trusted), '']
    if S.assumptions:
        out += ['Assumptions: ' + '; '.join(S.assumptions), '']
open(V + '/TASKS.md', 'w').write('\n'.join(out) + '\n')
