#!/usr/bin/env python3
"""maintenance tool (never run by a check): lists the fix: commits of /repo and the open findings in known_findings.json"""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # subject prefix -> property
    'adjoints of CSX': 'C03', 'repositioning RZZ': 'C04', 'bialgebra rule': 'C01', 'copy rule': 'C01', 'supplementarity': 'C01', 'R13': 'C01',
    'removing isolated': 'C10', 'scalar of a spider pair': 'C13', 'scalars survive': 'C13', 'reducing symbolic': 'C14', 'printed symbolic': 'C14',
    'to_cnots': 'C07', 'multigraph auto': 'C09', 'multigraph edge names': 'C08', 'self-loops and parallel': 'C09', 'clones keep': 'C10',
    'adjoint conjugates': 'C10', 'composing diagrams': 'C10', 'tensor product': 'C10', 'merging and': 'C10', 'plugging states': 'C10',
    'conjugated Z-box': 'C10', 'edge_set of': 'C02', 'simplification accepts': 'C02', 'Clifford normal form': 'C02', 'to_graph_like': 'C02',
    'a symbolic phase that': 'C14', 'T-count of': 'C04', 'tensoring and splitting': 'C04', 'circuit depth': 'C04', 'measurements compare': 'C04',
    'graph_to_circuit': 'C04', 'gates with different': 'C04'}
extra = os.path.join(here, 'tools', 'fixprops.json')
if os.path.exists(extra):
    PROP.update(json.load(open(extra)))
out = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    s = s[4:].strip()
    p = next((PROP[k] for k in sorted(PROP, key=len, reverse=True) if s.startswith(k)), None)
    assert p, s
    out.append(dict(property=p, fixed=h, key='', what=s, line='fixed: property=%s %s %s' % (p, h, 'wrong before this commit: ' + s)))
openf = os.path.join(here, 'tools', 'open_findings.json')
if os.path.exists(openf):
    out += json.load(open(openf))
json.dump(out, open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
print(len(out))
