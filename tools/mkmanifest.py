#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the property modules that exist"""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = 'contract-based deductive verification: symbolic execution of the real functions, obligations discharged by %s'
checks, na = [], []
for p in props:
    f = os.path.join(here, 'props', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='no check built yet'))
        continue
    src = open(f).read()
    m = re.search(r"S = Suite\(\s*'C\d\d',\s*'(\w+)'", src)
    note = re.search(r"^MANIFEST_NOTE = (?:'''|\"\"\"|'|\")(.*?)(?:'''|\"\"\"|'|\")\s*$", src, re.S | re.M)
    tech = re.search(r"^TECHNIQUE = '(.*?)'\s*$", src, re.M)
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       technique=tech.group(1) if tech else TECH % 'the pyvc ring normaliser and z3; bounded contract checking where labelled',
                       level=m.group(1), level_note=' '.join(note.group(1).split()) if note else 'see DESIGN.md'))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [n['property'] for n in na])
