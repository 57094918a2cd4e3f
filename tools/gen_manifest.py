#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules (TECHNIQUE, NOTE) and the list of properties that are not claimed."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from not_applicable import NA
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(f):
        t = ast.parse(open(f).read())
        d = {x.targets[0].id: ast.literal_eval(x.value) for x in t.body
             if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id in ('TECHNIQUE', 'NOTE')}
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': d['TECHNIQUE'], 'level': 'other', 'level_note': d['NOTE']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check for this property is built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.dont_write_bytecode=True; from hz.extract import build_hzx; print(build_hzx())"',
     'checks': checks, 'not_applicable': na,
     'notes': 'All checks read /repo\'s current sources; no hooks are compiled into /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
