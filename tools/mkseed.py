#!/usr/bin/env python3
"""Creates seeded/<id>/ from a description on stdin:
   id: / property: / kind: / needs: / breaks: lines, then edits (@file, old, =====, new, separated by #####), then DEMO and the demo's body.
   kind names tools/seedlib/<kind>_demo.{sh,h}; the demo is demo.cpp (or demo.sh itself for kind 'sh')."""
import os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.stdin.read().split('\n%%%%\n'):
    head, demo = spec.split('\nDEMO\n', 1)
    lines = head.strip('\n').split('\n')
    h = {}
    while lines and not lines[0].startswith('@'):
        k, v = lines.pop(0).split(':', 1)
        h[k.strip()] = v.strip()
    d = os.path.join(V, 'seeded', h['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = '/tmp/mkseed-%d' % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    ok = True
    for b in '\n'.join(lines).split('\n#####\n'):
        b = b.lstrip('\n')
        f, rest = b.split('\n', 1)
        old, new = (rest + '\n').split('\n=====\n')
        new = new.rstrip('\n')
        p = os.path.join(w, f[1:])
        s = open(p).read()
        if s.count(old) != 1:
            print(h['id'], 'pattern occurs', s.count(old), 'times in', f); ok = False; continue
        # every replaced line must be original
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
    # which removed lines come from later commits?
    removed = [l[1:] for l in r.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
    for f in {x[6:] for x in r.split('\n') if x.startswith('--- a/')}:
        base = subprocess.run(['git', 'show', '03949f8:' + f], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.split('\n')
        for l in removed:
            if l not in base: print(h['id'], 'line is not original (in %s): %s' % (f, l))
    shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(r)
    json.dump({'property': h['property'], 'needs': h['needs'], 'what_it_breaks': h['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    k = h['kind']
    lib = os.path.join(V, 'tools', 'seedlib')
    if k == 'sh':
        open(d + '/demo.sh', 'w').write(demo)
        if '$d/shim' in demo: shutil.copytree(os.path.join(V, 'shim'), d + '/shim')
    else:
        shutil.copy(os.path.join(lib, k + '_demo.sh'), d + '/demo.sh')
        if os.path.exists(os.path.join(lib, k + '_demo.h')):
            shutil.copy(os.path.join(lib, k + '_demo.h'), d + '/%s_demo.h' % k)
            demo = '#include "%s_demo.h"\n\n' % k + demo
        open(d + '/demo.cpp', 'w').write(demo)
        if '/shim' in open(d + '/demo.sh').read():
            shutil.copytree(os.path.join(V, 'shim'), d + '/shim')
    os.chmod(d + '/demo.sh', 0o755)
    print(h['id'], 'written', 'ok' if ok else 'INCOMPLETE')
