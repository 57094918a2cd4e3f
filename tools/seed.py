#!/usr/bin/env python3
"""seed.py ID [CHECK...]: validates /verif/seeded/ID (applies, builds, tests pass, demo ok/fails) in a scratch copy and runs checks on it.
   seed.py --all: every seed against its own property's check."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')

def sh(cmd, cwd, env=None, t=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)

def one(i, checks, full=True):
    d = os.path.join(S, i)
    m = json.load(open(d + '/meta.json'))
    w = '/tmp/seed-' + i
    shutil.rmtree(w, ignore_errors=True)
    res = []
    try:
        sh('git -C /repo worktree prune; cp -a /repo ' + w, '/')
        if full:
            r = sh('bash %s/demo.sh' % d, w)
            res.append('demo-clean %s' % ('ok' if r.returncode == 0 else 'FAILS rc=%d %s' % (r.returncode, r.stdout[-600:])))
        r = sh('git apply %s/patch.diff' % d, w)
        if r.returncode: return i, m['property'], ['DOES NOT APPLY ' + r.stdout]
        if full:
            r = sh('cat /opt/vp/build.sh | sed "s#REPO=/repo#REPO=%s#; s#/repo/_build#%s/_b2#g" | bash' % (w, w), w)
            res.append('build %s' % ('ok' if r.returncode == 0 else 'FAILS ' + r.stdout[-600:]))
            r = sh('bash %s/demo.sh' % d, w)
            res.append('demo-patched %s (%s)' % ('fails, good' if r.returncode not in (0, 2) else 'BAD rc=%d' % r.returncode, r.stdout.strip()[-150:]))
        env = dict(os.environ, HZ_REPO=w)
        for c in checks or [m['property']]:
            r = sh('./check ' + c, V, env)
            v = [l for l in r.stdout.split('\n') if l.startswith('src/')][:1]
            res.append('%s %s %s' % (c, {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(r.returncode), v[0][:170] if v else r.stdout.strip()[-200:] if r.returncode else ''))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i, m['property'], res

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    a = sys.argv[1:]
    quick = '--quick' in a
    a = [x for x in a if x != '--quick']
    ids = sorted(os.listdir(S)) if a[0] == '--all' else [a[0]]
    with ThreadPoolExecutor(4) as ex:
        for i, p, res in ex.map(lambda i: one(i, a[1:], not quick), ids):
            print(i, p)
            for r in res: print('   ', r)
