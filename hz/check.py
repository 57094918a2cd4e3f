"""Runs one property's check: obligations, violations, known findings, evidence."""
import hashlib, importlib, json, os, sys, time, traceback
from .extract import AnalysisError, VERIF, REPO

KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation:
    def __init__(self, rule, file, func, line, msg, path=None, detail=''):
        self.rule, self.file, self.func, self.line, self.msg = rule, file, func, line, msg
        self.path = list(path or [])
        self.key = '%s:%s:%s%s' % (file, func, rule, ':' + detail if detail else '')

    def dict(self):
        return {'key': self.key, 'rule': self.rule, 'file': self.file, 'function': self.func, 'line': self.line,
                'message': self.msg, 'path': self.path}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations = []
        self.obligations = {}
        self.discharged = 0
        self.functions = set()
        self.units = set()
        self.samples = []
        self.assumptions = []
        self.rules = {}
        self.notes = {}
        self.need = {}
        self._seen = set()

    # every obligation is an instance of a rule at a construct of /repo's source
    def ob(self, rule, what=None, ok=True, file='', func='', line=0, msg='', path=None, detail=''):
        self.obligations[rule] = self.obligations.get(rule, 0) + 1
        if what is not None and len(self.samples) < 40 and sum(1 for s in self.samples if s.startswith(rule + ':')) < 4:
            self.samples.append('%s: %s' % (rule, what))
        if ok:
            self.discharged += 1
            return True
        v = Violation(rule, file, func, line, msg or str(what), path, detail)
        if v.key not in self._seen:
            self._seen.add(v.key)
            self.violations.append(v)
        return False

    def rule(self, name, text, atleast=1):
        """Declares a rule; fewer than `atleast` instances means that the analysis lost its subject."""
        self.rules[name] = text
        # helpers extracted from several places reduce the number of places: only a collapse is a loss
        self.need[name] = atleast if atleast <= 1 else max(1, atleast // 3)

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def analysed(self, *fns):
        for f in fns:
            self.functions.add(f if isinstance(f, str) else f.id)

    def program(self, p):
        for tu in p.tus:
            self.units.add('%s (%s)' % (tu.name, tu.config))
        return p

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n


def known(pid):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith('known:'):
                continue
            f = dict(x.split('=', 1) for x in l[6:].split(' ', 3) if '=' in x)
            if f.get('property') == pid and 'key' in f:
                r[f['key']] = l[6:].split('key=' + f['key'], 1)[1].strip()
    return r


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    mod = importlib.import_module('checks.%s' % pid.lower())
    err = None
    try:
        mod.run(ctx)
        lost = ['%s (%d of at least %d)' % (r, ctx.obligations.get(r, 0), n) for r, n in ctx.need.items() if ctx.obligations.get(r, 0) < n]
        if lost and not ctx.violations:
            err = 'no instances of: ' + ', '.join(lost)
    except AnalysisError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    kn = known(pid)
    new = []
    for v in ctx.violations:
        if v.key in kn:
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[v.key] or v.msg, v.key))
        else:
            new.append(v)
    total = sum(ctx.obligations.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
        'coverage': {
            'explanation': (mod.__doc__ or '').strip(),
            'rules': ctx.rules,
            'obligations': total, 'discharged': ctx.discharged, 'obligations_per_rule': ctx.obligations,
            'functions_analysed': len(ctx.functions), 'functions': sorted(ctx.functions)[:200],
            'translation_units': sorted(ctx.units),
            'samples': ctx.samples or ['none'],
            **ctx.notes,
        },
        'assumptions': ctx.assumptions,
    }
    if err and not new:
        ev['coverage']['error'] = err
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in new:
        h = hashlib.sha256(v.key.encode()).hexdigest()[:8]
        rp = os.path.join('evidence', 'replay-%s-%s.json' % (pid, h))
        with open(os.path.join(VERIF, rp), 'w') as f:
            json.dump(v.dict(), f, indent=1)
        print('%s:%d: in %s: [%s] %s' % (v.file, v.line, v.func, v.rule, v.msg))
        for p in v.path[-40:]:
            print('    ' + p)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if new:
        return 1
    if err:
        print('ERROR property=%s: %s' % (pid, err))
        return 2
    print('%s: %d obligations discharged in %d functions, %.1f s' % (pid, ctx.discharged, len(ctx.functions), time.time() - t0))
    return 0
