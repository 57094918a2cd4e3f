"""Lockset analysis. For every class that owns a mutex, the data members and static variables that some operation other
than a constructor writes are its shared state; every abstract path of every public operation may read, write or
position them only while the mutex of the class is held, a condition variable is waited on with that mutex, and no function outside the class
refers to them."""
TECHNIQUE = 'lock-set (guarded-by) analysis over the abstract interpretation of every entry point'
NOTE = 'Each access to shared state on every analysed path is checked against the inferred guard; aliasing outside the objects named in the rules is not tracked.'

from hz import locks, archive
from hz.terms import *
from hz.prog import rel, walk
from hz.extract import AnalysisError

STREAM = ('sread', 'swrite', 'sseek', 'sseekto', 'sflush')


class C(locks.LockClient):
    def note(self, st, loc, e, fr, w):
        self.acc.append((loc, w, tuple(m for m, k in self.held(st)), e.get('l', 0) if e else 0, rel(fr.file), fr.name))

    def on_read(self, I, st, loc, e, fr):
        self.note(st, loc, e, fr, False)

    def on_write(self, I, st, loc, v, e, fr):
        self.note(st, loc, e, fr, True)


def field(loc, this, cls, globs):
    """Name of the member of the class that loc is, or is part of."""
    x = loc
    while True:
        if x.op == 'glob' and x.a[0] in globs:
            return globs[x.a[0]]
        if x.op in ('fld', 'sel') and (x.a[0] is this or (x.a[0].op == 'init' and x.a[0].a[0] is this)):
            return x.a[1]
        if x.op in ('fld', 'el', 'mitem', 'at', 'sel', 'init', 'ptr', 'mem'):
            x = x.a[0]
            continue
        return None


def stream_access(evs, held, out):
    held = list(held)
    for ev in evs:
        if ev.k == 'lock' and ev.kind != 'sem':
            held.append(ev.m)
        elif ev.k == 'unlock' and ev.kind != 'sem' and ev.m in held:
            held.remove(ev.m)
        elif ev.k in STREAM or ev.k == 'cvwait':
            out.append((ev, tuple(held)))
        elif ev.k == 'loop':
            for kind, body, s in ev.body:
                stream_access(body, held, out)


def run(ctx):
    ctx.rule('guarded', 'every access to shared state happens with the mutex of its class held', 40)
    ctx.rule('private', 'shared state is referred to only by members of its class', 5)
    ctx.rule('waits', 'a condition variable is waited on with the mutex of its class', 1)
    ctx.assume('constructors run before an object is shared', 'a class has one mutex for all of its own state; element mutexes (vectors of mutexes) guard what they are handed out with')
    done = set()
    shared = {}
    for p in locks.programs(ctx):
        es, own = locks.entries(p)
        per = {}
        for f in es:
            if f.cls not in own or f.id in done:
                continue
            done.add(f.id)
            per.setdefault(f.cls, []).append(f)
        for cls, fs in per.items():
            mx, fields = own[cls]
            rec = p.records[cls]
            globs = {}
            for g in p.globals.values():
                if g['q'].rsplit('::', 1)[0] == rec['q'] or g.get('cls') == cls:
                    globs[g['q']] = g['q'].split('::')[-1]
            skip = {n for n, t in fields.items() if locks.is_mutex(t) or t.const or 'condition_variable' in t.n}
            acc = []
            for f in fs:
                ctx.analysed(f)
                c = C()
                c.acc = []
                c, I, outs = locks.run(p, f, c)
                this = archive.THIS if f.cq == 'HZ_Archive' else mk('obj', 'this:' + (f.cq or ''))
                mut = []
                for m in mx:
                    mut.append(mk('fld', this, m))
                    mut.append(mk('glob', rec['q'] + '::' + m))
                for loc, w, held, line, file, fn in c.acc:
                    n = field(loc, this, cls, globs)
                    if n is not None and n not in skip:
                        acc.append((f, n, w, any(m in held for m in mut), line, file, fn, show(loc)))
                for kind, s, v in outs:
                    out = []
                    stream_access(s.events(), (), out)
                    for ev, held in out:
                        if ev.k == 'cvwait':
                            ctx.ob('waits', '%s at %s' % (f.q, ev.at()), ok=any(m in held for m in mut), file=ev.file, func=ev.fn, line=ev.line,
                                   msg='waits without holding the mutex of ' + cls)
                            continue
                        n = field(ev.s, this, cls, globs)
                        if n is not None:
                            acc.append((f, n, True, any(m in held for m in mut), ev.line, ev.file, ev.fn, 'the stream'))
            written = {n for f, n, w, ok, *_ in acc if w and f.kind != 'ctor'}
            shared[cls] = written
            for f, n, w, ok, line, file, fn, what in acc:
                if n not in written or f.kind == 'ctor':
                    continue
                ctx.ob('guarded', '%s: %s of %s at %s:%d' % (f.q, 'write' if w else 'read', n, file, line), ok=ok, file=file, func=fn, line=line,
                       msg='%s %s without holding the mutex of %s (reached from %s)' % ('writes' if w else 'reads', what, cls, f.q), detail=n)
        # references from outside the class
        for f in p.fns.values():
            for n in walk(f.body):
                if n['k'] in ('mem', 'ref') and 'q' in n and '::' in n['q']:
                    c, m = n['q'].rsplit('::', 1)
                    for cls in shared:
                        if p.records.get(cls) and p.records[cls]['q'] == c and m in shared[cls]:
                            ok = f.cls == cls
                            ctx.ob('private', '%s in %s' % (n['q'], f.q), ok=ok, file=f.rel, func=f.q, line=n['l'],
                                   msg='%s is used outside its class, where its mutex cannot be held' % n['q'], detail=m)
    for cls in ('HZ_Archive', 'Semaphore'):
        if not shared.get(cls):
            raise AnalysisError('no shared state found for ' + cls)
    ctx.notes['shared_state'] = {k: sorted(v) for k, v in shared.items()}
