"""Path-sensitive typestate analysis of every lock: each public operation of a class that owns a mutex, and each other
function that takes a lock, is interpreted abstractly on every path (returns, raises, errors raised by calls that are not
analysed), and the locks held at the end of the path must be exactly those held at its beginning. Functions of the codecs
that lock a cache take their locks only through scope guards."""
TECHNIQUE = 'typestate analysis of locks on every path of an abstract interpretation'
NOTE = 'Sound over all paths of the analysed functions under the listed assumptions; loops and lengths are unbounded (summarised), library locks are trusted.'

from hz import locks, archive
from hz.prog import walk
from hz.lib import MUTEX, LOCKS
from hz.terms import show


def run(ctx):
    ctx.rule('balanced', 'on every path of an operation every acquired lock is released exactly once, and only by its holder', 20)
    ctx.rule('lock-taken', 'operations of lock-owning classes whose paths contain an acquisition', 15)
    ctx.rule('scoped', 'codec functions take cache and device locks only through scope guards', 3)
    ctx.assume('a function whose body is not in the repository raises only if it belongs to cl:: or is an unknown callback',
               'the path index behaves as its contract says (checked by C14)',
               'the cross-process lock of an archive is followed by C11, the mutex handed between the streamer and its jobs by C23 and C25')
    seen = set()
    for p in locks.programs(ctx):
        es, own = locks.entries(p, exclude=('src/hzip_network/api/handlers/',))
        for f in es:
            if f.id in seen:
                continue
            seen.add(f.id)
            if f.rel.startswith('src/hzip_codec/'):
                for n in walk(f.body):
                    if n['k'] == 'call' and (n.get('cq') in MUTEX or n.get('cq') in LOCKS and n['n'] in ('release', 'lock', 'try_lock')):
                        ctx.ob('scoped', ok=False, file=f.rel, func=f.q, line=n['l'], msg='lock is taken or released outside a scope guard')
                    elif n['k'] == 'ctor' and n.get('q') in LOCKS:
                        ctx.ob('scoped', '%s:%d' % (f.q, n['l']))
                continue
            ctx.analysed(f)
            c, I, outs = locks.run(p, f)
            took = False
            for kind, s, v in outs:
                evs = s.events()
                probs, held = locks.balance(evs)
                took = took or any(e.k == 'lock' and e.kind != 'sem' for e, _ in archive.flat(evs))
                ctx.ob('balanced', '%s, path ending in %s' % (f.q, 'return' if kind == 'r' else repr(v)), ok=True)
                for ev, what in probs:
                    ctx.ob('balanced', ok=False, file=ev.file, func=ev.fn, line=ev.line, msg='%s %s (%s)' % (f.q, what, show(ev.m)),
                           path=archive.pathdesc(evs), detail=what.split()[0])
                if held:
                    ctx.ob('balanced', ok=False, file=f.rel, func=f.q, line=f.line,
                           msg='a path that ends in %s keeps %s locked' % ('a return' if kind == 'r' else v, ', '.join(show(h) for h in held)),
                           path=archive.pathdesc(evs), detail='kept')
            if took:
                ctx.ob('lock-taken', f.q)
