"""Abstract interpretation of construction, load, close and the other operations of an archive: the cross-process semaphore
is taken before the file is looked at, created, read or written; it is held when construction or load succeeds and given up
exactly once when they fail; close writes the end marker at the end position, flushes, and only then gives it up; no other
operation touches it."""
TECHNIQUE = 'abstract interpretation: typestate of the named semaphore against file effects on every path'
NOTE = 'All paths including each exception and interrupted or failing waits; the semantics of the POSIX semaphore and of bitio are trusted.'

from hz import archive, engine, segments
from hz.archive import M
from hz.segments import same
from hz.terms import *
from hz.extract import AnalysisError

TOUCH = {'fopen', 'freopen', 'open', 'creat', 'remove', 'rename', 'unlink', 'truncate', 'std::filesystem::exists', 'std::filesystem::is_directory', 'std::filesystem::remove',
         'std::filesystem::file_size', 'std::filesystem::rename', 'std::filesystem::resize_file', 'std::filesystem::is_regular_file', 'std::filesystem::status', 'stat', 'access'}


class Client(archive.ArchiveClient):
    sem_fail = True

    def call(self, I, e, name, st, obj, args, fr, out):
        if name in TOUCH:
            I.emit(st, 'file', e, fr, name=name)
        if name == 'hz_sha512' and args:
            v = args[0]
            return [(st, mk('fn', name, I.lib.strval(I.load(st, v) if isloc(v) else v)))]
        return super().call(I, e, name, st, obj, args, fr, out)


def states(evs, held, probs, sems):
    """Follows the semaphore through a path; loops have to leave it as they found it."""
    for e in evs:
        if e.k == 'lock' and e.kind == 'sem':
            if held:
                probs.append((e, 'is taken while it is held'))
            held = True
            sems.append(e)
        elif e.k == 'unlock' and e.kind == 'sem':
            if not held:
                probs.append((e, 'is given up without being held'))
            held = False
            sems.append(e)
        elif e.k in ('sread', 'swrite', 'sseek', 'file', 'sflush') and not held:
            probs.append((e, 'is not held when the file is %s' % {'sread': 'read', 'swrite': 'written', 'file': 'looked at, created or opened (%s)' % e.get('name')}.get(e.k, 'used')))
        elif e.k == 'loop':
            outs = set()
            for kind, body, s in e.body:
                if kind == 't':
                    continue
                p2 = []
                h = states(body, held, p2, sems)
                probs += p2
                if kind == 'cont' and h != held:
                    probs.append((e, 'changes hands in a loop'))
                elif kind != 'cont':
                    outs.add(h)
            if outs and not (len(outs) == 1 and held in outs):
                held = True if True in outs and len(outs) == 1 else held if held in outs and len(outs) == 1 else next(iter(outs))
    return held


def run(ctx):
    ctx.rule('taken-first', 'construction takes the cross-process lock before it looks at the file', 1)
    ctx.rule('held-on-success', 'construction and load end holding the lock', 2)
    ctx.rule('released-on-failure', 'failing construction and load end without the lock', 2)
    ctx.rule('failed-wait', 'a lock that could not be taken is not treated as taken', 1)
    ctx.rule('close-order', 'close writes the end marker at the end position and flushes it before it gives up the lock', 1)
    ctx.rule('close-once', 'close gives up the lock exactly once', 1)
    ctx.rule('others', 'no other operation takes or gives up the lock', 5)
    ctx.rule('same-name', 'the lock of an archive is named by its absolute path', 1)
    ctx.assume('POSIX semaphores behave as specified', 'bitio flush makes everything written visible to other processes')
    p = archive.program(ctx)
    segments.setup(p)
    for f in archive.publics(p):
        ctx.analysed(f)
        ctor = f.kind == 'ctor'
        if ctor and not f.params:
            continue
        I, outs = archive.run(p, f, Client())
        for kind, s, v in outs:
            evs = s.events()
            probs, sems = [], []
            start = not ctor
            held = states(evs, start, probs, sems)
            path = archive.pathdesc(evs)
            at = dict(file=f.rel, func=f.q, line=f.line)
            w = '%s, %s' % (f.q, 'returns' if kind == 'r' else v)
            if ctor or f.n == 'load':
                for e, m in probs:
                    ctx.ob('taken-first' if ctor else 'held-on-success', ok=False, file=e.file, func=e.fn, line=e.line, msg='the lock between processes ' + m, path=path)
                if ctor:
                    ctx.ob('taken-first', w[:120])
                    for e in evs:
                        if e.k == 'semopen':
                            name(ctx, I, s, e, path)
                if kind == 'r':
                    ctx.ob('held-on-success', w[:120], held, msg='%s can succeed without holding the lock between processes' % f.q, path=path if not held else None, **at)
                    if any(x.k == 'semfail' for x, l in archive.flat(evs)):
                        ctx.ob('failed-wait', w[:120], held, msg='a failed wait counts as success', path=path, **at)
                else:
                    ctx.ob('released-on-failure', w[:160], not held, f.rel, f.q, v.line, '%s raises %s and keeps the lock between processes: the archive stays locked' % (f.q, v.type), path if held else None)
            elif f.n == 'close':
                if kind != 'r':
                    continue
                rel_ = [e for e in evs if e.k == 'unlock' and e.kind == 'sem']
                ctx.ob('close-once', w, len(rel_) == 1 and not held and not probs, msg='close gives up the lock between processes %d times' % len(rel_), path=path, **at)
                order(ctx, f, I, s, evs, path)
            else:
                ctx.ob('others', w[:120], not sems, msg='%s takes or gives up the lock between processes' % f.q, path=path if sems else None, **at)


def order(ctx, f, I, s, evs, path):
    i = next((i for i, e in enumerate(evs) if e.k == 'unlock' and e.kind == 'sem'), len(evs))
    eof = next((e.old for e in evs if e.k == 'eof'), None) or I.load(s, M('eof'))
    ws = [(j, e) for j, e in enumerate(evs) if e.k == 'swrite']
    at = dict(file=f.rel, func=f.q, line=f.line)
    end = [j for j, e in ws if e.bits is c(8) and same(s.facts, e.pos, eof) and same(s.facts, e.val, c(segments.END))]
    ctx.ob('close-order', '%s: %s' % (f.q, [show(e.pos) for j, e in ws]), bool(end) and end[-1] < i, msg='the end marker is not written at the end position before the lock is given up', path=path, detail='end', **at)
    later = [e for j, e in ws if not end or j > end[-1]]
    ctx.ob('close-order', None, not later, msg='the file is written after its end marker', path=path, detail='later', **at)
    fl = [j for j, e in enumerate(evs) if e.k in ('sflush', 'sclose') and (not ws or j > ws[-1][0])]
    ctx.ob('close-order', None, bool(fl) and fl[0] < i, msg='the lock is given up before what was written is flushed', path=path, detail='flush', **at)


def name(ctx, I, s, e, path):
    t = e.args[0]
    v = I.load(s, mk('fld', archive.THIS, 'path'))
    leaves = set()
    free(t, v, leaves)
    absolute = v.op == 'fn' and 'absolute' in str(v.a[0]) or 'absolute' in show(v) or 'canonical' in show(v)
    ctx.ob('same-name', show(t), v in leaves and leaves == {v}, e.file, e.fn, e.line, 'the name of the lock is made from %s instead of the path of the archive' % (', '.join(show(x) for x in leaves) or 'nothing'), path)
    ctx.ob('same-name', None, absolute, e.file, e.fn, e.line, 'the name of the lock is made from a path that is not absolute: different spellings of it get different locks', path, 'absolute')
    ok = len(e.args) == 4 and e.args[3] is ONE
    ctx.ob('same-name', None, ok, e.file, e.fn, e.line, 'the lock is created with %s units instead of one' % (show(e.args[3]) if len(e.args) == 4 else 'no'), path, 'units')


def free(t, v, out):
    """The values that a name is made of."""
    if t is v:
        out.add(t)
    elif isinstance(t, tuple):
        for x in t:
            free(x, v, out)
    elif isinstance(t, T):
        if t.op in ('init', 'sym', 'obj'):
            out.add(t)
        elif t.op not in ('c', 'str'):
            for x in t.a:
                if isinstance(x, (T, tuple)):
                    free(x, v, out)
