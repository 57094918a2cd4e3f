"""Abstract interpretation of every public archive operation on every path: on a path that ends in an exception nothing
was written to the archive file and no index, counter, free block or end position changed, neither on the path itself nor
in the loop iterations before the exception."""
TECHNIQUE = 'abstract interpretation: effect analysis of every path that ends in an exception'
NOTE = 'All inputs and archive states; conditions established for every element by a validating loop are remembered. Exhausted memory is not considered; load, which reports an unreadable archive, is C13.'

from hz import archive
from hz.archive import M
from hz.terms import *

WHAT = {'swrite': 'the archive file is written', 'eof': 'the end position changes', 'fragw': 'a free block changes', 'push': 'a free block is added',
        'verase': 'a free block is dropped', 'vclear': 'the free blocks are dropped', 'mapw': 'an index entry changes', 'mapins': 'an index entry appears', 'maperase': 'an index entry is removed',
        'mapclear': 'an index is emptied', 'metaw': 'the bookkeeping changes', 'trie': 'a path is stored or removed'}


def mutation(e):
    """What this event changes, if anything."""
    if e.k not in WHAT:
        return None
    if e.k == 'trie' and e.op not in ('set', 'erase'):
        return None
    if e.k in ('push', 'verase', 'vclear', 'pop') and e.c is not M('fragments'):
        return None
    if e.k in ('mapins', 'mapclear') and not meta(e.m):
        return None
    if e.k == 'maperase' and (not meta(e.m) or e.get('known') is False):
        return None
    if e.k == 'mapins' and e.get('known') is True:
        return None
    if e.k == 'mapw' and e.new is not None and e.old is e.new:
        return None
    return WHAT[e.k]


def meta(m):
    return m.op == 'fld' and m.a[0] is mk('fld', archive.THIS, 'metadata')


def changes(evs):
    """Mutations on a path and in the iterations of its loops that run to their end."""
    for e in evs:
        w = mutation(e)
        if w:
            yield e, w
        if e.k == 'loop':
            for kind, body, s in e.body:
                if kind != 't':
                    yield from changes(body)


def run(ctx):
    ctx.rule('unchanged', 'a path that ends in an exception changes nothing', 10)
    ctx.assume('the path index leaves itself unchanged when it raises (checked by C14)', 'allocation does not fail')
    p = archive.program(ctx)
    for f in archive.publics(p):
        if f.kind == 'ctor' or f.n == 'load':
            continue
        ctx.analysed(f)
        I, outs = archive.run(p, f)
        for kind, s, v in outs:
            if kind == 't':
                judge(ctx, f, s.events(), v)
            thrown(ctx, f, s.events(), ())


def thrown(ctx, f, evs, before):
    """Exceptions that leave a loop: with everything that happened before the loop and in earlier iterations."""
    for i, e in enumerate(evs):
        if e.k != 'loop':
            continue
        pre = list(before) + list(evs[:i]) + [e]
        for kind, body, s in e.body:
            if kind == 't':
                judge(ctx, f, pre + list(body), None)
            thrown(ctx, f, body, pre)


def judge(ctx, f, evs, exc):
    ch = list(changes(evs))
    what = '%s: %s' % (f.q, exc if exc is not None else 'raised in a loop')
    e, w = ch[0] if ch else (None, '')
    where = '%s at line %d' % (exc.type, exc.line) if exc is not None else 'an exception in a later iteration'
    ctx.ob('unchanged', what[:160], not ch, e.file if e else f.rel, e.fn if e else f.q, e.line if e else f.line,
           '%s before %s raises %s' % (w, f.q, where), archive.pathdesc(evs) if ch else None, f.n)
