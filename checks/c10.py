"""Abstract interpretation of every public archive operation on every path: each segment whose marker is overwritten by EMPTY
must be matched, on the same path, by one free-list entry with the segment's position and its stored length and by the removal
of exactly the index entry that points at it, and conversely; a file's removal covers each of its blobs."""
TECHNIQUE = 'abstract interpretation: pairing of markers, free-list entries and index removals on every path'
NOTE = 'Holds for all archives and sizes because positions are compared as terms; trusts bitio and the path index contract (C14).'

from hz import archive, segments
from hz.archive import M
from hz.segments import NAMES, same
from hz.terms import *


def run(ctx):
    ctx.rule('space-returned', 'a removed segment becomes exactly one free block, at its position and with its stored length', 4)
    ctx.rule('index-removed', 'a removed segment loses exactly the index entry that points at it', 4)
    ctx.rule('nothing-else', 'index entries and free blocks change only together with a removed segment', 4)
    ctx.rule('all-blobs', 'removing a file removes each of its blobs', 1)
    ctx.rule('address-removed', 'removing the address of a model state removes its mark as addressed', 1)
    ctx.assume('bitio reads back what it wrote', 'the path index behaves as its contract says (checked by C14)')
    p = archive.program(ctx)
    segments.setup(p)
    for f, I, L, st, kind in archive.levels(ctx, p):
        path = lambda: archive.pathdesc(L.evs)
        rs = segments.removals(L)
        used = set()
        for r in rs:
            at = dict(file=r.ev.file, func=r.ev.fn, line=r.ev.line)
            what = '%s: segment at %s' % (f.q, show(r.pos))
            ctx.ob('space-returned', what, len(r.push) == 1, msg='the segment at %s is marked empty but its space is %s' % (
                show(r.pos), 'recorded %d times' % len(r.push) if r.push else 'not recorded as free'), path=path() if len(r.push) != 1 else None, **at)
            if len(r.push) == 1:
                ok = r.length_ok(L)
                ctx.ob('space-returned', None, ok, msg='the free block at %s gets the length %s instead of the one stored in the segment' % (show(r.pos), show(r.push[0].v['length'])),
                       path=path() if not ok else None, detail='length', **at)
            ctx.ob('index-removed', what, len(r.index) == 1, msg='the segment at %s is marked empty but %s' % (
                show(r.pos), 'several index entries are removed' if r.index else 'the index still points at it'), path=path() if len(r.index) != 1 else None, **at)
            used.update(id(e) for e in r.push + r.index)
        for e in L.evs:
            if e.k == 'push' and e.c is M('fragments'):
                ctx.ob('nothing-else', '%s: free block at line %d' % (f.q, e.line), id(e) in used, e.file, e.fn, e.line,
                       'space that no removed segment occupied is recorded as free', path() if id(e) not in used else None, 'free')
            elif e.k == 'maperase' and e.m in (M('blob_map'), M('mstate_map')) or e.k == 'trie' and e.op == 'erase':
                ctx.ob('nothing-else', '%s: index entry at line %d' % (f.q, e.line), id(e) in used or e.get('known') is False, e.file, e.fn, e.line,
                       'an index entry is removed while its segment stays in the archive', path() if id(e) not in used else None, 'index')
            if e.k == 'trie' and e.op == 'erase' and e.m is M('file_map'):
                blobs(ctx, f, I, L, e, path)
            if e.k == 'trie' and e.op == 'erase' and e.m is M('mstate_aux_map'):
                inv = [x for x in L.evs if x.k == 'maperase' and x.m is M('mstate_inv_aux_map') and same(L.facts, x.key, e.data)]
                absent = L.facts.decide(I.lib.contains(L.st, I.load(L.st, M('mstate_inv_aux_map')), e.data)) is False
                ctx.ob('address-removed', '%s: line %d' % (f.q, e.line), bool(inv) or absent, e.file, e.fn, e.line,
                       'the model state still counts as addressed after its path is removed', path())


def blobs(ctx, f, I, L, e, path):
    ids = I.sel(e.data, 'blob_ids')
    n = I.sel(ids, 'size') if False else None
    for ev in L.evs:
        if ev.k != 'loop':
            continue
        keys = {}
        for kind, body, s in ev.body:
            for x in body:
                if x.k == 'maperase' and x.m is M('blob_map'):
                    keys[x.key] = x
        if not keys:
            continue
        at = dict(file=ev.file, func=ev.fn, line=ev.line)
        key = list(keys)[0]
        good = len(keys) == 1 and mentions(key, ev.get('kvar')) and mentions(key, e.path)
        ctx.ob('all-blobs', '%s: removes %s for each %s' % (f.q, show(key), show(ev.get('trips')) if ev.get('trips') is not None else '?'), good,
               msg='the loop does not visit each blob of the removed file', path=path() if not good else None, **at)
        t = ev.get('trips')
        good = ev.get('exact') and t is not None and t.op == 'plen' and same(L.facts, t.a[0], ids)
        ctx.ob('all-blobs', None, good, msg='the number of blobs removed is %s, not the number of blobs of the file' % (show(t) if t is not None and ev.get('exact') else 'not fixed'),
               path=path() if not good else None, detail='count', **at)
        for kind, body, s in ev.body:
            if kind != 'cont':
                ok = False
            else:
                ok = any(x.k == 'maperase' and x.m is M('blob_map') for x in body) or s.facts.decide(I.lib.contains(s, I.load(s, M('blob_map')), key)) is False
            if kind == 'exit':
                continue
            ctx.ob('all-blobs', None, ok, msg='a blob of the removed file can stay in the archive', path=archive.pathdesc(body) if not ok else None, detail='skip', **at)
        return
    absent = same(L.facts, mk('plen', ids), ZERO)
    ctx.ob('all-blobs', '%s: line %d' % (f.q, e.line), absent, e.file, e.fn, e.line, 'the file is removed but its blobs are not', path())


def mentions(t, x):
    if t is x:
        return True
    return isinstance(t, T) and any(mentions(y, x) for y in t.a if isinstance(y, (T, tuple))) if isinstance(t, T) else isinstance(t, tuple) and any(mentions(y, x) for y in t)
