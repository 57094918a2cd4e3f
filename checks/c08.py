"""Abstract interpretation of every public archive operation on every path: a blob segment is written only for a model state
that the index holds, and raises that state's dependency count by one; removing a blob lowers the count of the state whose id
is read at the offset where the writer stored it, by one, and the count disappears exactly at zero; a model state is removed
only while no blob depends on it, and when its last dependant goes while a path addresses it, it stays."""
TECHNIQUE = 'abstract interpretation: reference-count accounting between segments and counters on every path'
NOTE = 'Counts are compared as terms, so for any number of dependants; assumes that load rebuilds the counters (C07) and trusts bitio.'

from hz import archive, segments, layout
from hz.archive import M
from hz.segments import NAMES, same
from hz.terms import *


def run(ctx):
    ctx.rule('one-layout', 'each kind of segment has one layout')
    ctx.rule('state-exists', 'a blob is written only for a model state in the index', 1)
    ctx.rule('dependency-added', 'writing a blob raises the dependency count of its model state by one', 1)
    ctx.rule('dependency-removed', 'removing a blob lowers the dependency count of its model state by one, and drops it at zero', 3)
    ctx.rule('no-other-change', 'dependency counts change only with a blob')
    ctx.rule('state-free', 'a model state is removed only while no blob depends on it', 3)
    ctx.rule('address-kept', 'a model state addressed by a path is not removed with its last blob', 1)
    ctx.rule('state-dropped', 'a model state without path and blobs is removed', 1)
    ctx.rule('address-recorded', 'storing a path for a model state marks it as addressed', 1)
    ctx.assume('bitio reads back what it wrote', 'load rebuilds the counters (checked by C07)', 'the path index behaves as its contract says (checked by C14)')
    p = archive.program(ctx)
    segments.setup(p)
    lays = layout.writers(ctx, p)
    bl = lays.get((segments.BLOB, None))
    DEP, MAP, INV = M('dep_counter'), M('mstate_map'), M('mstate_inv_aux_map')
    for f, I, L, st, kind in archive.levels(ctx, p):
        D = L.facts.decide
        path = lambda: archive.pathdesc(L.evs)
        within = lambda m, k, s=L.st: s.facts.decide(I.lib.contains(s, I.load(s, m), k))
        used = set()

        def change(key, delta):
            """The change of the count of `key` on this stretch."""
            r = []
            for e in L.evs:
                if id(e) in used:
                    continue
                if e.k == 'mapw' and e.m is DEP and e.key is not None and same(L.facts, e.key, key):
                    r.append(e)
                elif e.k == 'maperase' and e.m is DEP and same(L.facts, e.key, key):
                    r.append(e)
            return r

        for g in L.segs:
            if g.kind != 'seg' or g.marker != segments.BLOB:
                continue
            lay = layout.of_segment(L, g)
            mid = [x.val for x in lay.fields if x.role == 'mstate_id']
            at = dict(file=g.ev.file, func=g.ev.fn, line=g.ev.line)
            if len(mid) != 1:
                ctx.ob('state-exists', ok=False, msg='the blob segment does not record one model state id', path=path(), **at)
                continue
            mid = mid[0]
            ok = within(MAP, mid) is True
            ctx.ob('state-exists', '%s: %s' % (f.q, show(mid)), ok, msg='a blob is written although the model state %s may not exist' % show(mid), path=path() if not ok else None, **at)
            ch = change(mid, 1)
            news = [e for e in L.evs if e.k == 'mapins' and e.m is DEP and same(L.facts, e.key, mid)]
            ok = False
            if ch and all(e.k == 'mapw' for e in ch):
                # a counter that is not there counts as zero: operator[] makes it so
                old = ZERO if news and news[0].get('known') is False else ch[0].old
                ok = same(L.facts, ch[-1].new, add(old, ONE))
                used.update(id(e) for e in ch)
            ctx.ob('dependency-added', '%s: %s' % (f.q, show(mid)), ok, msg='writing a blob does not raise the dependency count of %s by exactly one' % show(mid), path=path() if not ok else None, **at)
        erased = []
        for r in segments.removals(L):
            if not any(e.k == 'maperase' and e.m is M('blob_map') for e in r.index):
                continue
            at = dict(file=r.ev.file, func=r.ev.fn, line=r.ev.line)
            if bl is None:
                break
            R = layout.Reader(I, bl, r.pos, L.facts).run([e for e in L.evs if base_of(L, e, r.pos)])
            mid = R.vals.get('mstate_id')
            if mid is None:
                ctx.ob('dependency-removed', ok=False, msg='a blob is removed without reading which model state it depends on%s' % (
                    ': ' + R.problems[0][2] if R.problems else ''), path=path(), **at)
                continue
            mid = mid[0]
            ch = change(mid, -1)
            used.update(id(e) for e in ch)
            old = None
            if ch:
                old = ch[0].old if ch[0].k == 'mapw' else ch[0].pos
            if not ch:
                ok = within(DEP, mid) is False
                what = 'stays as it is'
            elif ch[-1].k == 'mapw':
                ok = same(L.facts, ch[-1].new, sub(old, ONE)) and D(le(c(2), old)) is True
                what = 'goes from %s to %s' % (show(old), show(ch[-1].new))
            else:
                ok = D(le(old, ONE)) is True
                what = 'is dropped while it can be %s' % show(old)
                erased.append((mid, ch[-1]))
            ctx.ob('dependency-removed', '%s: %s %s' % (f.q, show(mid), what), ok, msg='when a blob is removed, the dependency count of its model state %s' % what, path=path() if not ok else None, **at)
        for e in L.evs:
            if e.k in ('mapw', 'mapins', 'maperase') and e.m is DEP and e.k != 'mapins':
                ctx.ob('no-other-change', '%s: line %d' % (f.q, e.line), id(e) in used, e.file, e.fn, e.line, 'a dependency count changes without a blob of that model state', path() if id(e) not in used else None)
            if e.k == 'maperase' and e.m is MAP and e.get('known') is not False:
                ok = e.needed is False
                ctx.ob('state-free', '%s: line %d' % (f.q, e.line), ok, e.file, e.fn, e.line, 'the model state %s is removed although blobs may depend on it' % show(e.key), path() if not ok else None)
                for mid, x in erased:
                    if same(L.facts, mid, e.key):
                        ctx.ob('address-kept', '%s: line %d' % (f.q, e.line), e.addressed is False, e.file, e.fn, e.line,
                               'the model state is removed with its last blob although a path may address it', path() if e.addressed is not False else None)
            if e.k == 'trie' and e.op == 'set' and e.m is M('mstate_aux_map'):
                ok = e.data is not None and any(x.k == 'mapw' and x.m is INV and x.key is not None and same(L.facts, x.key, e.data) for x in L.evs)
                ctx.ob('address-recorded', '%s: line %d' % (f.q, e.line), ok, e.file, e.fn, e.line, 'the model state is not marked as addressed by its path', path() if not ok else None)
                ok = e.data is not None and within(MAP, e.data) is True
                ctx.ob('address-recorded', None, ok, e.file, e.fn, e.line, 'a path is stored for a model state that may not exist', path() if not ok else None, 'exists')
        for mid, x in erased:
            ok = any(e.k == 'maperase' and e.m is MAP and same(L.facts, e.key, mid) for e in L.evs) or within(INV, mid) is True or within(MAP, mid) is False
            ctx.ob('state-dropped', '%s: %s' % (f.q, show(mid)), ok, x.file, x.fn, x.line, 'a model state without path stays in the archive when its last blob goes', path() if not ok else None)


def base_of(L, e, pos):
    """Reads of this segment: those after the last absolute seek to its position."""
    last = None
    for x in L.evs:
        if x is e:
            break
        if x.k == 'sseekto':
            last = x
    return last is None or same(L.facts, last.pos, pos)
