"""Abstract interpretation of every public archive operation on every path: each segment written into freed space is matched
with the free-list element whose start it is written to; linear facts of the path (which hold for all lengths) must prove
that it fits and that what remains of the block is nothing (the element is erased) or a block with a header of its own
(the element and the header in the file describe it exactly). No other change to the free list is allowed."""
TECHNIQUE = 'abstract interpretation of free-list accounting with symbolic linear facts'
NOTE = 'Every region handed out is shown to come from the end of the archive or from inside a free block, for all sizes; trusts bitio.'

from hz import archive, segments
from hz.segments import Level, NAMES, HDR
from hz.terms import *


def run(ctx):
    ctx.rule('exact-fit', 'a free-list element is erased only when the new segment is exactly as long', 1)
    ctx.rule('rest-has-header', 'the rest of a block is at least 0x48 bits larger than its recorded length, that is, never negative', 1)
    ctx.rule('rest-described', 'the rest of a block gets an EMPTY marker and its length at its new start', 1)
    ctx.rule('no-other-change', 'the free list changes only for a segment written into the block', 3)
    ctx.assume('free blocks do not overlap each other or live segments before the operation (C04, C07 and C10 keep it so)')
    p = archive.program(ctx)
    segments.setup(p)
    for f in archive.publics(p):
        ctx.analysed(f)
        if f.kind == 'ctor':
            continue
        I, outs = archive.run(p, f)
        for kind, st, v in outs:
            for evs, s, k, loop in segments.levels(st.events(), st):
                L = Level(evs, s, k, loop)
                D = L.facts.decide
                path = archive.pathdesc(evs)
                for g in L.segs:
                    if g.kind != 'seg':
                        continue
                    how = L.account[g]
                    if how is None:
                        continue      # reported by C04
                    if how[0] == 'kept':
                        ctx.ob('no-other-change', ok=False, file=g.ev.file, func=g.ev.fn, line=g.ev.line, path=path,
                               msg='a segment is written over the free block at %s, which stays in the free list' % show(g.pos))
                    elif how[0] == 'erase':
                        e = how[2]
                        ctx.ob('exact-fit', '%s: %s = %s' % (f.q, show(e.length), show(g.length)), D(eq(e.length, g.length)) is True and D(eq(e.sof, g.pos)) is True,
                               e.file, e.fn, e.line, 'a block of length %s is dropped for a segment of length %s' % (show(e.length), show(g.length)), path)
                    elif how[0] == 'shrink':
                        new = {e.loc.a[1]: e for e in how[2]}
                        n = new.get('length')
                        x = how[2][0]
                        ctx.ob('rest-has-header', '%s: 0 <= %s' % (f.q, show(n.new) if n else '-'), n is not None and D(le(ZERO, n.new)) is True, x.file, x.fn, x.line,
                               'the rest of the block can be too small for its header: its length becomes %s' % (show(n.new) if n else 'unchanged'), path)
                        so = new.get('sof')
                        rest = [r for r in L.segs if r.kind == 'rest' and so is not None and n is not None
                                and segments.same(L.facts, r.pos, so.new) and segments.same(L.facts, r.length, n.new)]
                        ctx.ob('rest-described', '%s: EMPTY at %s' % (f.q, show(so.new) if so else '-'), len(rest) == 1, x.file, x.fn, x.line,
                               'the rest of the block is not described in the file at its new start with its new length', path)
                for e in L.shrink + L.erase:
                    ctx.ob('no-other-change', '%s: %r' % (f.q, e), id(e) in L.used, e.file, e.fn, e.line, 'the free list changes without a segment in that block', path)
                gone = [x.g for x in segments.removals(L) if x.push]
                for r in L.segs:
                    if r.kind == 'rest' and r not in gone:
                        ok = any(h is not None and h[0] == 'shrink' and any(e.loc.a[1] == 'sof' and segments.same(L.facts, e.new, r.pos) for e in h[2]) for h in L.account.values())
                        ctx.ob('no-other-change', None, ok, r.ev.file, r.ev.fn, r.ev.line, 'a free-space header is written at %s, where no free block starts' % show(r.pos), path)
