"""Abstract interpretation of every public archive operation on every path: the stream position and the values written are
kept as linear terms over lengths and loop counts, runs of contiguous writes are parsed into segments (marker, 64-bit
length, content), and the declared length must equal the written content as linear terms, for all lengths at once."""
TECHNIQUE = 'abstract interpretation of stream positions with symbolic linear lengths'
NOTE = 'Decides the length equation for every path and all lengths at once; trusts bitio (absent from the repository) to move by the bits asked for.'

from hz import archive, segments
from hz.segments import Level, NAMES
from hz.terms import *


def run(ctx):
    ctx.rule('true-length', 'a segment declares exactly the number of bits that follow its length', 5)
    ctx.rule('end-advances', 'a segment at the end of the archive moves the end by 0x48 plus its length, and nothing else moves it', 3)
    ctx.rule('free-list-advances', 'a segment in freed space takes 0x48 plus its length from that block', 3)
    ctx.rule('end-marker', 'the end marker is written at the end position', 2)
    ctx.assume('bitio writes the requested number of bits at the position of the stream',
               'the path index behaves as its contract says (checked by C14)')
    p = archive.program(ctx)
    e = segments.setup(p)
    ctx.ob('markers', 'the %d segment markers are distinct and fit 8 bits' % len(e['vals']),
           len(NAMES) == len(e['vals']) and all(0 <= v < 256 for v in NAMES), e['relfile'], 'HZ_ArchiveMarker', e['l'], 'two segment markers have the same value, or do not fit 8 bits')
    for f in archive.publics(p):
        ctx.analysed(f)
        I, outs = archive.run(p, f)
        for kind, st, v in outs:
            reading = not any(x.k == 'swrite' for x, _ in archive.flat(st.events()))
            for evs, s, k, loop in segments.levels(st.events(), st):
                L = Level(evs, s, k, loop)
                for ev, rule, msg in L.problems:
                    ctx.ob('true-length', ok=False, file=ev.file, func=ev.fn, line=ev.line, msg=msg, path=archive.pathdesc(st.events()), detail=rule)
                for g in L.segs:
                    if g.kind != 'seg':
                        continue
                    ctx.ob('true-length', '%s: %r' % (f.q, g))
                    how = L.account[g]
                    at = dict(file=g.ev.file, func=g.ev.fn, line=g.ev.line, path=archive.pathdesc(evs))
                    if how is None or how[0] == 'kept':
                        ctx.ob('end-advances', ok=False, msg='the space of the %s segment at %s is taken neither from the end of the archive nor from the free list'
                               % (NAMES[g.marker], show(g.pos)), **at)
                    elif how[0] == 'eof':
                        ctx.ob('end-advances', '%s: end becomes %s' % (f.q, show(how[1].new)), same(L, how[1].new, g.end()), how[1].file, how[1].fn, how[1].line,
                               'the end position becomes %s after a segment that ends at %s' % (show(how[1].new), show(g.end())), archive.pathdesc(evs))
                    elif how[0] == 'shrink':
                        new = {e.loc.a[1]: e for e in how[2]}
                        n = new.get('sof')
                        x = how[2][0]
                        ctx.ob('free-list-advances', '%s: block starts at %s' % (f.q, show(n.new) if n else '-'), n is not None and same(L, n.new, g.end()), x.file, x.fn, x.line,
                               'after a segment that ends at %s the free block starts at %s' % (show(g.end()), show(n.new) if n else 'its old position'), archive.pathdesc(evs))
                        n = new.get('length')
                        old = n.old if n else None
                        ctx.ob('free-list-advances', None, n is not None and same(L, n.new, sub(sub(old, g.length), c(segments.HDR))), x.file, x.fn, x.line,
                               'the free block becomes %s long' % (show(n.new) if n else 'as before'), archive.pathdesc(evs))
                    elif how[0] == 'erase':
                        ctx.ob('free-list-advances', '%s: block disappears' % f.q)
                for e in L.eof:
                    if not reading and id(e) not in L.used:
                        ctx.ob('end-advances', ok=False, file=e.file, func=e.fn, line=e.line, path=archive.pathdesc(evs),
                               msg='the end position changes from %s to %s without a segment of that size' % (show(e.old), show(e.new)))
                for i, g in enumerate(L.segs):
                    if g.kind == 'mark' and g.marker == segments.END:
                        eof = I.load(s, archive.M('eof'))
                        ok = same(L, g.pos, eof) or (i > 0 and L.segs[i - 1].kind == 'seg' and same(L, g.pos, L.segs[i - 1].end()))
                        ctx.ob('end-marker', '%s: at %s' % (f.q, show(g.pos)), ok, g.ev.file, g.ev.fn, g.ev.line, 'the end marker is written at %s' % show(g.pos), archive.pathdesc(evs))


def same(L, x, y):
    return segments.same(L.facts, x, y)
