"""Abstract interpretation of opening an archive: every iteration of the scan that goes on, or ends normally, must have decided
that the marker (and the entry type, and the version) is one that the format defines; every other value must leave by an
exception, and the scan can end normally only at an end marker."""
TECHNIQUE = 'abstract interpretation of the opening scan: exhaustive case analysis over markers, entry types and versions'
NOTE = 'Every marker byte, entry type and version number is covered by the path conditions; trusts bitio.'

from hz import archive, segments, layout, scan
from hz.segments import same, NAMES
from hz.terms import *


def run(ctx):
    ctx.rule('one-layout', 'each kind of segment has one layout')
    ctx.rule('known-marker', 'the scan goes on only after a marker of the format', 3)
    ctx.rule('known-entry', 'a metadata entry is accepted only if its type is one of the format', 2)
    ctx.rule('known-version', 'a version other than the one written is refused', 1)
    ctx.rule('ends-at-end', 'the scan ends normally only at an end marker', 1)
    ctx.rule('refuses', 'unknown values leave the scan by an exception that reaches the caller', 2)
    ctx.assume('bitio reads back what it wrote')
    p = archive.program(ctx)
    segments.setup(p)
    lays = layout.writers(ctx, p)
    ver = lays.get((segments.METADATA, 0))
    version = [f.val for f in ver.fields if f.bits is c(24)] if ver else []
    for f, I, outs, alts in scan.scans(ctx, p, lays):
        refused = 0
        for a in alts:
            at = dict(file=a.loop.file, func=a.loop.fn, line=a.loop.line)
            path = archive.pathdesc(a.evs)
            if a.kind == 't':
                refused += a.marker is None
                continue
            if a.kind == 'cont':
                ctx.ob('known-marker', '%s goes on after %s' % (f.q, a.name()), a.marker is not None and a.marker != segments.END,
                       msg='the scan goes on although the marker %s' % ('may be unknown' if a.marker is None else 'is the end marker'), path=path, detail=a.name(), **at)
            else:
                ctx.ob('ends-at-end', '%s ends after %s' % (f.q, a.name()), a.marker == segments.END, msg='the scan can end without an end marker', path=path, detail=a.name(), **at)
            if a.marker == segments.METADATA:
                ctx.ob('known-entry', '%s accepts %s' % (f.q, a.name()), a.sub is not None, msg='a metadata entry of an unknown type is accepted', path=path, **at)
                if a.sub == 0:
                    v = [x[0] for x in a.R.vals.values() if x[1].bits is c(24)]
                    ok = bool(v) and bool(version) and same(a.s.facts, v[0], version[0])
                    ctx.ob('known-version', '%s accepts version %s' % (f.q, show(version[0]) if version else '?'), ok, msg='an archive of another version is accepted', path=path, **at)
        # a round that leaves by an exception must reach the caller as one
        n = sum(1 for kind, s, v in outs if kind == 't')
        ctx.ob('refuses', '%s: unknown markers raise' % f.q, refused > 0, f.rel, f.q, f.line, 'no path of the scan refuses an unknown marker')
        for kind, s, v in outs:
            if kind != 'r':
                continue
            loops = [e for e in s.events() if e.k == 'loop' and any(b and any(x.k == 'sread' for x in b) for _, b, _ in e.body)]
            for e in loops:
                ctx.ob('refuses', '%s returns after the scan of line %d' % (f.q, e.line), not e.get('partial') or stops_at_end(I, s, e, alts), e.file, e.fn, e.line,
                       'opening succeeds although the scan was left early', archive.pathdesc(s.events()))


def stops_at_end(I, s, e, alts):
    """The last marker read on this path is the end marker."""
    last = [x for x in s.events() if x.k == 'sread']
    return bool(last) and same(s.facts, last[-1].val, c(segments.END))
