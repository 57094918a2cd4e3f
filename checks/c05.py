"""The layout of every kind of segment (order, width, role and count of its fields) is extracted from its writers by abstract
interpretation with symbolic positions; every read of every public operation, including the scan at opening, must start where
a field of the layout of the segment it is in starts, with that width, and array reads must take the number of elements the
writer recorded; the values read must end up in the record members they were written from, and each iteration of the scan
must end exactly at the next marker."""
TECHNIQUE = 'abstract interpretation: field layouts of writers matched against positions, widths and uses of every read'
NOTE = 'Positions and counts are symbolic, so for all contents and sizes; trusts bitio; the version, path and identifier roles are also covered by C07.'

from hz import archive, segments, layout, scan
from hz.archive import M
from hz.segments import same, NAMES
from hz.terms import *

WHERE = {'o_size': ('o_size',), 'mstate_id': ('mstate_id',), 'count:data[]': ('size',), 'data[]': ('data',), 'raw[]': ('header', 'raw')}
STATE = {'alg': ('alg',), 'data[]': ('data',)}


def field(I, loc, names):
    for n in names:
        loc = I.fld(loc, n)
    return loc


def holds(I, s, loc, role, R):
    """The record member holds the value read for the role."""
    if role not in R.vals:
        return None
    val, ev = R.vals[role]
    v = I.load(s, loc)
    if ev.k == 'sread':
        return scan.strip(v) is scan.strip(val) or same(s.facts, v, val)
    if v.op != 'ptr':
        return False
    base = v.a[0].a[0] if v.a[0].op == 'el' else v.a[0]
    con = I.load(s, base)
    return con.op == 'fill' and scan.strip(con.a[1]) is val and same(s.facts, I.load(s, mk('fld', base, '#n')), ev.trips)


def run(ctx):
    ctx.rule('one-layout', 'each kind of segment is written with one layout', 3)
    ctx.rule('reads-fields', 'reads start at fields of the written layout, with their widths and counts', 5)
    ctx.rule('next-marker', 'an iteration of the scan ends at the next marker', 4)
    ctx.rule('right-role', 'values read become the record members they were written from', 5)
    ctx.rule('whole-file', 'reading a file reads each of its blobs', 1)
    ctx.assume('bitio reads back what it wrote', 'the path index behaves as its contract says (checked by C14)')
    p = archive.program(ctx)
    segments.setup(p)
    lays = layout.writers(ctx, p)
    scanners = set()
    for f, I, outs, alts in scan.scans(ctx, p, lays):
        scanners.add(f.id)
        for a in alts:
            if a.kind != 'cont' or a.marker is None or a.marker == segments.END:
                continue
            ev = a.first
            at = dict(file=a.loop.file, func=a.loop.fn, line=a.loop.line)
            if a.R:
                for e, rule, msg in a.R.problems:
                    ctx.ob('reads-fields', ok=False, file=e.file, func=e.fn, line=e.line, msg=msg, path=archive.pathdesc(a.evs), detail=a.name() + rule)
                for r, (v, e) in a.R.vals.items():
                    ctx.ob('reads-fields', 'scan of %s: %s' % (a.name(), r))
            if a.length is not None:
                want = a.length
            elif a.layout is not None:
                want = a.R.rel(a.layout.length)
            else:
                want = None
            end = sub(a.pos1, a.base)
            ok = want is not None and same(a.s.facts, end, add(want, c(segments.HDR)))
            ctx.ob('next-marker', 'scan of %s moves by %s' % (a.name(), show(end)), ok, msg='after a %s segment of length %s the scan has moved by %s' % (
                a.name(), show(want) if want is not None else 'unknown', show(end)), path=archive.pathdesc(a.evs) if not ok else None, detail=a.name(), **at)
            ok = same(a.s.facts, sub(a.eof1, a.eof0), end)
            ctx.ob('next-marker', None, ok, msg='after a %s segment the counted end position differs from the position of the stream' % a.name(),
                   path=archive.pathdesc(a.evs) if not ok else None, detail=a.name() + ' end', **at)
    for f in archive.publics(p):
        if f.id in scanners or f.kind == 'ctor':
            continue
        ctx.analysed(f)
        I, outs = archive.run(p, f)
        for kind, st, v in outs:
            for evs, s, k, loop in segments.levels(st.events(), st):
                if any(e.k == 'sread' for e in evs):
                    reads(ctx, f, I, evs, s, k, loop, lays, v if loop is None and kind == 'r' else None, st)


def reads(ctx, f, I, evs, s, k, loop, lays, result, st):
    states = {}
    for base, es in scan.stretches(evs):
        if base is None or not any(e.k == 'sread' for e in es):
            continue
        src, key = scan.source(base)
        lay = lays.get(scan.KIND[src]()) if src in scan.KIND else None
        e0 = next(e for e in es if e.k == 'sread')
        if lay is None:
            ctx.ob('reads-fields', ok=False, file=e0.file, func=e0.fn, line=e0.line, msg='reads at %s, which is not the position of a segment from the index' % show(base), path=archive.pathdesc(evs))
            continue
        R = layout.Reader(I, lay, base, s.facts).run(es)
        for e, rule, msg in R.problems:
            ctx.ob('reads-fields', ok=False, file=e.file, func=e.fn, line=e.line, msg=msg, path=archive.pathdesc(evs), detail=lay.name() + rule)
        for r, (v, e) in R.vals.items():
            ctx.ob('reads-fields', '%s: %s of %s' % (f.q, r, lay.name()))
        if k in ('cont', 'path') and any(e.k == 'swrite' for e in es):
            continue
        states.setdefault(lay.marker, []).append((R, key, e0))
    if k == 't' or st is None:
        return
    # where the values end up
    target = None
    if result is not None and result.op == 'ptr':
        target = result.a[0]
    for R, key, e0 in states.get(segments.BLOB, []):
        recs = records(I, s, R.vals.get('o_size'), 'o_size')
        at = dict(file=e0.file, func=e0.fn, line=e0.line)
        if k == 'path' and result is None:
            continue
        if not recs:
            ctx.ob('right-role', ok=False, msg='the original size of the blob is not stored as that', path=archive.pathdesc(evs), **at)
        for rec in recs:
            for role, names in WHERE.items():
                h = holds(I, s, field(I, rec, names), role, R)
                ctx.ob('right-role', '%s: %s of %s' % (f.q, '.'.join(names), show(rec)), h is True, msg='the member %s of the blob is %s' % (
                    '.'.join(names), 'not what the segment holds for it' if h is False else 'not read'), path=archive.pathdesc(evs) if not h else None, detail=role, **at)
            mid = R.vals.get('mstate_id')
            ok = False
            for R2, key2, e2 in states.get(segments.MSTATE, []):
                if mid and same(s.facts, key2, mid[0]):
                    m = I.load(s, I.fld(rec, 'mstate'))
                    ok = m.op == 'ptr' and all(holds(I, s, field(I, m.a[0], n), r, R2) is True for r, n in STATE.items())
            ctx.ob('right-role', '%s: model state of %s' % (f.q, show(rec)), ok, msg='the blob does not get the model state with its identifier', path=archive.pathdesc(evs) if not ok else None, detail='mstate', **at)
        if target is not None and k == 'path':
            ctx.ob('right-role', '%s returns it' % f.q, target in recs, msg='the blob read is not the one returned', path=archive.pathdesc(evs) if target not in recs else None, detail='returned', **at)
        if loop is not None and recs:
            # one blob per identifier, in order
            ok = any(r.op == 'el' and r.a[1] is loop.kvar for r in recs) or k != 'cont'
            ctx.ob('whole-file', '%s: blob k becomes element k' % f.q, ok, msg='the blob read in round k does not become element k of the result', path=archive.pathdesc(evs) if not ok else None, **at)
            ok = loop.get('exact') and loop.trips.op == 'plen' and key.op == 'at' and mentions(key, loop.kvar)
            ctx.ob('whole-file', '%s: %s rounds' % (f.q, show(loop.trips)), ok or bool(loop.get('partial')), msg='the number of blobs read is not the number of blobs of the file', detail='count',
                   path=archive.pathdesc(evs) if not ok else None, **at)
    if not states.get(segments.BLOB):
        for R, key, e0 in states.get(segments.MSTATE, []):
            if k == 'path' and result is None:
                continue
            at = dict(file=e0.file, func=e0.fn, line=e0.line)
            recs = records(I, s, R.vals.get('alg'), 'alg')
            if target is not None:
                ctx.ob('right-role', '%s returns the model state' % f.q, target in recs, msg='the model state read is not the one returned', path=archive.pathdesc(evs), detail='returned', **at)
            if not recs:
                ctx.ob('right-role', ok=False, msg='the algorithm of the model state is not stored as that', path=archive.pathdesc(evs), **at)
            for rec in recs:
                for role, names in STATE.items():
                    h = holds(I, s, field(I, rec, names), role, R)
                    ctx.ob('right-role', '%s: %s of %s' % (f.q, '.'.join(names), show(rec)), h is True, msg='the member %s of the model state is %s' % (
                        '.'.join(names), 'not what the segment holds for it' if h is False else 'not read'), path=archive.pathdesc(evs) if not h else None, detail=role, **at)


def records(I, s, rd, member):
    """Records whose member holds the value read."""
    if rd is None:
        return []
    return [l.a[0] for l, v in s.mem.items() if l.op == 'fld' and l.a[1] == member and scan.strip(v) is scan.strip(rd[0])]


def mentions(t, x):
    if t is x:
        return True
    if isinstance(t, T):
        return any(mentions(y, x) for y in t.a if isinstance(y, (T, tuple)))
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)
