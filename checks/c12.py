"""Abstract interpretation of every public archive operation on every path: each new blob or model state is entered into its
index under one identifier, which was not in the index, which is the one stored in its segment and which is what the operation
returns, records or stores in the file entry; paths are stored in the path indexes only where there was none, with the position
of the segment that holds exactly that path."""
TECHNIQUE = 'abstract interpretation: identity of keys between index, segment and result on every path'
NOTE = 'All archives and random draws: freshness is the loop exit condition, as a fact about the index; trusts bitio and the path index contract (C14).'

from hz import archive, segments, layout, scan
from hz.archive import M
from hz.segments import same, NAMES
from hz.terms import *


def run(ctx):
    ctx.rule('one-layout', 'each kind of segment has one layout')
    ctx.rule('fresh', 'a new identifier is not in use', 2)
    ctx.rule('stored', 'the identifier stored in a segment is the one in the index', 2)
    ctx.rule('indexed', 'the index entry of a new segment points at it', 2)
    ctx.rule('reported', 'the identifier of a new segment is returned or recorded', 2)
    ctx.rule('no-overwrite', 'a path is stored only where there was none', 2)
    ctx.rule('path-segment', 'a stored path has exactly one segment, with its position, its characters and its identifiers', 2)
    ctx.assume('bitio reads back what it wrote', 'the path index behaves as its contract says (checked by C14)')
    p = archive.program(ctx)
    segments.setup(p)
    lays = layout.writers(ctx, p)
    for f, I, L, st, kind in archive.levels(ctx, p):
        if kind != 'r' and L.loop is None:
            continue
        path = lambda: archive.pathdesc(L.evs)
        D = lambda x, y: x is not None and y is not None and same(L.facts, x, y)
        mine = set()
        for g in L.segs:
            if g.kind != 'seg':
                continue
            at = dict(file=g.ev.file, func=g.ev.fn, line=g.ev.line)
            if g.marker in (segments.BLOB, segments.MSTATE):
                m = M('blob_map' if g.marker == segments.BLOB else 'mstate_map')
                what = '%s: %s segment' % (f.q, NAMES[g.marker])
                ws = [e for e in L.evs if e.k == 'mapw' and e.m is m and D(e.new, g.pos)]
                mine |= {id(e) for e in ws}
                ctx.ob('indexed', what, len(ws) == 1, msg='a new %s segment at %s gets %s' % (NAMES[g.marker], show(g.pos), 'several index entries' if ws else 'no index entry that points at it'),
                       path=path() if len(ws) != 1 else None, **at)
                if len(ws) != 1:
                    continue
                key = ws[0].key
                ins = [e for e in L.evs if e.k == 'mapins' and e.m is m and D(e.key, key)]
                mine |= {id(e) for e in ins}
                ok = bool(ins) and ins[0].get('known') is False
                ctx.ob('fresh', '%s: %s' % (what, show(key)), ok, ws[0].file, ws[0].fn, ws[0].line, 'the identifier of a new %s segment can already be in use' % NAMES[g.marker], path() if not ok else None)
                lay = lays.get((g.marker, None))
                off = next((x.off for x in lay.fields if x.role == 'id'), c(segments.HDR)) if lay else c(segments.HDR)
                st_ = [i for i in g.items if i.body is None and D(i.pos, add(g.pos, off))]
                ok = len(st_) == 1 and D(st_[0].val, key) and st_[0].bits is c(64)
                ctx.ob('stored', what, ok, msg='the %s segment stores the identifier %s, but the index has %s' % (NAMES[g.marker], show(st_[0].val) if st_ else 'nowhere', show(key)), path=path() if not ok else None, **at)
                ok = reported(I, L, st, kind, key, f)
                ctx.ob('reported', what, ok, msg='the identifier of the new %s segment is not what %s returns or records' % (NAMES[g.marker], f.q), path=path() if not ok else None, **at)
            elif g.marker == segments.METADATA:
                lay = layout.of_segment(L, g)
                if lay.sub not in (1, 2):
                    continue
                m = M('file_map' if lay.sub == 1 else 'mstate_aux_map')
                ts = [e for e in L.evs if e.k == 'trie' and e.op == 'set' and e.m is m and D(e.sof, g.pos)]
                mine |= {id(e) for e in ts}
                ok = len(ts) == 1
                ctx.ob('path-segment', '%s: %s' % (f.q, lay.name()), ok, msg='no path is stored with the position of the new %s segment' % lay.name(), path=path() if not ok else None, **at)
                if not ok:
                    continue
                e = ts[0]
                content(ctx, I, L, f, g, lay, e, path)
        for e in L.evs:
            if e.k == 'trie' and e.op == 'set':
                ok = e.get('known') is False
                ctx.ob('no-overwrite', '%s: line %d' % (f.q, e.line), ok, e.file, e.fn, e.line, 'the path can already have an entry, which is replaced', path() if not ok else None)
                ctx.ob('path-segment', None, id(e) in mine, e.file, e.fn, e.line, 'a path is stored with the position %s, where no segment for it was written' % (show(e.sof) if e.get('sof') is not None else '?'),
                       path() if id(e) not in mine else None, 'segment')
            if e.k == 'mapw' and e.m in (M('blob_map'), M('mstate_map')):
                ctx.ob('no-overwrite', '%s: line %d' % (f.q, e.line), id(e) in mine, e.file, e.fn, e.line, 'an index entry changes without a new segment', path() if id(e) not in mine else None, 'index')


def reported(I, L, st, kind, key, f):
    same_ = lambda x: isinstance(x, T) and (x is key or same(L.facts, x, key))
    for e in L.evs:
        if e.k == 'trie' and e.op == 'set' and e.get('data') is not None and same_(e.data):
            return True
    if any(e.k == 'push' and e.c is not M('fragments') and (same_(e.get('val')) or e.get('v') and any(same_(x) for x in (e.v.values() if isinstance(e.v, dict) else ()))) for e in L.evs):
        return True
    if L.loop is None and isinstance(L.result, T) and same_(L.result):
        return True
    for loc, v in L.st.mem.items():
        if isinstance(v, T) and v.op not in ('c',) and loc.op in ('el', 'fld') and not under_meta(loc) and escapes(loc) and same_(v):
            if L.loop is not None and loc.op == 'el' and L.loop.get('kvar') is not None and not scan_mentions(loc.a[1], L.loop.kvar):
                continue    # overwritten by the next iteration
            return True
    return False


def scan_mentions(t, x):
    return t is x or isinstance(t, (T, tuple)) and any(scan_mentions(y, x) for y in (t.a if isinstance(t, T) else t) if isinstance(y, (T, tuple)))


def escapes(loc):
    """Member, argument or element: not a local scalar."""
    x = loc
    while x.op in ('el', 'fld', 'mitem'):
        if x.op == 'fld' and str(x.a[1]).startswith('#'):
            return False
        x = x.a[0]
    return True


def under_meta(loc):
    x = loc
    while x.op in ('el', 'fld', 'mitem'):
        if x.op == 'fld' and x.a[1] == 'metadata':
            return True
        x = x.a[0]
    return False


def content(ctx, I, L, f, g, lay, e, path):
    at = dict(file=g.ev.file, func=g.ev.fn, line=g.ev.line)
    D = lambda x, y: x is not None and y is not None and same(L.facts, x, y)
    chars = [it for it in g.items if it.body is not None and len(it.body) == 1 and it.body[0].bits is c(8)]
    ok = len(chars) == 1
    if ok:
        it = chars[0]
        v = scan.strip(it.body[0].val)
        ok = v.op == 'at' and D(v.a[0], e.path) and v.a[1] is it.kvar and D(it.trips, mk_len(e.path))
    ctx.ob('path-segment', None, ok, msg='the %s segment does not hold exactly the characters of the path it is stored under' % lay.name(), path=path() if not ok else None, detail='chars', **at)
    if lay.sub == 1:
        ids = [it for it in g.items if it.body is not None and it not in chars]
        ok = len(ids) == 1 and len(ids[0].body) == 1 and e.get('ids') is not None
        if ok:
            it = ids[0]
            want = I.load(L.st, I.elem(I.deref(e.ids), it.kvar)) if e.ids.op in ('ptr', 'init', 'sel') else None
            v = it.body[0].val
            ok = D(v, want) or (v.op == 'at' and v.a[1] is it.kvar and D(v.a[0], I.load(L.st, I.deref(e.ids).a[0]) if I.deref(e.ids).op == 'el' else None))
            ok = ok and D(it.trips, mk('plen', e.ids)) or ok and D(it.trips, I.lib.plen(L.st, e.ids) if hasattr(I.lib, 'plen') else None)
        ctx.ob('path-segment', None, ok, msg='the file segment does not hold the identifiers stored for the path', path=path() if not ok else None, detail='ids', **at)
    else:
        fld = [it for it in g.items if it.body is None and it.bits is c(64) and D(it.val, e.data)]
        ctx.ob('path-segment', None, bool(fld), msg='the segment does not hold the model state stored for the path', path=path() if not fld else None, detail='id', **at)
