"""Abstract interpretation of opening an archive: for every kind of segment, each way an iteration of the scan can go must
restore that segment's bookkeeping completely: the index entry under the identifier or path read from the segment with the
segment's own position, the dependency count of a blob's model state, the mark of an addressed state, the free block with
its stored length, and at the end marker the end position; and it must touch nothing else."""
TECHNIQUE = 'abstract interpretation of the opening scan against the layouts the writers produce'
NOTE = 'Covers every sequence of segments by induction over iterations of the scan (each iteration is analysed from an arbitrary state); trusts bitio.'

from hz import archive, segments, layout, scan
from hz.archive import M
from hz.segments import same, NAMES
from hz.terms import *


def run(ctx):
    ctx.rule('one-layout', 'each kind of segment has one layout')
    ctx.rule('scan-starts', 'the scan starts at position zero, where construction leaves the stream', 1)
    ctx.rule('every-kind', 'every kind of segment that is written is restored', 4)
    ctx.rule('restored', 'an iteration of the scan restores what its segment stands for', 5)
    ctx.rule('nothing-else', 'an iteration of the scan changes no other bookkeeping')
    ctx.rule('end-position', 'the end position becomes the position of the end marker', 1)
    ctx.assume('bitio reads back what it wrote', 'the path index behaves as its contract says (checked by C14)')
    p = archive.program(ctx)
    segments.setup(p)
    lays = layout.writers(ctx, p)
    for f in archive.publics(p):
        if f.kind == 'ctor' and f.params:
            ctx.analysed(f)
            I, outs = archive.run(p, f)
            for kind, s, v in outs:
                if kind != 'r':
                    continue
                st = [e.s for e, _ in archive.flat(s.events()) if e.k in ('swrite', 'sseekto', 'sseek', 'sread')]
                pos = I.load(s, mk('fld', st[-1], '#pos')) if st else ZERO
                ctx.ob('scan-starts', '%s leaves the stream at %s' % (f.q, show(pos)), pos is ZERO, f.rel, f.q, f.line,
                       'construction leaves the stream at position %s' % show(pos), archive.pathdesc(s.events()))
    got = set()
    found = False
    for f, I, outs, alts in scan.scans(ctx, p, lays):
        found = True
        for kind, s, v in outs:
            if kind == 'r':
                e = [x for x in s.events() if x.k == 'eof']
                ctx.ob('scan-starts', '%s: end position counted from %s' % (f.q, show(e[0].new) if e else '-'), bool(e) and e[0].new is ZERO, f.rel, f.q, f.line,
                       'the end position is not counted from zero')
        for a in alts:
            if a.kind == 't' or a.marker is None:
                continue
            ev = a.first
            at = dict(file=ev.file, func=ev.fn, line=a.loop.line)
            path = lambda: archive.pathdesc(a.evs)
            D = lambda x, y: x is not None and y is not None and same(a.s.facts, x, y)

            def ob(what, ok, msg, e=None):
                w = dict(file=e.file, func=e.fn, line=e.line) if e is not None else at
                ctx.ob('restored', '%s: %s' % (a.name(), what), ok, msg='%s segment: %s' % (a.name(), msg), path=path() if not ok else None, detail=a.name() + ' ' + what, **w)
            if a.marker == segments.END:
                ctx.ob('end-position', '%s: end is %s' % (f.q, show(a.eof1)), D(a.eof1, a.eof0) and a.kind != 'cont', msg='at the end marker the end position becomes %s instead of %s'
                       % (show(a.eof1), show(a.eof0)), path=path(), **at)
            elif a.kind != 'cont':
                ctx.ob('restored', ok=False, msg='the scan ends at a %s segment' % a.name(), path=path(), detail='ends', **at)
            else:
                got.add((a.marker, a.sub))
            if a.kind != 'cont':
                continue
            R = a.R
            mine = set()
            if a.marker in (segments.BLOB, segments.MSTATE):
                m = 'blob_map' if a.marker == segments.BLOB else 'mstate_map'
                ws = scan.index_write(I, a, m)
                mine |= {id(e) for e in ws}
                rid = R.vals.get('id') if R else None
                last = ws[-1] if ws else None
                ob('index entry', last is not None and rid is not None and all(D(w.key, rid[0]) for w in ws),
                   'the identifier read from the segment is not entered into %s' % m, last)
                if last is not None:
                    ob('position', D(last.new, a.eof0), 'its position is recorded as %s instead of %s' % (show(last.new), show(a.eof0)), last)
            if a.marker == segments.BLOB:
                mid = R.vals.get('mstate_id') if R else None
                ob('dependency', mid is not None and scan.is_count_up(I, a, mid[0]), 'the dependency count of its model state does not go up by one')
                mine |= {id(e) for e in scan.index_write(I, a, 'dep_counter')}
            elif a.marker == segments.EMPTY:
                pu = [e for e in a.evs if e.k == 'push' and e.c is M('fragments')]
                mine |= {id(e) for e in pu}
                ok = len(pu) == 1 and pu[0].v is not None
                ob('free block', ok and D(pu[0].v['sof'], a.eof0) and a.length is not None and D(pu[0].v['length'], a.length),
                   'the free block is not recorded once, with its position and stored length', pu[0] if pu else None)
            elif a.marker == segments.METADATA and a.sub in (1, 2):
                m = 'file_map' if a.sub == 1 else 'mstate_aux_map'
                role = next((r for r in R.vals if r and r.endswith('path[]') and not r.startswith('count')), None) if R else None
                ts = [e for e in a.evs if e.k == 'trie' and e.op == 'set' and e.m is M(m)]
                mine |= {id(e) for e in ts}
                ob('index entry', len(ts) == 1, 'its path is not entered into %s' % m)
                for e in ts:
                    w = scan.chars(e.path, R, role) if role else 'the characters of the path are not read'
                    ob('path', w is None, w or '', e)
                    ob('position', e.sof is not None and D(e.sof, a.eof0), 'its position is recorded as %s instead of %s' % (show(e.sof) if e.sof is not None else '?', show(a.eof0)), e)
                    if a.sub == 1:
                        arr = [x for r, x in R.vals.items() if x[1].k == 'loop' and r != role]
                        o = e.get('ids')
                        ok = len(arr) == 1 and o is not None and o.op == 'ptr'
                        if ok:
                            base = o.a[0].a[0] if o.a[0].op == 'el' else o.a[0]
                            con = I.load(a.s, base)
                            n = mk('plen', o) if False else I.load(a.s, mk('fld', base, '#n'))
                            ok = con.op == 'fill' and scan.strip(con.a[1]) is arr[0][0] and D(n, arr[0][1].trips)
                        ob('blob ids', ok, 'the blob identifiers read from the segment do not become those of the file', e)
                    else:
                        rid = R.vals.get('id')
                        ob('model state', rid is not None and e.data is not None and D(e.data, rid[0]), 'the path does not get the model state read from the segment', e)
                        inv = scan.index_write(I, a, 'mstate_inv_aux_map')
                        mine |= {id(x) for x in inv}
                        ob('addressed', rid is not None and any(D(x.key, rid[0]) for x in inv), 'the model state is not marked as addressed')
            elif a.marker == segments.METADATA and a.sub == 0:
                ws = [e for e in a.evs if e.k == 'metaw' and e.name == 'version']
                v = [x[0] for r, x in R.vals.items() if x[1].bits is c(24)] if R else []
                ob('version', bool(ws) and bool(v) and D(ws[-1].new, v[0]), 'the version read from the segment is not recorded', ws[-1] if ws else None)
            for e in a.evs:
                if e.k in ('mapw', 'maperase', 'push', 'verase', 'fragw') and id(e) not in mine and (e.k in ('mapw', 'maperase') or e.get('c') is M('fragments') or e.k == 'fragw') \
                        or e.k == 'trie' and e.op in ('set', 'erase') and id(e) not in mine:
                    ctx.ob('nothing-else', ok=False, file=e.file, func=e.fn, line=e.line, msg='%s segment: changes bookkeeping that it does not stand for' % a.name(), path=path())
            ctx.ob('nothing-else', a.name())
        for k, lay in lays.items():
            ctx.ob('every-kind', lay.name(), k in got, f.rel, f.q, f.line, '%s segments are written but not restored' % lay.name())
        ctx.ob('every-kind', 'EMPTY', (segments.EMPTY, None) in got, f.rel, f.q, f.line, 'free blocks are not restored')
    if not found:
        from hz.extract import AnalysisError
        raise AnalysisError('no scan of the archive found')
