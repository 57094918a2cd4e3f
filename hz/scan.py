"""What opening an archive does with each kind of segment, and reads matched against the layouts that writers use."""
from . import archive, segments, layout
from .archive import M
from .segments import same
from .terms import *


def source(t):
    """Name of the index that a position comes from, and the key."""
    while t.op in ('u', 'trunc'):
        t = t.a[-1] if t.op == 'trunc' else t.a[1]
    if t.op == 'sel':
        t = t.a[0]
    if t.op == 'init' and t.a[0].op in ('fld', 'el'):
        x = t.a[0]
        while x.op == 'fld' and x.a[0].op == 'el':
            x = x.a[0]
        if x.op == 'el':
            return name_of(x.a[0]), x.a[1]
    if t.op == 'at':
        return name_of(t.a[0]), t.a[1]
    return None, None


def name_of(t):
    n = show(t)
    for m in ('mstate_inv_aux_map', 'mstate_aux_map', 'mstate_map', 'blob_map', 'file_map', 'dep_counter'):
        if m[:14] in n.rsplit('metadata.', 1)[-1]:
            return m
    return None


KIND = {'blob_map': lambda: (segments.BLOB, None), 'mstate_map': lambda: (segments.MSTATE, None),
        'file_map': lambda: (segments.METADATA, 1), 'mstate_aux_map': lambda: (segments.METADATA, 2)}


def stretches(evs):
    """Stretches of events from one absolute seek to the next."""
    cur, base = [], None
    for e in evs:
        if e.k == 'sseekto':
            if cur:
                yield base, cur
            cur, base = [], e.pos
        else:
            cur.append(e)
    if cur:
        yield base, cur


class Alt:
    """One way an iteration of the scan can go."""

    def __init__(self, I, loop, kind, evs, s, lays):
        self.I, self.loop, self.kind, self.evs, self.s = I, loop, kind, evs, s
        D = s.facts.decide
        first = next((e for e in evs if e.k == 'sread'), None)
        self.first = first
        self.base = first.pos
        self.marker = next((v for v in segments.NAMES if D(eq(first.val, c(v))) is True), None)
        self.excluded = [v for v in segments.NAMES if D(eq(first.val, c(v))) is False]
        self.sub = None
        self.subev = None
        if self.marker == segments.METADATA:
            for e in evs:
                if e.k == 'sread' and e.bits is c(8) and same(s.facts, e.pos, add(self.base, c(segments.HDR))):
                    self.subev = e
                    self.sub = next((k[1] for k in lays if k[0] == segments.METADATA and D(eq(e.val, c(k[1]))) is True), None)
        self.layout = lays.get((self.marker, self.sub))
        eofs = [e for e in evs if e.k == 'eof']
        self.eof0 = eofs[0].old if eofs else I.load(s, M('eof'))
        self.eof1 = I.load(s, M('eof'))
        self.pos1 = I.load(s, mk('fld', first.s, '#pos'))
        self.R = layout.Reader(I, self.layout, self.base, s.facts).run(evs) if self.layout else None
        self.length = next((e.val for e in evs if e.k == 'sread' and same(s.facts, e.pos, add(self.base, c(8)))), None)

    def name(self):
        return segments.NAMES.get(self.marker, 'unknown') + ('' if self.sub is None else '/%d' % self.sub)


def scans(ctx, p, lays):
    """(function, I, outs, alternatives) of every public operation that scans the archive."""
    for f in archive.publics(p):
        I, outs = archive.run(p, f)
        alts, seen = [], set()
        for kind, st, v in outs:
            if kind != 'r':
                continue
            for ev in st.events():
                if ev.k != 'loop' or segments.writes_only(ev) is not None:
                    continue
                for k, body, s in ev.body:
                    if id(s) in seen or not any(e.k == 'sread' for e in body):
                        continue
                    fr = next(e for e in body if e.k == 'sread')
                    if fr.bits is not c(8) or any(e.k in ('sseekto', 'swrite') for e, _ in archive.flat(body)):
                        continue
                    # a scan starts each round with a marker and moves the end position or the bookkeeping
                    if not any(e.k in ('eof', 'push', 'mapw', 'trie') for e, _ in archive.flat(body)):
                        continue
                    seen.add(id(s))
                    alts.append(Alt(I, ev, k, body, s, lays))
        if alts:
            ctx.analysed(f)
            yield f, I, outs, alts


def strip(t):
    """Value without width conversions."""
    while isinstance(t, T) and t.op in ('trunc', 'u', 'chr'):
        t = t.a[-1] if t.op == 'trunc' else t.a[1] if t.op == 'u' else t.a[0]
    return t


def chars(path, R, role):
    """The string `path` consists of the characters read for `role`, in order: None, or what is wrong."""
    if role not in R.vals:
        return 'the characters of the path are not read'
    val, ev = R.vals[role]
    if ev.k != 'loop':
        return 'only one character of the path is read'
    for kind, body, s in ev.body:
        if kind != 'cont':
            continue
        for l, x in s.mem.items():
            if x.op == 'cat' and x.a[0] is path and strip(x.a[1]) is val:
                p = ev.pre.get(l)
                if p is None or p.op not in ('str', 'zero') or p.op == 'str' and p.a[0] not in ('', "''"):
                    return None if p is not None and p.op == 'str' and not p.a[0] else 'the path does not start empty'
                return None
            if l.op == 'el' and strip(x) is val and (l.a[1] is ev.kvar):
                return None
    return 'the path is not made of the characters read for it'


def index_write(I, a, name):
    """Events of an alternative that store into an index."""
    return [e for e in a.evs if e.k == 'mapw' and e.m is M(name)]


def is_count_up(I, a, key):
    """The dependency count of key goes up by exactly one in this alternative."""
    ch = [e for e in a.evs if e.k in ('mapw', 'maperase') and e.m is M('dep_counter')]
    if not ch or any(e.k == 'maperase' or e.key is None or not same(a.s.facts, e.key, key) for e in ch):
        return False
    news = [e for e in a.evs if e.k == 'mapins' and e.m is M('dep_counter')]
    old = ZERO if news and news[0].get('known') is False else ch[0].old
    return same(a.s.facts, ch[-1].new, add(old, ONE))
