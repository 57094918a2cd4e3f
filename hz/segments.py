"""Segments that a path of an archive operation writes: runs of contiguous writes split by the headers they contain."""
from .terms import *
from .archive import M

EMPTY, METADATA, BLOB, MSTATE, END = 0, 1, 2, 3, 0xff
NAMES = {0: 'EMPTY', 1: 'METADATA', 2: 'BLOB', 3: 'MSTATE', 0xff: 'END'}
HDR = 0x48


class Item:
    """A write, or a loop that only writes (its total is trips * stride)."""

    def __init__(self, ev, pos, total, bits=None, val=None, body=None, kvar=None, trips=None):
        self.ev, self.pos, self.total, self.bits, self.val, self.body, self.kvar, self.trips = ev, pos, total, bits, val, body, kvar, trips


class Seg:
    """kind: 'seg' (header and content), 'rest' (EMPTY header of what remains of a fragment), 'mark' (single marker)."""

    def __init__(self, kind, marker, pos, length, items, ev, index):
        self.kind, self.marker, self.pos, self.length, self.items, self.ev, self.index = kind, marker, pos, length, items, ev, index

    def end(self):
        return add(self.pos, add(self.length, c(HDR)))

    def __repr__(self):
        return '%s %s at %s length %s' % (self.kind, NAMES.get(self.marker, self.marker), show(self.pos), show(self.length) if self.length is not None else '-')


def same(facts, x, y):
    return facts.decide(eq(x, y)) is True


def replace(t, k, v):
    """t with the symbol k replaced."""
    if t is k:
        return v
    if not isinstance(t, T):
        return t
    b = {}
    return subst(t, {k: v})


def writes_only(ev):
    """A loop in which nothing but writing happens to the stream."""
    some = False
    for kind, body, s in ev.body:
        for x in body:
            if x.k == 'swrite':
                some = True
            elif x.k == 'loop':
                w = writes_only(x)
                if w is None:
                    return None
                some = some or w
            elif x.k in ('sseekto', 'sseek', 'sread', 'sflush', 'sclose', 'eof', 'fragw'):
                return None
    return some


def loop_item(ev, facts, problems):
    """The writes of a loop as one item."""
    k, trips = ev.get('kvar'), ev.get('trips')
    if trips is None or not ev.get('exact'):
        problems.append((ev, 'inexact', 'the number of values this loop writes is not tied to a recorded count'))
        return None
    res = None
    for kind, body, s in ev.body:
        if kind != 'cont':
            continue
        its = []
        for x in body:
            if x.k == 'swrite':
                its.append(Item(x, x.pos, x.bits, x.bits, x.val))
            elif x.k == 'loop' and writes_only(x):
                y = loop_item(x, s.facts, problems)
                if y is None:
                    return None
                its.append(y)
        total = ZERO
        for i in its:
            total = add(total, i.total)
        if its:
            pos = its[0].pos
            for i in its:
                if not same(s.facts, i.pos, pos):
                    problems.append((i.ev, 'gap', 'written at %s where the previous value ended at %s' % (show(i.pos), show(pos))))
                    return None
                pos = add(pos, i.total)
            start = sub(its[0].pos, mul(k, total))
        else:
            start = None
        if res is None:
            res = (start, total, its)
        else:
            if not same(s.facts, res[1], total):
                problems.append((ev, 'uneven', 'iterations write different numbers of bits (%s and %s)' % (show(res[1]), show(total))))
                return None
            if start is not None and res[0] is None:
                res = (start, total, its)
    if res is None or res[0] is None:
        return Item(ev, None, ZERO, body=[], kvar=k, trips=ZERO)
    return Item(ev, res[0], mul(trips, res[1]), body=res[2], kvar=k, trips=trips)


def parse(evs, facts, problems):
    """(segments in order, [(loop event, alternative kind, its events, its state)]) of one event list."""
    segs, loops = [], []
    run, end = [], None

    def close():
        nonlocal run, end
        if run:
            split(run, facts, segs, problems)
        run, end = [], None

    for i, ev in enumerate(evs):
        if ev.k == 'swrite':
            it = Item(ev, ev.pos, ev.bits, ev.bits, ev.val)
        elif ev.k == 'loop':
            w = writes_only(ev)
            if w is None:
                close()
                for kind, body, s in ev.body:
                    loops.append((ev, kind, body, s))
                continue
            if not w:
                for kind, body, s in ev.body:
                    loops.append((ev, kind, body, s))
                continue
            it = loop_item(ev, facts, problems)
            if it is None or it.pos is None:
                continue
        elif ev.k in ('sseekto', 'sseek', 'sread', 'sclose'):
            close()
            continue
        else:
            continue
        it.index = i
        if end is not None and not same(facts, it.pos, end):
            close()
        run.append(it)
        end = add(it.pos, it.total)
    close()
    return segs, loops


def split(run, facts, segs, problems):
    i = 0
    while i < len(run):
        it = run[i]
        if it.body is not None and facts.decide(eq(it.total, ZERO)) is True:
            i += 1
            continue
        if it.body is not None or it.bits is not c(8):
            problems.append((it.ev, 'marker', 'data is written at %s where a segment marker is due' % show(it.pos)))
            return
        m = facts.subst(it.val)
        if not isc(m):
            v = [n for n in NAMES if same(facts, it.val, c(n))]
            m = c(v[0]) if v else m
        if not isc(m) or cval(m) not in NAMES:
            problems.append((it.ev, 'marker', 'writes %s where a segment marker is due' % show(it.val)))
            return
        m = cval(m)
        if m == END or i + 1 == len(run) and m == EMPTY:
            segs.append(Seg('mark', m, it.pos, None, [it], it.ev, it.index))
            i += 1
            continue
        if i + 1 == len(run):
            problems.append((it.ev, 'header', 'writes the marker %s without a length' % NAMES[m]))
            return
        l = run[i + 1]
        if l.body is not None or l.bits is not c(64):
            problems.append((l.ev, 'header', 'the length after a marker has to be 64 bits wide'))
            return
        if m == EMPTY:
            segs.append(Seg('rest', m, it.pos, l.val, run[i:i + 2], it.ev, it.index))
            i += 2
            continue
        target = add(it.pos, add(c(HDR), l.val))
        j = i + 2
        pos = add(it.pos, c(HDR))
        while not same(facts, pos, target):
            if j == len(run):
                problems.append((l.ev, 'length', 'the %s segment declares %s bits but %s are written after its length'
                                 % (NAMES[m], show(l.val), show(sub(pos, add(it.pos, c(HDR)))))))
                return
            pos = add(run[j].pos, run[j].total)
            j += 1
        segs.append(Seg('seg', m, it.pos, l.val, run[i:j], it.ev, it.index))
        i = j


def cval(t):
    return t.a[0] if t.op == 'c' else None


def setup(p):
    """Marker values as the format declares them."""
    from .extract import AnalysisError
    e = p.enum('HZ_ArchiveMarker')
    vals = {n: v for n, v, *_ in e['vals']}
    for n in ('EMPTY', 'METADATA', 'BLOB', 'MSTATE', 'END'):
        if n not in vals:
            raise AnalysisError('segment marker %s not found' % n)
    global EMPTY, METADATA, BLOB, MSTATE, END, NAMES
    EMPTY, METADATA, BLOB, MSTATE, END = (vals[n] for n in ('EMPTY', 'METADATA', 'BLOB', 'MSTATE', 'END'))
    NAMES = {v: n for n, v in vals.items()}
    return e


def levels(evs, st, kind='path', loop=None):
    """The path itself and every alternative of the loops in it that do more than write."""
    yield evs, st, kind, loop
    for ev in evs:
        if ev.k == 'loop' and not writes_only(ev):
            for k, body, s in ev.body:
                yield from levels(body, s, k, ev)


class Level:
    """What one stretch of a path does to the file, the end position and the free list."""

    def __init__(self, evs, st, kind, loop):
        self.evs, self.st, self.kind, self.loop = evs, st, kind, loop
        self.facts = st.facts
        self.problems = []
        self.segs, _ = parse(evs, self.facts, self.problems)
        self.eof = [e for e in evs if e.k == 'eof']
        self.shrink = [e for e in evs if e.k == 'fragw' and e.loc.op == 'fld']
        self.erase = [e for e in evs if e.k == 'verase' and e.c is M('fragments')]
        self.account = {}       # segment -> how its space was obtained
        self.used = set()
        for i, g in enumerate(self.segs):
            if g.kind != 'seg':
                continue
            how = None
            for e in self.eof:
                if id(e) not in self.used and same(self.facts, e.old, g.pos):
                    how = ('eof', e)
                    self.used.add(id(e))
                    break
            if how is None:
                slot = self.slot(g.pos)
                if slot is not None:
                    er = [e for e in self.erase if id(e) not in self.used and same(self.facts, e.idx, slot.a[1])]
                    sh = [e for e in self.shrink if id(e) not in self.used and e.loc.a[0] is slot]
                    if er:
                        how = ('erase', slot, er[0])
                        self.used.add(id(er[0]))
                    elif sh:
                        how = ('shrink', slot, sh)
                        self.used.update(id(e) for e in sh)
                    else:
                        how = ('kept', slot)
            if how is None and i + 1 < len(self.segs) and self.segs[i + 1].marker == END and same(self.facts, self.segs[i + 1].pos, g.end()) \
                    and isc(g.pos):
                how = ('initial',)
            self.account[g] = how

    def slot(self, pos):
        """The free-list element whose start this position is."""
        pos = self.facts.subst(pos)
        for t in (pos,):
            x = t
            # the value of a field of an element of the free list, before this stretch changed it
            if x.op in ('init', 'sel', 'at', 'fld'):
                f = x.a[1] if x.op in ('sel', 'fld') else None
                for e in self.shrink:
                    if e.old is x and e.loc.a[1] == 'sof':
                        return e.loc.a[0]
                b = x.a[0]
                if x.op == 'sel' and f == 'sof' and b.op == 'at':
                    return mk('el', M('fragments'), b.a[1])
                if x.op == 'init' and b.op == 'fld' and b.a[1] == 'sof' and b.a[0].op == 'el' and b.a[0].a[0] is M('fragments'):
                    return b.a[0]
        return None

    def length_of(self, slot):
        """Recorded length of a free-list element before this stretch."""
        for e in self.evs:
            if e.k == 'fragw' and e.loc.op == 'fld' and e.loc.a[0] is slot and e.loc.a[1] == 'length':
                return e.old
        return None


class Removal:
    """A segment whose marker is overwritten by EMPTY: pos, and the events that account for it."""

    def __init__(self, L, g):
        self.g, self.pos, self.ev = g, g.pos, g.ev
        D = lambda x, y: same(L.facts, x, y)
        self.lengths = [e for e in L.evs if e.k == 'sread' and e.bits is c(64) and D(e.pos, add(g.pos, c(8)))]
        self.push = [e for e in L.evs if e.k == 'push' and e.c is M('fragments') and e.v and D(e.v['sof'], g.pos)]
        self.index = [e for e in L.evs if e.k == 'maperase' and e.m in (M('blob_map'), M('mstate_map')) and D(e.pos, g.pos)] + \
                     [e for e in L.evs if e.k == 'trie' and e.op == 'erase' and D(e.sof, g.pos)]

    def length_ok(self, L):
        """The recorded length is the one stored in the segment."""
        if not self.push:
            return False
        l = self.push[0].v['length']
        if self.g.kind == 'rest' and not same(L.facts, self.g.length, l):
            return False
        return any(same(L.facts, e.val, l) for e in self.lengths)


def removals(L):
    r = []
    for g in L.segs:
        if g.marker != EMPTY:
            continue
        if g.kind == 'rest' and any(e.loc.a[1] == 'sof' and same(L.facts, e.new, g.pos) for e in L.shrink):
            continue
        r.append(Removal(L, g))
    return r
