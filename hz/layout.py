"""Layouts of archive segments as their writers produce them, and matching of readers against them."""
from . import archive, segments
from .segments import HDR, same
from .terms import *
from .archive import M
from .extract import AnalysisError


def role(t):
    """What a written value is: the name of the member or argument it comes from."""
    if t.op in ('u', 'trunc'):
        return role(t.a[1] if t.op == 'u' else t.a[-1])
    if t.op == 'plen':
        r = role(t.a[0])
        return 'len:' + r if r else None
    if t.op == 'len':
        r = role(t.a[0])
        return 'len:' + r if r else None
    if t.op == 'sel':
        return t.a[1]
    if t.op == 'at':
        r = role(t.a[0])
        return r + '[]' if r else None
    if t.op in ('init', 'mem', 'ptr', 'el'):
        return role(t.a[0])
    if t.op == 'fld':
        return t.a[1]
    if t.op == 'obj':
        n = str(t.a[0])
        return n[4:].lstrip('_') if n.startswith('arg:') else None
    return None


class Field:
    def __init__(self, off, bits, role, val=None, count=None, ev=None):
        self.off, self.bits, self.role, self.val, self.count, self.ev = off, bits, role, val, count, ev

    def sig(self):
        return (self.bits.a[0] if isc(self.bits) else show(self.bits), self.role, self.count is not None)


class Layout:
    """Fields after the header: offsets are relative to the marker and symbolic in the counts."""

    def __init__(self, marker, sub, fields, length, where):
        self.marker, self.sub, self.fields, self.length, self.where = marker, sub, fields, length, where

    def name(self):
        return segments.NAMES[self.marker] + ('' if self.sub is None else '/%d' % self.sub)


def of_segment(L, g, created=()):
    """created: (term, role) for identifiers made by the operation."""
    fs = []
    sub = None
    names = dict(created)
    for i, it in enumerate(g.items[2:]):
        off = L.facts.subst(_sub(it.pos, g.pos))
        if it.body is None:
            v = L.facts.subst(it.val)
            r = names.get(v) or names.get(it.val)
            if r is None and isc(v):
                r = 'const:%d' % v.a[0]
            if r is None:
                r = role(it.val)
            if i == 0 and g.marker == segments.METADATA and isc(v):
                sub = v.a[0]
            fs.append(Field(off, it.bits, r, it.val, None, it.ev))
        else:
            if len(it.body) != 1:
                inner = [x for x in it.body]
                r = '+'.join(str(role(x.val) if x.val is not None else '?') for x in inner)
                fs.append(Field(off, it.total, r, None, it.trips, it.ev))
                continue
            x = it.body[0]
            fs.append(Field(off, x.bits, role(x.val) if x.val is not None else None, x.val, it.trips, it.ev))
    # a count is the scalar that equals the number of elements of a following array
    for f in fs:
        if f.count is not None:
            for h in fs:
                if h.count is None and h.val is not None and same(L.facts, h.val, f.count):
                    h.role = 'count:' + (f.role or '?')
                    f.counted = h
                    break
            else:
                f.counted = None
    return Layout(g.marker, sub, fs, g.length, g.ev)


def _sub(a, b):
    return sub(a, b)


class Reader:
    """Matches the reads of one stretch of a path against a layout."""

    def __init__(self, I, layout, base, facts):
        self.I, self.lay, self.base, self.facts = I, layout, base, facts
        self.vals = {}        # role -> (value read, event)
        self.problems = []
        self.bind = []        # (writer count term, reader value)
        self.length = None
        self.fields = list(layout.fields)

    def rel(self, t):
        """Writer term in terms of what the reader has read."""
        for a, b in self.bind:
            t = self.I.substitute(t, a, b)
        return t

    def read(self, ev):
        off = sub(ev.pos, self.base)
        D = lambda x, y: self.facts.decide(eq(x, y)) is True
        if D(off, ZERO) and ev.bits is c(8):
            return
        if D(off, c(8)):
            if ev.bits is not c(64):
                self.problems.append((ev, 'width', 'reads %s bits of the 64-bit length' % show(ev.bits)))
            self.length = ev.val
            return
        for f in self.fields:
            if f.count is None and D(off, self.rel(f.off)):
                if f.bits is not ev.bits:
                    self.problems.append((ev, 'width', 'reads %s bits where the writer stored %s as %s bits' % (show(ev.bits), f.role, show(f.bits))))
                self.vals[f.role] = (ev.val, ev)
                if f.role and f.role.startswith('count:'):
                    for g in self.fields:
                        if g.count is not None and getattr(g, 'counted', None) is f:
                            self.bind.append((g.count, ev.val))
                return
        self.problems.append((ev, 'position', 'reads at offset %s of a %s segment, where no field of the written layout begins' % (show(off), self.lay.name())))

    def loop(self, ev):
        """A loop that reads the elements of an array."""
        for kind, body, s in ev.body:
            if kind != 'cont':
                continue
            rs = [x for x in body if x.k == 'sread']
            if not rs:
                continue
            k = ev.kvar
            stride = ZERO
            for x in rs:
                stride = add(stride, x.bits)
            start = sub(rs[0].pos, mul(k, stride))
            off = sub(start, self.base)
            D = lambda x, y: self.facts.decide(eq(x, y)) is True
            for f in self.fields:
                if f.count is not None and D(off, self.rel(f.off)):
                    if not D(stride, f.bits) or len(rs) != 1:
                        self.problems.append((rs[0], 'width', 'reads elements of %s bits where the writer stored %s in %s bits each' % (show(stride), f.role, show(f.bits))))
                    elif not ev.get('exact') or not D(ev.trips, self.rel(f.count)):
                        self.problems.append((rs[0], 'count', 'reads %s elements of %s where the writer stored %s' % (show(ev.trips) if ev.get('exact') else 'an unknown number of', f.role, show(self.rel(f.count)))))
                    self.vals[f.role] = (rs[0].val, ev)
                    break
            else:
                self.problems.append((rs[0], 'position', 'reads elements at offset %s of a %s segment, where no array of the written layout begins' % (show(off), self.lay.name())))

    def run(self, evs):
        for ev in evs:
            if ev.k == 'sread':
                self.read(ev)
            elif ev.k == 'loop' and any(x.k == 'sread' for k, b, s in ev.body for x in b) and segments.writes_only(ev) is None:
                if any(x.k in ('sseekto', 'swrite') for k, b, s in ev.body for x in b):
                    continue
                self.loop(ev)
        return self


def writers(ctx, p):
    """Every layout written by a public operation, by kind; differing layouts of a kind are violations."""
    r = {}
    for f in archive.publics(p):
        I, outs = archive.run(p, f)
        for kind, st, v in outs:
            for evs, s, k, loop in segments.levels(st.events(), st):
                L = segments.Level(evs, s, k, loop)
                for g in L.segs:
                    if g.kind != 'seg':
                        continue
                    made = []
                    for e in evs:
                        if e.k == 'mapins' and e.m in (M('blob_map'), M('mstate_map')):
                            made.append((e.key, 'id' if (e.m is M('blob_map')) == (g.marker == segments.BLOB) else 'mstate'))
                    lay = of_segment(L, g, made)
                    key = (lay.marker, lay.sub)
                    sig = tuple(x.sig() for x in lay.fields)
                    if key not in r:
                        r[key] = (lay, sig, f)
                        if ctx:
                            ctx.ob('one-layout', '%s: %s' % (lay.name(), ', '.join('%s:%s%s' % (x.role, x.bits, '*n' if x.count is not None else '') for x in lay.fields)))
                    elif ctx:
                        def loose(a, b):
                            return len(a) == len(b) and all(x[0] == y[0] and x[2] == y[2] for x, y in zip(a, b))
                        ctx.ob('one-layout', None, loose(sig, r[key][1]), g.ev.file, g.ev.fn, g.ev.line,
                               'a %s segment is written with another layout than at %s' % (lay.name(), r[key][0].where.at()), archive.pathdesc(evs))
    return {k: v[0] for k, v in r.items()}
