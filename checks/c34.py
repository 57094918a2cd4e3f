"""Abstract interpretation of the zig-zag iterator over a complete partition of its positions: each coordinate is zero, odd or even,
and at the last column or row or before it, for grids of symbolic size. In each class the step must be decided and must lead to the
neighbour on the same anti-diagonal, to the first cell of the next one at the rim, or from the last cell to the end; that successor
map visits every cell once. Construction, comparison, dereferencing, pre- and post-increment, begin and end are checked on the same
classes, and begin for grids without cells."""
TECHNIQUE = 'abstract interpretation of the successor function over a partition of all positions'
NOTE = 'All widths and heights from 1; coordinates are 32-bit and the grid is assumed to have fewer than 2^32 rows and columns.'

from hz import archive, prog, engine
from hz.extract import VERIF
from hz.terms import *

UNITS = [(VERIF + '/drivers/headers.cpp', 'cpu')]
Z = 'hztrans::ZigZagTransformer'
IT = Z + '::const_iterator'


def positions():
    """(name, x, y, w, h) for every class of positions of a non-empty grid."""
    def axis(tag):
        a, r = mk('sym', 'half:' + tag, 0), mk('sym', 'rest:' + tag, 0)
        a.nn = r.nn = True
        for n, v in (('0', ZERO), ('odd', add(scale(a, 2), ONE)), ('even', add(scale(a, 2), c(2)))):
            yield n, False, v, add(add(v, r), c(2))
            yield n, True, v, add(v, ONE)
    for nx, lx, x, w in axis('x'):
        for ny, ly, y, h in axis('y'):
            odd = (nx == 'odd') != (ny == 'odd')
            if lx and ly:
                e, d = (w, h), 'the end'
            elif odd:
                e, d = ((add(x, ONE), y), 'the next cell of the last row') if ly else ((x, add(y, ONE)), 'the next cell of the first column') if nx == '0' else \
                    ((sub(x, ONE), add(y, ONE)), 'the next cell down the diagonal')
            else:
                e, d = ((x, add(y, ONE)), 'the next cell of the last column') if lx else ((add(x, ONE), y), 'the next cell of the first row') if ny == '0' else \
                    ((add(x, ONE), sub(y, ONE)), 'the next cell up the diagonal')
            yield 'x %s%s, y %s%s' % (nx, ' (last)' if lx else '', ny, ' (last)' if ly else ''), x, y, w, h, e, d, lx and ly


def same(s, a, b):
    return s.facts.decide(eq(a, b)) is True


def resume(prev):
    def setup(st):
        if prev is not None:
            st.mem.update(prev.mem)
            st.facts = prev.facts.copy()
    return setup


class Machine:
    def __init__(self, p, ctx):
        self.p, self.ctx = p, ctx
        self.I = engine.Interp(p, engine.Client())
        self.n = 0

    def obj(self):
        self.n += 1
        return mk('obj', 'zz%d' % self.n)

    def call(self, f, st, this=None, args=()):
        self.ctx.analysed(f)
        return self.I.run(f, setup=resume(st), this=this, args=list(args))

    def xy(self, s, l):
        return tuple(s.facts.subst(self.I.load(s, self.I.fld(l, n))) for n in ('x', 'y'))

    def loc(self, v):
        return v.a[0] if v.op == 'ptr' else v


def run(ctx):
    ctx.rule('step', 'from every cell the iterator moves to its successor in zig-zag order, from the last cell to the end', 36)
    ctx.rule('value', 'dereferencing gives the position; pre-increment gives the new and post-increment the old one', 36)
    ctx.rule('compare', 'iterators are equal exactly if their positions are', 2)
    ctx.rule('begin', 'a traversal starts at the first cell, or at the end if there is none', 2)
    p = prog.load(UNITS)
    ctx.program(p)
    m = Machine(p, ctx)
    I = m.I
    by = lambda q, n: [f for f in p.fn(q) if len(f.params) == n and not f.d.get('implicit')]
    inc = p.fn(IT + '::operator++')
    pre, post = [f for f in inc if not f.params], [f for f in inc if f.params]
    deref, same_, differ = by(IT + '::operator*', 0)[0], by(IT + '::operator==', 1)[0], by(IT + '::operator!=', 1)[0]
    ctor = [f for f in p.fns.values() if f.kind == 'ctor' and f.cq == Z and len(f.params) == 2][0]
    begin, end = p.one(Z + '::begin'), p.one(Z + '::end')
    make = [f for f in p.fns.values() if f.kind == 'ctor' and f.cq == IT and len(f.params) == 3][0]

    def grid(w, h):
        """States with a transformer of that size."""
        g = m.obj()
        return [(g, s) for k, s, v in m.call(ctor, None, g, [w, h])]

    def at(s, x, y, w, h):
        it, pr = m.obj(), m.obj()
        s = s.copy()
        s.mem[I.fld(pr, 'x')], s.mem[I.fld(pr, 'y')] = x, y
        return [(it, s2) for k, s2, v in m.call(make, s, it, [pr, w, h])]

    def place(f):
        return dict(file=f.rel, func=f.q, line=f.line)

    for name, x, y, w, h, (ex, ey), where, last in positions():
        for g, s0 in grid(w, h):
            for it, s1 in at(s0, x, y, w, h):
                for k, s, v in m.call(deref, s1, it):
                    ok = k == 'r' and isinstance(v, T) and all(same(s, a, b) for a, b in zip(m.xy(s, m.loc(v)), (x, y)))
                    ctx.ob('value', 'dereference at %s' % name, ok, msg='dereferencing an iterator does not give its position (%s)' % name, detail='deref', **place(deref))
                for f in pre + post:
                    outs = m.call(f, s1, it, [ZERO] if f.params else [])
                    for k, s, v in outs:
                        tr = archive.pathdesc(s.events())
                        if k != 'r':
                            ctx.ob('step', name, False, msg='the iterator raises at %s' % name, path=tr, **place(f))
                            continue
                        got = m.xy(s, it)
                        ok = all(same(s, a, b) for a, b in zip(got, (ex, ey)))
                        ctx.ob('step', '%s goes to %s' % (name, where), ok, path=tr, detail=where,
                               msg='from x=%s, y=%s of a grid of %s by %s the traversal goes to (%s, %s), not to %s' % (show(x), show(y), show(w), show(h), show(got[0]), show(got[1]), where), **place(f))
                        want = (x, y) if f.params else (ex, ey)
                        r = m.xy(s, m.loc(v))
                        ctx.ob('value', '%s-increment at %s' % ('post' if f.params else 'pre', name), all(same(s, a, b) for a, b in zip(r, want)), path=tr, detail='post' if f.params else 'pre',
                               msg='the %s-increment gives (%s, %s)' % ('post' if f.params else 'pre', show(r[0]), show(r[1])), **place(f))
                        for o, s5 in at(s, want[0], want[1], w, h):
                            for k6, s6, t in m.call(same_, s5, m.loc(v), [o]):
                                ctx.ob('value', 'the result of an increment equals the iterator at its position', isinstance(t, T) and s6.facts.decide(truth(t)) is True, path=tr, detail='post==' if f.params else 'pre==',
                                       msg='the iterator given by the %s-increment does not compare equal to one at the position it shows' % ('post' if f.params else 'pre'), **place(f))
                        # the moved iterator still knows its grid and position
                        for k2, s2, v2 in m.call(deref, s, it):
                            r = m.xy(s2, m.loc(v2))
                            ctx.ob('value', 'dereference after a step', all(same(s2, a, b) for a, b in zip(r, (ex, ey))), detail='moved', msg='after a step the iterator does not give its position', path=tr, **place(f))
                        for k2, s2, e2 in m.call(end, s, g):
                            e2 = m.loc(e2)
                            for cmp, yes in ((same_, True), (differ, False)):
                                for k3, s3, t in m.call(cmp, s2, it, [e2]):
                                    d = s3.facts.decide(truth(t)) if isinstance(t, T) else None
                                    ctx.ob('compare', '%s the end after %s' % ('equals' if yes else 'differs from', name), d is (last if yes else not last), path=tr, detail='end',
                                           msg='after %s the iterator %s the end' % ('the last cell' if last else 'a cell before the last one', 'does not equal' if last else 'equals'), **place(cmp))
                        # a second step must use the same grid
                        if not last and f is (pre + post)[0]:
                            for fld in ('width', 'height'):
                                want2 = w if fld == 'width' else h
                                if any(fd['n'] == fld for fd in p.rec(IT).get('fields', [])):
                                    ctx.ob('value', 'the step keeps the grid', same(s, I.load(s, I.fld(it, fld)), want2), msg='a step changes the size of the grid', detail='grid', path=tr, **place(f))
    # comparison of two positions of one grid
    syms = [mk('sym', n, 0) for n in ('x1', 'y1', 'x2', 'y2', 'w', 'h')]
    for t in syms:
        t.nn = True
    x1, y1, x2, y2, w, h = syms
    for g, s0 in grid(w, h):
        for a, s1 in at(s0, x1, y1, w, h):
            for b, s2 in at(s1, x2, y2, w, h):
                for cmp, yes in ((same_, True), (differ, False)):
                    for k, s, t in m.call(cmp, s2, a, [b]):
                        for s3, d in I.split(s, truth(t)):
                            e1, e2 = s3.facts.decide(eq(x1, x2)), s3.facts.decide(eq(y1, y2))
                            ok = (e1 is True and e2 is True) if d is yes else (e1 is False or e2 is False)
                            ctx.ob('compare', 'equality is equality of both coordinates', ok, msg='the comparison of two iterators does not compare both coordinates', detail='coordinates', **place(cmp))
    # begin and end
    r1, r2 = mk('sym', 'wider', 0), mk('sym', 'taller', 0)
    r1.nn = r2.nn = True
    for name, w, h, empty in (('0 by 0', ZERO, ZERO, True), ('0 by h', ZERO, add(r2, ONE), True), ('w by 0', add(r1, ONE), ZERO, True), ('w by h', add(r1, ONE), add(r2, ONE), False)):
        for g, s0 in grid(w, h):
            for k1, s1, b in m.call(begin, s0, g):
                if k1 != 'r':
                    ctx.ob('begin', name, False, msg='begin raises', **place(begin))
                    continue
                b = m.loc(b)
                got = m.xy(s1, b)
                if not empty:
                    ctx.ob('begin', name, all(same(s1, t, ZERO) for t in got), msg='the traversal of a grid starts at (%s, %s)' % tuple(map(show, got)), detail='first', **place(begin))
                for k2, s2, e in m.call(end, s1, g):
                    for k3, s3, t in m.call(differ, s2, b, [m.loc(e)]):
                        d = s3.facts.decide(truth(t))
                        ctx.ob('begin', '%s: begin %s end' % (name, 'is' if empty else 'is not'), d is (not empty), msg='for a grid of %s begin %s end' % (name, 'is not' if empty else 'is'), detail='end', **place(begin))
                        if empty is False:
                            for fld in ('width', 'height'):
                                if any(fd['n'] == fld for fd in p.rec(IT).get('fields', [])):
                                    ctx.ob('begin', 'begin knows the grid', same(s1, I.load(s1, I.fld(b, fld)), w if fld == 'width' else h), msg='the first iterator has another %s than the grid' % fld, detail='grid', **place(begin))
