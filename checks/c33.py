"""Abstract interpretation of the delta transform and its inverse for an array of symbolic length. The loops are summarised by the
position each round stores to, the value it stores in terms of the values at the start of the round, and the direction of travel,
from which it follows whether a neighbour that is read still has its old or already its new value. The transform must subtract (or
add) the old left neighbour at every position but the first, the inverse must add (or subtract) the restored left neighbour, and
every access must lie inside the array for every length, zero included."""
TECHNIQUE = 'abstract interpretation with loop summaries: order and range of in-place updates'
NOTE = 'Holds for every length and every value (arithmetic modulo 2^32); the program needs no bound on the array.'

from hz import archive, prog, engine, sweep
from hz.terms import *

UNITS = [('src/hzip_core/preprocessor/delta.cpp', 'cpu')]
CQ = 'hztrans::DeltaTransformer'
TH = mk('obj', 'delta')


class Client(engine.Client):
    keep_loops = True

    def on_write(self, I, st, loc, v, e, fr):
        if loc.op == 'el' and v is not None:
            I.emit(st, 'w', e, fr, loc=loc, new=v)

    def on_read(self, I, st, loc, e, fr):
        if loc.op == 'el':
            I.emit(st, 'rd', e, fr, loc=loc)

    def on_wrap(self, I, st, e, t, fr):
        I.emit(st, 'wrap', e, fr, t=t)


def element(v):
    """(array, index) if v is an element of an array."""
    if v.op == 'u':
        v = v.a[-1]
    if v.op == 'at':
        return v.a[0], v.a[1]
    if v.op == 'init' and v.a[0].op == 'el':
        return v.a[0].a
    return None


def describe(I, ctx, f, role):
    """+1 or -1: the sign with which the left neighbour enters the result, or None."""
    outs = I.run(f, this=TH)
    ctx.analysed(f)
    signs = set()
    n = I.load(engine.State(), I.fld(TH, 'length'))
    for kind, s, v in outs:
        evs = s.events()
        trace = archive.pathdesc(evs)
        at = dict(file=f.rel, func=f.q, line=f.line, path=trace)
        ctx.ob('total', '%s returns' % f.q, kind == 'r', msg='the transform can raise', **at)
        loops = [e for e in evs if e.k == 'loop' and any(x.k == 'w' for b in e.body for x in b[1])]
        wr = [e for e in evs if e.k == 'w']
        for e, lo in archive.flat(evs):
            if e.k == 'wrap' and (lo[-1][2] if lo else s).facts.decide(le(ZERO, e.t)) is not True and (not lo or lo[-1][1] == 'cont') and not (not lo and loops and evs.index(e) > evs.index(loops[-1])):
                ctx.ob('range', '%s: index %s' % (f.q, show(e.t)), False, e.file, f.q, e.line, 'the index computation %s wraps around for a short array' % show(e.t), trace)
            if e.k in ('w', 'rd') and e.loc.op == 'el' and lo:
                st = lo[-1][2]
                ctx.ob('range', '%s: %s %s' % (f.q, e.k, show(e.loc)), sweep.inside(st, e.loc.a[1], ZERO, n), e.file, f.q, e.line, 'element %s may lie outside the array' % show(e.loc.a[1]), archive.pathdesc(lo[-1][0].body[0][1]))
        if not loops:
            # nothing to do: only right for arrays of at most one element
            ctx.ob('covers', '%s: nothing done' % f.q, s.facts.decide(le(n, ONE)) is True and not wr, msg='an array of more than one element is left as it is', **at)
            continue
        if len(loops) != 1 or wr:
            ctx.ob('covers', '%s: one pass' % f.q, False, msg='the array is not changed in exactly one pass', **at)
            continue
        ev = loops[0]
        car = sweep.carried(ev)
        for st, s0, body in sweep.conts(ev):
            ws = [x for x in body if x.k == 'w']
            lat = dict(file=ev.file, func=f.q, line=ev.line, path=archive.pathdesc(body))
            if not ctx.ob('covers', '%s: each round changes one element' % f.q, len(ws) == 1, msg='a round of the loop changes %d elements' % len(ws), detail='one', **lat):
                continue
            w = ws[0].loc.a[1]
            d = sweep.coeff(w, ev.kvar)
            cov = sweep.covers(s, ev, w, ONE, n)
            ctx.ob('covers', '%s: elements 1 to n-1' % f.q, cov, msg='not every element but the first is changed exactly once', detail='all', **lat)
            # value stored = element +- left neighbour
            k, items = lin(ws[0].new)
            own = left = None
            newval = None
            for a, m in items:
                e = element(a)
                if e is not None and e[1] is w and m == 1:
                    own = a
                elif e is not None and e[1] is sub(w, ONE) and m in (1, -1):
                    left, newval, sign = a, d == 1, m
                elif a in car and m in (1, -1):
                    l, vals, pre = car[a]
                    v0 = st.mem.get(l)
                    ev0 = element(v0) if v0 is not None else None
                    if ev0 is not None and ev0[1] is w:
                        left, newval, sign = a, False, m
                    elif v0 is ws[0].new:
                        left, newval, sign = a, True, m
                    else:
                        left = None
                        break
                    if d != 1:
                        left = None
                else:
                    left = own = None
                    break
            ok = own is not None and left is not None and k == 0 and len(items) == 2
            if not ok and len(items) == 1 and element(items[0][0]) and element(items[0][0])[1] is w and s0.facts.decide(eq(w, ZERO)) is True:
                continue
            ctx.ob('inverse', '%s: element and left neighbour' % f.q, ok, msg='a round stores %s, which is not the element combined with its left neighbour' % show(ws[0].new), detail='form', **lat)
            if ok:
                want = role == 'invert'
                ctx.ob('inverse', '%s uses the %s neighbour' % (f.q, 'restored' if want else 'original'), newval is want,
                       msg='the %s uses the %s value of the left neighbour' % (role, 'new' if newval else 'old'), detail='order', **lat)
                signs.add(sign)
    return signs


def run(ctx):
    ctx.rule('range', 'every element that is read or written lies inside the array', 4)
    ctx.rule('covers', 'every element but the first is changed exactly once', 2)
    ctx.rule('inverse', 'the inverse undoes the combination with the left neighbour', 2)
    ctx.rule('total', 'neither direction can fail', 2)
    ctx.rule('array', 'both directions work on the array the transformer was given', 1)
    p = prog.load(UNITS)
    ctx.program(p)
    cls = [f for f in p.fns.values() if f.cq == CQ]
    signs = {}
    for name in ('transform', 'invert'):
        for f in p.fn(CQ + '::' + name):
            signs[name] = describe(engine.Interp(p, Client()), ctx, f, name)
            g = f
    ctx.ob('inverse', 'transform %s, invert %s' % (signs['transform'], signs['invert']), len(signs['transform']) == 1 and len(signs['invert']) == 1 and sum(signs['transform'] | signs['invert']) == 0 or
           not signs['transform'] and not signs['invert'], g.rel, g.q, g.line, 'the inverse does not undo the transform: the left neighbour enters with the signs %s and %s' % (signs['transform'], signs['invert']), detail='sign')
    for f in cls:
        if f.kind == 'ctor' and not f.d.get('implicit') and len(f.params) == 2:
            I = engine.Interp(p, Client())
            ctx.analysed(f)
            for kind, s, v in I.run(f, this=TH):
                a = [I.load(s, I.fld(TH, n)) for n in ('data', 'length')]
                ctx.ob('array', 'constructor', all(f.params[i]['n'] in show(x) and not lin(x)[0] for i, x in enumerate(a)), f.rel, f.q, f.line, 'the transformer does not keep the array and the length it is given')
