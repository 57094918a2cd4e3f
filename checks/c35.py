"""Two abstract interpretations of the conversion helpers. In the bit-dependence domain every number is a row of bits and every bit
an exclusive or of input bits; the helper and its inverse are analysed one after the other and each bit of the result must be the
same bit of the original. Inputs are partitioned so that control flow is decided: by length for the buffers and the password, by
the position of the highest set bit for the Elias code. The unary code has no such partition: its loops are summarised for every
number. Undefined shifts, elements outside a buffer, values that were never set and loops without end are reported on the way."""
TECHNIQUE = 'abstract interpretation in a bit-dependence domain, loop summaries for the unary code'
NOTE = 'Elias code: all 64-bit numbers. Buffers: all contents of every length up to 40, passwords up to 40 characters (longer ones repeat the same rounds, with period 4 and 8).'

from hz import archive, prog, engine, bits
from hz.extract import VERIF
from hz.terms import *

UNITS = [(VERIF + '/drivers/headers.cpp', 'cpu')]
LENGTHS = range(0, 41)


def guard(ctx, rule, f, what, run):
    """Runs an interpretation; a fault of the analysed code is a violation."""
    try:
        return run(), True
    except bits.Fault as x:
        ctx.ob('defined', what, False, f.rel, f.q, x.line, x.what + ' (%s)' % what)
    except bits.Raised as x:
        ctx.ob('defined', what, False, f.rel, f.q, f.line, 'raises (%s)' % what)
    return None, False


def same(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def bytes_sym(n):
    return [bits.sym('byte%d' % i, 8) for i in range(n)]


def numbers(ctx, p, I):
    w, r = p.one('hz_u64_to_u8buf'), p.one('hz_u8buf_to_u64')
    x = bits.sym('x', 64)
    buf = bits.array([None] * 8)
    _, ok = guard(ctx, 'inverse', w, 'number to bytes', lambda: I.run(w, [x, bits.Ptr(buf)]))
    if ok:
        back, ok = guard(ctx, 'inverse', r, 'bytes to number', lambda: I.run(r, [bits.Ptr(buf)]))
        if ok:
            bad = [i for i in range(64) if back[i] != x[i]]
            ctx.ob('inverse', '64-bit number through 8 bytes', not bad, r.rel, r.q, r.line, 'bits %s of a number are not restored from its bytes' % bad[:8], detail='u64')
    src = bytes_sym(8)
    buf = bits.array([None] * 8)
    y, ok = guard(ctx, 'inverse', r, 'bytes to number', lambda: I.run(r, [bits.Ptr(bits.array(src))]))
    if ok:
        _, ok = guard(ctx, 'inverse', w, 'number to bytes', lambda: I.run(w, [y, bits.Ptr(buf)]))
        if ok:
            bad = [i for i in range(8) if buf.cells[i].v is None or not same(buf.cells[i].v, src[i])]
            ctx.ob('inverse', '8 bytes through a number', not bad, w.rel, w.q, w.line, 'bytes %s are not restored from the number they denote' % bad, detail='u8')


def words(ctx, p, I):
    to, frm = p.one('hz_u8_to_u32ptr'), p.one('hz_u32_to_u8ptr')
    for n in LENGTHS:
        src = bytes_sym(n)
        n32 = (n + 3) // 4
        what = '%d bytes to words' % n
        ws, ok = guard(ctx, 'inverse', to, what, lambda: I.run(to, [bits.Ptr(bits.array(src)), bits.const(n, 64)]))
        if not ok:
            continue
        cells = ws.arr.cells if ws is not None else []
        unset = [i for i in range(min(n32, len(cells))) if cells[i].v is None]
        ctx.ob('inverse', what, len(cells) == n32 and not unset, to.rel, to.q, to.line, '%d bytes become %d words%s, not %d' % (n, len(cells), ', word %s is never set' % unset if unset else '', n32), detail='words')
        if len(cells) < n32 or unset:
            continue
        out, ok = guard(ctx, 'inverse', frm, '%d words to bytes' % n32, lambda: I.run(frm, [ws, bits.const(n32, 64)]))
        if ok:
            o = out.arr.cells if out is not None else []
            bad = [i for i in range(n) if i >= len(o) or o[i].v is None or not same(o[i].v, src[i])]
            ctx.ob('inverse', '%d bytes through words' % n, not bad, to.rel, to.q, to.line, 'bytes %s of %d are not restored from the words' % (bad[:8], n), detail='bytes-words')
    for n in LENGTHS:
        src = [bits.sym('word%d' % i, 32) for i in range(n)]
        out, ok = guard(ctx, 'inverse', frm, '%d words to bytes' % n, lambda: I.run(frm, [bits.Ptr(bits.array(src)), bits.const(n, 64)]))
        if not ok:
            continue
        o = out.arr.cells if out is not None else []
        if not ctx.ob('inverse', '%d words to bytes' % n, len(o) == 4 * n and all(x.v is not None for x in o), frm.rel, frm.q, frm.line, '%d words become %d bytes, %d of them set' % (n, len(o), sum(x.v is not None for x in o)), detail='bytes'):
            continue
        back, ok = guard(ctx, 'inverse', to, '%d bytes to words' % (4 * n), lambda: I.run(to, [out, bits.const(4 * n, 64)]))
        if ok:
            b = back.arr.cells if back is not None else []
            bad = [i for i in range(n) if i >= len(b) or b[i].v is None or not same(b[i].v, src[i])]
            ctx.ob('inverse', '%d words through bytes' % n, not bad, to.rel, to.q, to.line, 'words %s of %d are not restored from their bytes' % (bad[:8], n), detail='words-bytes')


def token(ctx, p, I):
    f = p.one('hz_enc_token')
    x = bits.sym('x', 64)
    for n in LENGTHS:
        pwd = lambda: bits.Ptr(bits.array([bits.sym('pwd%d' % i, 8) for i in range(n)]))
        y, ok = guard(ctx, 'inverse', f, 'token under %d characters' % n, lambda: I.run(f, [pwd(), x]))
        if not ok:
            continue
        z, ok = guard(ctx, 'inverse', f, 'token under %d characters' % n, lambda: I.run(f, [pwd(), y]))
        if ok:
            ctx.ob('inverse', 'token under %d characters' % n, same(z, x), f.rel, f.q, f.line, 'encrypting a token twice under a password of %d characters does not restore it' % n, detail='token')
            used = {a[0] for b in y for a in b if isinstance(a, tuple)}
            ctx.ob('inverse', 'token depends on the password', n == 0 or len(used) > 1, f.rel, f.q, f.line, 'the token does not depend on the password', detail='password')


def elias(ctx, p, I):
    w, r = p.one('hz_elias_gamma'), p.one('hz_elias_gamma_inv')
    lg = p.one('hz_u64log2')
    for top in range(-1, 64):
        n = tuple(('x' if i < top else 'y') and (frozenset((('n', i),)) if i < top else bits.I1 if i == top else bits.O) for i in range(64))
        what = 'zero' if top < 0 else 'numbers of %d bits' % (top + 1)
        v, ok = guard(ctx, 'inverse', lg, 'logarithm of ' + what, lambda: I.run(lg, [n]))
        if ok:
            ctx.ob('inverse', 'logarithm of ' + what, bits.value(v) == max(top, 0), lg.rel, lg.q, lg.line, 'the logarithm of %s is given as %s' % (what, bits.value(v)), detail='log')
        b, ok = guard(ctx, 'inverse', w, 'Elias code of ' + what, lambda: I.run(w, [n]))
        if not ok:
            continue
        obj, ln = b.f['obj'].v, bits.value(b.f['n'].v)
        if not ctx.ob('width', what, ln is not None and ln <= 64, w.rel, w.q, w.line, 'the Elias code of %s has %s bits, which its result cannot hold' % (what, ln), detail='long' if top >= 31 else 'width'):
            continue
        stream = list(reversed(obj[:ln]))
        pos = [0]

        def read(cnt):
            k = bits.value(cnt)
            if k is None:
                raise bits.Undecided('the number of bits read is not known')
            if pos[0] + k > ln:
                raise bits.Fault('%d bits are read from a code of %d bits' % (pos[0] + k, ln), r.line)
            v = stream[pos[0]:pos[0] + k]
            pos[0] += k
            return tuple(reversed(v)) + (bits.O,) * (64 - k)
        o, ok = guard(ctx, 'inverse', r, 'Elias code of %s read back' % what, lambda: I.run(r, [read]))
        if ok:
            ctx.ob('inverse', 'Elias code of ' + what, same(o.f['obj'].v, n), r.rel, r.q, r.line, 'the Elias code of %s is read back as another number' % what, detail='elias')
            ctx.ob('consume', 'Elias code of ' + what, pos[0] == ln, r.rel, r.q, r.line, 'reading the Elias code of %s takes %d bits of the %d that were written' % (what, pos[0], ln), detail='elias')


class Client(engine.Client):
    keep_loops = True

    def opaque(self, I, e, name, st, obj, args, fr, out):
        I.emit(st, 'io', e, fr, args=tuple(args), obj=obj)
        return ()


def unary(ctx, p):
    w, r = p.one('hz_unary_write'), p.one('hz_unary_read')
    ctx.analysed(w, r)
    I = engine.Interp(p, Client())
    n = mk('init', mk('obj', 'arg:' + w.params[0]['n']))

    def positive(st):
        n.nn = True
        st.facts.assume(le(ONE, n), True)      # the code has no word for zero
    for kind, s, v in I.run(w, setup=positive):
        evs = s.events()
        at = dict(file=w.rel, func=w.q, line=w.line, path=archive.pathdesc(evs))
        ones, bad, zero = ZERO, False, False
        for e in evs:
            if e.k == 'loop':
                for kd, b, st in e.body:
                    ios = [x for x in b if x.k == 'io']
                    if kd != 'cont' or len(ios) != 1 or not one_bit(st, ios[0], 1):
                        bad = True
                ones = add(ones, e.trips)
                bad = bad or zero
            elif e.k == 'io':
                if one_bit(s, e, 1):
                    ones = add(ones, ONE)
                    bad = bad or zero
                elif one_bit(s, e, 0):
                    bad = bad or zero
                    zero = True
                else:
                    bad = True
        ctx.ob('consume', 'unary writer: n-1 ones and a zero', kind == 'r' and not bad and zero and s.facts.decide(eq(add(ones, ONE), n)) is True,
               msg='the unary code of n is not n-1 ones and a zero', detail='unary-write', **at)
    I = engine.Interp(p, Client())
    for kind, s, v in I.run(r):
        evs = s.events()
        at = dict(file=r.rel, func=r.q, line=r.line, path=archive.pathdesc(evs))
        ones, bad, zero = ZERO, False, False
        for e in evs:
            if e.k == 'loop':
                for kd, b, st in e.body:
                    ios = [x for x in b if x.k == 'io']
                    if kd != 'cont':
                        continue
                    if len(ios) != 1 or not reads(ios[0]):
                        bad = True
                ones = add(ones, e.trips)
            elif e.k == 'io':
                bad = bad or zero or not reads(e)
                zero = True
        ctx.ob('consume', 'unary reader: up to the first zero', kind == 'r' and not bad and zero and isinstance(v, T) and s.facts.decide(eq(v, add(ones, ONE))) is True,
               msg='the unary reader does not return one more than the number of ones before the first zero', detail='unary-read', **at)


def one_bit(s, e, v):
    a = [x for x in e.args if isinstance(x, T)]
    return len(a) == 2 and a[0] is c(v) and a[1] is ONE


def reads(e):
    a = [x for x in e.args if isinstance(x, T)]
    return len(a) == 1 and a[0] is ONE


def run(ctx):
    ctx.rule('inverse', 'a conversion followed by its inverse restores every bit', 100)
    ctx.rule('width', 'a code fits in the word that returns it', 32)
    ctx.rule('consume', 'the reader of a code takes exactly the bits that its writer emits', 30)
    ctx.rule('defined', 'no undefined shift, no element outside a buffer, no unset value, no endless loop', 0)
    p = prog.load(UNITS)
    ctx.program(p)
    I = bits.Interp(p)
    numbers(ctx, p, I)
    words(ctx, p, I)
    token(ctx, p, I)
    elias(ctx, p, I)
    ctx.analysed(*I.fns)
    unary(ctx, p)
