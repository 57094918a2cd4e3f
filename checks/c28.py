"""Every path of each operation of each codec is explored on an arbitrary block. On every path that returns, the result must be complete:
an element of its data at an arbitrary position has been written, the data is as long as the sizes say, the original size is that of the
input, the model state is there and, where the codec reads a model or a header back, has been filled in. Data that is passed through
must be passed through position by position. A path that has nothing to return must raise."""
TECHNIQUE = 'path exploration with symbolic array contents and lengths'
NOTE = 'All blocks, sizes and model states. What the transforms and the entropy coder compute is outside (C60, C61).'

from hz import codecs as cd
from hz.codecs import *
from hz.prog import walk


def run(ctx):
    ctx.rule('returns', 'an operation returns a result or raises', 9)
    ctx.rule('data', 'every byte of a result has been filled in', 4)
    ctx.rule('sizes', 'the sizes of a result are those of its data and its input', 6)
    ctx.rule('model', 'a result has a model state that was filled in', 4)
    ctx.rule('header', 'what the decompressor reads from the header, the compressor put there')
    p = cd.program(ctx)
    qs = cd.classes(p)
    if not qs:
        raise AnalysisError('no codecs')
    for q in qs:
        res = cd.explore(ctx, q)
        reads = False
        for r in res:
            I, s, f = r.I, r.s, r.f
            at = dict(file=f.rel, func=f.q, line=f.line, path=r.path())
            if r.kind == 't':
                ctx.ob('returns', r.op, True, **at)
                reads = reads or r.op == 'decompress' and False
                continue
            l = r.loc()
            ok = l is not None
            ctx.ob('returns', r.op, ok, msg='%s returns without a result' % r.op, **at)
            if not ok:
                continue
            j = mk('sym', 'j')
            j.nn = True
            I.nums.add(j)
            if r.op != 'train':
                D(ctx, r, 'size of the input', same(s, r.get('o_size'), (I.load(s, F(E0(BLOB), 'o_size')), mk('sym', 'bytes'), mk('sym', 'o_size'))), 'sizes', 'the original size of the result is %s, not that of the input' % sh(r.get('o_size')), at, 'o_size')
                d = r.get('data')
                o = array(I, d)
                D(ctx, r, 'data', o is not None, 'data', 'the result has no data', at, 'none')
                if o is None:
                    continue
                n = s.mem.get(F(o, '#n'))
                if n is None:
                    n = mk('plen', d)
                want = (r.get('size'),)
                ok = same(s, n, want)
                D(ctx, r, 'length of the data', ok, 'sizes', 'the data has %s bytes, its size is given as %s' % (sh(n), sh(want[0])), at, 'size')
                s2 = s.copy()
                s2.facts.assume(lt(j, n), True)
                x = I.load(s2, mk('el', o, j))
                ok = o is BYTES or x.op not in ('zero', 'uninit') and not (x.op == 'init' and x.a[0] is mk('el', o, j))
                raw = x
                while raw.op in ('trunc', 'conv') and isinstance(raw.a[-1], T):
                    raw = raw.a[-1]
                src = BYTES if o is BYTES else None
                if raw.op in ('at', 'init', 'el') and any(y is BYTES for y in flat(raw)):
                    ok2 = raw is I.load(s2, mk('el', BYTES, j)) or o is BYTES
                    D(ctx, r, 'bytes passed through', ok2, 'data', 'byte %s of the result is %s' % (show(j), show(x)), at, 'through')
                    # all of the input
                    N = I.load(s, F(E0(BLOB), 'o_size' if r.op == 'compress' else 'size'))
                    D(ctx, r, 'number of bytes passed through', same(s, n, (N,)), 'data', '%s of %s bytes of the input are passed through' % (sh(n), sh(N)), at, 'all')
                fl = I.fills.get(s.mem.get(o))
                if fl is not None and ok:
                    lo, hi = fl
                    ok = s.facts.decide(le(lo, ZERO)) is True and hi is not None and (same(s, hi, (n,)) or s.facts.decide(le(n, hi)) is True)
                    msg = 'only the bytes from %s to %s of %s are set' % (sh(lo), sh(hi), sh(n))
                else:
                    msg = 'byte %s of the result is never set' % show(j)
                D(ctx, r, 'bytes', ok, 'data', msg, at, 'filled')
            m = r.mstate()
            D(ctx, r, 'model state', m is not None, 'model', 'the result has no model state', at, 'mstate')
            if m is None:
                continue
            alg = I.load(s, F(m, 'alg'))
            # a model state that was empty and is one of a codec now must have been given data
            was = s.facts.decide(eq(mk('sym', 'alg'), ZERO))
            if m is E0(MST) and uses_model(I, res):
                md = I.load(s, F(m, 'data'))
                mo = array(I, md)
                ok = mo is not None and (mo is not MDATA or was is False or r.op == 'decompress')
                D(ctx, r, 'content of the model state', ok, 'model', 'an empty model state is returned without content', at, 'content')
                if r.op == 'train':
                    D(ctx, r, 'content of the trained model state', mo is not None and mo is not MDATA, 'model', 'training leaves the content of the model state unchanged', at, 'trained')
        # header
        dec = [r for r in res if r.op == 'decompress' and r.kind == 'r']
        if any(reads_header(r) for r in dec):
            for r in res:
                if r.op == 'compress' and r.kind == 'r':
                    h = r.I.load(r.s, F(F(r.loc(), 'header'), 'raw'))
                    ctx.ob('header', 'header of %s' % q.split('::')[-1], array(r.I, h) is not None and array(r.I, h) is not HEAD, r.f.rel, r.f.q, r.f.line, 'the header of the result is not filled in', r.path())
    ctx.count('codecs', len(qs))


def sh(t):
    return show(t) if isinstance(t, T) else 'unset'


def D(ctx, r, what, ok, rule, msg, at, detail):
    ctx.ob(rule, '%s of %s' % (what, r.op), bool(ok), msg=msg, detail='%s:%s' % (r.op, detail), **at)


def flat(t):
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from flat(x)


def same(s, x, ys):
    return isinstance(x, T) and any(isinstance(y, T) and (x is y or s.facts.decide(eq(x, y)) is True) for y in ys)


def array(I, d):
    if d is None or d.op != 'ptr':
        return None
    l = d.a[0]
    while l.op == 'el':
        l = l.a[0]
    return l if l.op == 'obj' else None


def mentioned(res, cls, n):
    """Does the decompressor refer to a member?"""
    for r in res:
        if r.op != 'decompress' or r.kind != 'r':
            continue
        for f in r.I.C.fns | {r.f}:
            for x in walk(f.body):
                if x.get('k') == 'mem' and x.get('n') == n and cls in str((x['b'].get('t') or '')):
                    return True
    return False


def uses_model(I, res):
    """Does the decompressor of this codec read the model state?"""
    return mentioned(res, 'HZ_MState', 'data')


def reads_header(r):
    return mentioned([r], 'HZ_Blob', 'header')
