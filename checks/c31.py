"""Abstract interpretation of the colour transforms in a modular domain: every number is a linear form over the samples of the
image, known modulo a power of two, with an interval; halving a number that is so determined gives an atom named after it. The
forward and the reverse transform are analysed one after the other and every sample of the result must be the sample it started
from, for the scalar transformer in every sample type and for the planar one in every bit depth, in place and into a new image.
Element accesses outside the image, samples that are never set and shifts that are not defined are reported on the way."""
TECHNIQUE = 'abstract interpretation in a modular linear-form domain'
NOTE = 'All sample values; bit depths 1 to 16; image shapes from 0x0 to 260x1 (the transform treats every pixel alike). The OpenCL kernels are not C++ and are left to the processor path they mirror.'

from hz import prog, bits, ring, narrow
from hz.bits import Cell, Ptr, Rec, Fault, Raised
from hz.extract import VERIF, AnalysisError
from hz.ring import Paths, atom, same, rng

UNITS = [('src/hzip_core/preprocessor/color.cpp', 'cpu'), (VERIF + '/drivers/headers.cpp', 'cpu')]
PLANAR = 'hztrans::LinearU16XColorTransformer'
SCALAR = 'hztrans::RGBColorTransformer'
SHAPES = [(1, 1), (0, 0), (0, 3), (2, 3), (3, 2), (5, 1), (1, 7), (9, 4), (17, 3)]


class Lost(Exception):
    def __init__(self, f, what):
        super().__init__(what)
        self.f, self.what = f, what


def guarded(ctx, f, what, run):
    try:
        run()
        return ctx.ob('lossless', what, True, f.rel, f.q, f.line, '')
    except Lost as x:
        return ctx.ob('lossless', what, False, x.f.rel, x.f.q, x.f.line, '%s: %s' % (what, x.what), detail=what.split(',')[0])
    except Fault as x:
        return ctx.ob('defined', what, False, f.rel, f.q, x.line, '%s: %s' % (what, x.what))
    except Raised as x:
        return ctx.ob('defined', what, False, f.rel, f.q, f.line, '%s: an exception is raised' % what)


def classes(p, q):
    r = {}
    for f in p.fns.values():
        if f.cq == q:
            r.setdefault(f.d['cls'], []).append(f)
    return r


def scalar(ctx, p):
    for cls, fs in sorted(classes(p, SCALAR).items()):
        tf = next(f for f in fs if f.d['n'] == 'transform')
        ctx.analysed(tf)
        px = tf.params[0]['t']
        fields = p.rec(px.rec or px.n)['fields']
        values = {e[0]: int(e[1]) for e in p.enum('hztrans::HZ_COLOR_TRANSFORM')['vals']}
        spaces = {e[0]: int(e[1]) for e in p.enum('hztrans::HZ_COLOR_SPACE')['vals']}
        ctors = [f for f in fs if f.kind == 'ctor' and not f.d.get('implicit')]
        by = {}
        for c in ctors:
            ctx.analysed(c)
            by[len(c.params)] = c
        ways = []
        if 1 in by:
            ways.append((by[1], [values['RGB_TO_YCOCG']], [values['YCOCG_TO_RGB']], 'by transform'))
        if 2 in by:
            ways.append((by[2], [spaces['YCOCG'], 0], [spaces['YCOCG'], 1], 'by space'))
        for c, fw, bw, how in ways:
            what = '%s, %s' % (cls.split('::')[-1], how)

            def go(I):
                I.steps = I.depth = 0
                K = lambda a: [Cell(I.D.const(n, 64)) for n in a]
                x = Rec({d['n']: Cell(atom('sample ' + d['n'], *rng(d['t']))) for d in fields})
                a, b = I.construct(c, K(fw)), I.construct(c, K(bw))
                y = I.call(tf, [Cell(x)], a)
                z = I.call(tf, [Cell(y)], b)
                for d in fields:
                    if not same(z.f[d['n']].get(0), x.f[d['n']].get(0)):
                        raise Lost(tf, 'component %s comes back as %s' % (d['n'], z.f[d['n']].get(0)))
            guarded(ctx, tf, what, lambda: Paths(p).every(go))


def image(n, depth):
    return bits.array([atom('sample %d' % i, 0, (1 << depth) - 1) for i in range(n)])


def planar(ctx, p):
    ctor = next(f for f in p.fns.values() if f.cq == PLANAR and f.kind == 'ctor' and not f.d.get('implicit'))
    ctx.analysed(ctor)
    pairs = [('cpu_rgb_to_ycocg', 'cpu_ycocg_to_rgb'), ('rgb_to_ycocg', 'ycocg_to_rgb')]
    for fw, bw in pairs:
        fw, bw = p.one(PLANAR + '::' + fw), p.one(PLANAR + '::' + bw)
        ctx.analysed(fw)
        ctx.analysed(bw)
        cases = [((2, 1), d, ip) for d in range(1, 17) for ip in (0, 1)]
        cases += [(s, 8, ip) for s in SHAPES for ip in (0, 1)]
        if fw.d['n'].startswith('cpu'):
            cases.append(((260, 1), 16, 1))
        for (w, h), depth, ip in cases:
            n = 3 * w * h
            what = '%s then %s, %d bits, %dx%d, %s' % (fw.d['n'], bw.d['n'], depth, w, h, 'in place' if ip else 'new image')

            def go(I):
                I.steps = I.depth = 0
                t = I.construct(ctor, [Cell(I.D.const(v, 64)) for v in (w, h, depth)])
                src = image(n, depth)
                orig = [c.v for c in src.cells]
                cell = lambda o: Cell(o if isinstance(o, Ptr) else Ptr(o))
                y = I.call(fw, [cell(src), Cell(I.D.const(ip, 8))], t)
                shape(fw, y, src, orig, 'converted')
                first = y.arr
                mid = [c.get(fw.line) for c in first.cells]
                z = I.call(bw, [cell(first), Cell(I.D.const(ip, 8))], t)
                shape(bw, z, first, mid, 'restored')
                for i, o in enumerate(orig):
                    if not same(z.arr.cells[i].get(bw.line), o):
                        raise Lost(bw, 'sample %d of plane %d comes back as %s' % (i % (w * h), i // (w * h), z.arr.cells[i].v))

            def shape(f, r, src, before, verb):
                if not isinstance(r, Ptr) or len(r.arr.cells) != n:
                    raise Lost(f, 'the %s image has another size' % verb)
                if ip and r.arr is not src:
                    raise Lost(f, 'the image is not %s in place' % verb)
                if not ip and (r.arr is src or any(c.v is not o for c, o in zip(src.cells, before))):
                    raise Lost(f, 'the image that was to be kept is overwritten')
                for i, c in enumerate(r.arr.cells):
                    if c.v is None:
                        raise Lost(f, 'sample %d of plane %d is never set' % (i % (w * h), i // (w * h)))
            guarded(ctx, fw, what, lambda: Paths(p, fuel=400000).every(go, None if (w, h) in ((2, 1), (1, 1)) else 6))


def dimensions(ctx, p):
    fs = [f for f in p.fns.values() if f.cq == PLANAR and f.body is not None and not f.d.get('implicit')]
    members = set()
    for f in fs:
        if f.kind == 'ctor':
            for i in f.d.get('inits') or ():
                e = i.get('e')
                if i.get('fld') and e and e.get('k') == 'ref' and e.get('d') == 'parm' and e['t'].w == 64:
                    members.add(i['fld'])
            for x in prog.walk(f.body):
                if x.get('k') == 'bin' and x['op'] == '=' and x['a'].get('k') == 'mem' and x['b'].get('k') == 'ref' and x['b'].get('d') == 'parm' and x['b']['t'].w == 64:
                    members.add(x['a']['n'])
    for f in fs:
        bad = narrow.check(f, members)
        ctx.ob('size', f.q, not bad, f.rel, f.q, bad[0][0] if bad else f.line, bad[0][1] if bad else '', detail='size')


def run(ctx):
    ctx.rule('size', 'no image dimension is put into, and no counter over the image is, a variable of fewer than 32 bits', 4)
    ctx.rule('lossless', 'converting forth and back gives the original samples, every one of them', 20)
    ctx.rule('defined', 'no access outside the image, no value that was not set, no undefined shift', 0)
    p = prog.load(UNITS)
    ctx.program(p)
    scalar(ctx, p)
    planar(ctx, p)
    dimensions(ctx, p)
