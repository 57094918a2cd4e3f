"""Value numbering of the prediction filter and of the colour conversion: samples are names, every operation on them an uninterpreted
term, and an undecided condition is a term with an assigned truth value. Each function is interpreted in this domain once with a new
image and once in place; under every assignment each element of the overwritten image must carry the term the new image has there,
which fails exactly when something is read after it was overwritten. Accesses outside the image, elements never set, an input that
changes although it was to be kept, and counters too small for the image are reported as well."""
TECHNIQUE = 'value numbering (abstract interpretation over uninterpreted terms)'
NOTE = 'Shapes up to 4x4 with up to 3 channels and 260x1/1x260 under 12 assignments each (64 in the thorough tier); any sample values. Larger images repeat the same neighbourhoods. The OpenCL filter reads one device buffer and writes another and is not analysed.'

from hz import prog, bits, narrow
from hz.bits import Cell, Ptr, Rec, Arr, Fault, Raised
from hz.herbrand import Truths, atom

COLOR = 'src/hzip_core/preprocessor/color.cpp'
PAETH = 'src/hzip_core/models/paeth.cpp'
PLANAR = 'hztrans::LinearU16XColorTransformer'
FILTER = 'hzmodels::LinearU16PaethDifferential'


class Differs(Exception):
    pass


def image(n):
    return bits.array([atom('sample%d' % i, 16) for i in range(n)])


def compare(ctx, f, what, n, call, truths, p):
    """call(I, image, inplace) -> result pointer."""
    def go(I):
        I.steps = I.depth = 0
        src = image(n)
        names = [c.v for c in src.cells]
        new = call(I, src, 0)
        if n == 0 and new is None:
            new = Ptr(Arr([]))
        if not isinstance(new, Ptr) or len(new.arr.cells) != n:
            raise Differs('the new image has %s samples instead of %d' % (len(new.arr.cells) if isinstance(new, Ptr) else 'no', n))
        if n and new.arr is src or any(c.v is not v for c, v in zip(src.cells, names)):
            raise Differs('the image that was to be kept is overwritten')
        for i, c in enumerate(new.arr.cells):
            if c.v is None:
                raise Differs('sample %d of the new image is never set' % i)
        own = image(n)
        res = call(I, own, 1)
        if n and (not isinstance(res, Ptr) or res.arr is not own):
            raise Differs('the result is not in the image that was to be overwritten')
        for i, (a, b) in enumerate(zip(own.cells, new.arr.cells)):
            if a.v is not b.v and not (isinstance(a.v, int) and a.v == b.v):
                raise Differs('sample %d becomes %s in place and %s in a new image' % (i, str(a.v)[:120], str(b.v)[:120]))
    try:
        Truths(p, fuel=400000).every(go, truths)
        ctx.ob('same', what, True, f.rel, f.q, f.line, '')
    except Differs as x:
        ctx.ob('same', what, False, f.rel, f.q, f.line, '%s: %s' % (what, x), detail='same')
    except Fault as x:
        ctx.ob('defined', what, False, f.rel, f.q, x.line, '%s: %s' % (what, x.what), detail='defined')
    except Raised as x:
        ctx.ob('defined', what, False, f.rel, f.q, f.line, '%s: an exception is raised' % what, detail='raises')


def run(ctx):
    ctx.rule('same', 'the overwritten image carries the same terms as the new image', 20)
    ctx.rule('defined', 'no access outside the image, no value that was not set', 0)
    ctx.rule('size', 'no image dimension is put into, and no counter over the image is, a variable of fewer than 32 bits', 2)
    p = prog.load([(COLOR, 'cpu'), (PAETH, 'cpu')])
    ctx.program(p)
    deep = ctx.tier == 'thorough'
    many = 64 if deep else 12
    top = 6 if deep else 4
    for name in ('cpu_filter', 'filter'):
        f = p.one(FILTER + '::' + name)
        ctx.analysed(f)
        shapes = [(w, h, c) for w in range(top + 1) for h in range(top + 1) for c in (0, 1, 2, 3) if (w * h or c == 1) and (c == 1 or w + h < 6)] if name == 'cpu_filter' else [(3, 2, 2)]
        if name == 'cpu_filter':
            shapes += [(260, 1, 1), (1, 260, 1)]
        names = [x['n'] for x in f.params]
        for w, h, c in shapes:
            vals = {'width': w, 'height': h, 'nchannels': c, 'bit_depth': atom('bit_depth', 8)}

            def call(I, src, ip, f=f, vals=vals):
                args = [Cell(Ptr(src)), Cell(vals['width']), Cell(vals['height']), Cell(vals['nchannels']), Cell(ip), Cell(vals['bit_depth'])]
                return I.call(f, args)
            compare(ctx, f, '%s of %dx%d samples in %d channels' % (name, w, h, c), w * h * c, call, 2 if w * h > 100 else many, p)
    ctor = next(f for f in p.fns.values() if f.cq == PLANAR and f.kind == 'ctor' and not f.d.get('implicit'))
    for name in ('cpu_rgb_to_ycocg', 'cpu_ycocg_to_rgb', 'rgb_to_ycocg', 'ycocg_to_rgb'):
        f = p.one(PLANAR + '::' + name)
        ctx.analysed(f)
        for w, h in ((0, 0), (1, 1), (2, 3), (3, 2), (5, 1), (1, 9)):
            def call(I, src, ip, f=f, w=w, h=h):
                t = I.construct(ctor, [Cell(w), Cell(h), Cell(12)])
                return I.call(f, [Cell(Ptr(src)), Cell(ip)], t)
            compare(ctx, f, '%s of %dx%d pixels' % (name, w, h), 3 * w * h, call, 4, p)
    for f in p.fns.values():
        if f.body is not None and f.cq == FILTER and f.kind != 'ctor':
            sizes = [x['n'] for x in f.params if x['t'].isint and x['t'].w == 64]
            bad = narrow.check(f, (), sizes)
            ctx.ob('size', f.q, not bad, f.rel, f.q, bad[0][0] if bad else f.line, bad[0][1] if bad else '', detail='size')
