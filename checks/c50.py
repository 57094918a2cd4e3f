"""Abstract interpretation of the writer and the reader of a parameter map in the bit-dependence domain: every bit of every key and
value is an unknown of its own, the lengths run over a set of shapes, and the map that is read back must hold, bit by bit, the
characters that were written. Bits read or written beyond the buffer and fields left over are reported. A dataflow over both
functions makes sure that no count is written or kept in fewer than 32 bits, which would cut longer ones short."""
TECHNIQUE = 'abstract interpretation in a bit-dependence domain'
NOTE = 'All contents; maps of up to 300 entries and texts of up to 300 characters (longer ones take the same rounds), with the widths of counts decided for every length.'

from hz import prog, bits, narrow
from hz.bits import Cell, Ptr, Rec, Fault, Raised
from hz.stdbits import Std, Str, Map

UNITS = [('src/hzip_core/blob/blob.cpp', 'cpu')]
SHAPES = [[], [(0, 0)], [(1, 0)], [(0, 1)], [(1, 1)], [(3, 2)], [(2, 5), (7, 1)], [(1, 0), (2, 2), (0, 3)], [(9, 300)], [(300, 9)], [(2, 1)] * 300]


def text(name, n, mark):
    """n unknown characters; keys are told apart by their first two."""
    cs = [bits.sym('%s.%d' % (name, i), 8) for i in range(n)]
    if mark is not None:
        for i, v in enumerate((mark & 255, mark >> 8)):
            if i < n:
                cs[i] = bits.const(v, 8)
    return Str([Cell(c) for c in cs])


class Wrong(Exception):
    pass


def trip(ctx, I, p, w, r, fld, what, shape):
    at = [w]

    def go(I):
        m = Map()
        for i, (a, b) in enumerate(shape):
            m.items.append(Rec({'first': Cell(text('key%d' % i, a, i if len(shape) > 1 else None)), 'second': Cell(text('value%d' % i, b, None))}))
        orig = [([c.v for c in x.f['first'].v.cells], [c.v for c in x.f['second'].v.cells]) for x in m.items]
        at[0] = w
        raw = I.call(w, [], Rec({fld: Cell(m)}))
        at[0] = r
        back = I.call(r, [Cell(raw)])
        got = [([c.v for c in x.f['first'].v.cells], [c.v for c in x.f['second'].v.cells]) for x in back.f[fld].v.items]
        if len(got) != len(orig):
            raise Wrong('%d of %d entries come back' % (len(got), len(orig)))
        for a in orig:
            if a not in got:
                raise Wrong('a key of %d and a value of %d characters come back as %s' % (len(a[0]), len(a[1]), ', '.join(
                    '%d and %d%s' % (len(x), len(y), ' with other bits' if (len(x), len(y)) == (len(a[0]), len(a[1])) else '') for x, y in got[:3])))
    try:
        I.every(go, 6)
        ctx.ob('restored', what, True, r.rel, r.q, r.line, '')
    except Wrong as x:
        ctx.ob('restored', what, False, r.rel, r.q, r.line, '%s: %s' % (what, x), detail='restored')
    except Fault as x:
        ctx.ob('defined', what, False, at[0].rel, at[0].q, x.line, '%s: %s' % (what, x.what), detail='fault')
    except Raised:
        ctx.ob('defined', what, False, at[0].rel, at[0].q, at[0].line, '%s: an exception is raised' % what, detail='raises')


def run(ctx):
    ctx.rule('restored', 'the map that is read back holds every key and value that was written, and nothing else', 8)
    ctx.rule('defined', 'no bit beyond the buffer is read or written, and reading does not fail', 0)
    ctx.rule('width', 'no count is written or kept in fewer than 32 bits', 2)
    p = prog.load(UNITS)
    ctx.program(p)
    w, r = p.one('HZ_Params::to_byte_array'), p.one('HZ_Params::from_byte_array')
    fld = next(x['n'] for x in p.rec('HZ_Params')['fields'])
    ctx.assume('bitio keeps the low bits of a value it is asked to write and returns them when it reads as many')
    seen = set()
    for k, shape in enumerate(SHAPES):
        what = 'map of lengths %s' % (shape if len(shape) < 5 else '%d times %s' % (len(shape), shape[0]))
        I = Std(p, fuel=600000)
        trip(ctx, I, p, w, r, fld, what, shape)
        for g in I.fns:
            ctx.analysed(g)
        seen |= I.fns
    for f in sorted({w, r} | seen, key=lambda f: f.id):
        bad = counts(f) + [x for x in narrow.check(f, (), ()) if x]
        ctx.ob('width', f.q, not bad, f.rel, f.q, bad[0][0] if bad else f.line, bad[0][1] if bad else '', detail='width')


def is_count(e):
    while e.get('k') in ('cast', 'paren'):
        e = e['e']
    return e.get('k') == 'call' and e.get('n') in ('size', 'length')


def counts(f):
    """Counts that are written or read in too few bits, or kept in too small a variable."""
    out = []
    reads = []
    for x in prog.walk(f.body):
        if x.get('k') == 'init' and x.get('fields') == ['obj', 'n']:
            o, n = x['elems']
            if is_count(o) and n.get('cv') is not None and int(n['cv']) < 32:
                out.append((x['l'], 'a count is written in %d bits' % int(n['cv'])))
        if x.get('k') == 'decl':
            for v in x['vars']:
                if v.get('init') is not None and v['t'].isint and (v['t'].w or 64) < 32 and is_count(v['init']):
                    out.append((v['init']['l'], 'a count is kept in %s of %d bits' % (v['n'], v['t'].w)))
    # counters that are compared with something wider
    for x in prog.walk(f.body):
        if x.get('k') in ('for', 'while') and x.get('c') is not None and x['c'].get('k') == 'bin' and x['c']['op'] in ('<', '!=', '<='):
            for a, b in ((x['c']['a'], x['c']['b']), (x['c']['b'], x['c']['a'])):
                while a.get('k') == 'cast' and a['t'].isint:
                    a = a['e']
                while b.get('k') == 'cast':
                    b = b['e']
                if a.get('k') == 'ref' and b.get('t') is not None and (a['t'].w or 64) < 32 <= (b['t'].w or 0) and b.get('cv') is None:
                    out.append((x['l'], '%s counts in %d bits up to a number of %d' % (a['n'], a['t'].w, b['t'].w)))
    return out
