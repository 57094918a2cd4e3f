"""The tables of the codec provider are read from their initialisers and every lookup function is executed abstractly, once per
algorithm of the storage format and once for an identifier that is none of them, whatever the function does with the tables. The
results are compared over all algorithms: a name, a positive block size and a codec for each, no two alike, and an error for anything
else. Every path of every codec's operations is then explored and the algorithm its result is attributed to must be the one that the
provider resolves to that codec."""
TECHNIQUE = 'table evaluation and abstract execution of every lookup for every algorithm; exploration of the codecs for the attribution'
NOTE = 'All algorithms, all other identifiers, all blocks and model states.'

from hz import engine, prog
from hz.extract import AnalysisError
from hz.engine import Exc, isloc
from hz.prog import rel, walk
from hz.terms import *

UNITS = [('src/hzip_codec/codec_provider.cpp', 'cpu')]
ENUM = 'hzcodec::algorithms::ALGORITHM'
BASE = 'hzcodec::AbstractCodec'
MAPS = ('std::unordered_map', 'std::map')


def strip(x):
    while isinstance(x, dict) and x.get('k') in ('cast', 'upcast', 'downcast', 'paren', 'dyncast', 'temp', 'clean', 'bind') and x.get('e') is not None:
        x = x['e']
    if x.get('k') == 'call' and x.get('q') in ('std::move', 'std::forward') and x.get('args'):
        return strip(x['args'][0])
    return x


class Tables(object):
    """Values of the static tables."""

    def __init__(self, p):
        self.p = p
        self.objs = {}

    def codec(self, x):
        """Class of the codec an initialiser makes or refers to."""
        x = strip(x)
        if x.get('k') == 'new':
            return x['at'].strip().q
        if x.get('k') == 'un' and x.get('op') == '&':
            y = strip(x['e'])
            if y.get('k') == 'ref':
                return y['t'].strip().q
        if x.get('k') == 'call' and x.get('n') in ('get',) and x.get('obj') is not None:
            return self.codec(x['obj'])
        if x.get('k') == 'call' and x.get('n') in ('make_unique', 'make_shared'):
            return x['t'].targs[0].q
        return None

    def term(self, x):
        y = strip(x)
        if x.get('cv') is not None:
            return c(x['cv'])
        if y.get('cv') is not None:
            return c(y['cv'])
        if y.get('k') == 'str':
            return mk('str', y['v'])
        q = self.codec(y)
        if q is not None:
            return of_class(q)
        return None

    def pairs(self, g):
        """Key and value expressions of a table's initialiser."""
        r = []

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
            elif isinstance(x, dict):
                if x.get('k') == 'ctor' and x.get('q') == 'std::pair' and len(x.get('args', [])) == 2:
                    r.append((x['args'][0], x['args'][1], x.get('l', g.get('l', 0))))
                    return
                if x.get('k') == 'lambda':
                    raise AnalysisError('table %s is filled by a function' % g['q'])
                for k, y in x.items():
                    if isinstance(y, (dict, list)) and k not in ('t', 'tu', 'at'):
                        go(y)
        if g.get('init') is not None:
            go(g['init'])
        return r


def of_class(q):
    return mk('ptr', mk('el', mk('obj', 'codec:' + q), ZERO))


def class_of(I, s, v):
    """Class of the object a pointer refers to."""
    l = I.deref(v) if v.op in ('ptr', 'viter') else v
    o = l
    while o.op == 'el':
        o = o.a[0]
    if o.op == 'obj' and str(o.a[0]).startswith('codec:'):
        return o.a[0][6:]
    t = I.types_of.get(o)
    if t is not None and t.q:
        return t.strip().q
    if o.op == 'glob':
        g = I.P.globals.get(o.a[0])
        return g['t'].strip().q if g is not None else None
    return None


class C(engine.Client):
    def __init__(self):
        self.fns = set()
        self.tables = None

    def want_inline(self, fn, st):
        r = fn.rel.startswith('src/hzip_codec/codec_provider')
        if r:
            self.fns.add(fn)
        return r


def decode_str(v):
    return v.a[0] if v is not None and v.op == 'str' else None


def run(ctx):
    ctx.rule('resolves', 'every algorithm has a name, a block size and a codec', 9)
    ctx.rule('distinct', 'names, values and codecs are pairwise distinct', 3)
    ctx.rule('size', 'every block size is greater than zero', 3)
    ctx.rule('unknown', 'any other identifier is refused by every lookup', 3)
    ctx.rule('attributed', 'a result is attributed to the algorithm of the codec that made it', 3)
    p = prog.load(UNITS)
    ctx.program(p)
    en = p.enum(ENUM)
    vals = [(x[0], x[1], x[2]) for x in en['vals']]
    for n, v, l in vals:
        same = [m for m, w, _ in vals if w == v and m != n]
        ctx.ob('distinct', 'value of %s' % n, not same, en['relfile'], ENUM, l, '%s and %s have the same value' % (n, ', '.join(same)), detail='value')
    tabs = Tables(p)
    fs = [f for f in p.fns.values() if f.rel.startswith('src/hzip_codec/codec_provider') and len(f.params) == 1 and f.params[0]['t'].strip().n.replace('const ', '') == ENUM and f.body is not None]
    kinds = {}
    for f in fs:
        t = f.rt.strip()
        kind = 'codec' if BASE in f.rt.n else 'name' if t.q == 'std::basic_string' or 'char' in f.rt.n else 'size' if t.isint and t.c != 'bool' else None
        if kind:
            kinds.setdefault(kind, []).append(f)
    for k in ('codec', 'name', 'size'):
        if not kinds.get(k):
            raise AnalysisError('no lookup of a %s by algorithm' % k)
    cl = C()
    codecs = {}
    for kind in ('name', 'size', 'codec'):
        for f in sorted(kinds[kind], key=lambda f: f.q):
            res = {}
            for n, v, l in vals:
                res[n] = lookup(p, cl, tabs, f, c(v), None)
            for n, v, l in vals:
                outs, I = res[n]
                good = [(s, x) for k, s, x in outs if k == 'r']
                bad = [x for k, s, x in outs if k != 'r']
                xs = {value(I, s, x, kind) for s, x in good}
                ok = bool(good) and not bad and len(xs) == 1 and None not in xs
                ctx.ob('resolves', '%s of %s' % (kind, n), ok, f.rel, f.q, f.line, 'the %s of %s is %s' % (kind, n, 'not found: ' + str(bad[0]) if bad else 'not determined (%s)' % ', '.join(map(str, xs))), detail=kind + n)
                res[n] = next(iter(xs)) if ok else None
            for n, v, l in vals:
                x = res[n]
                if kind == 'size':
                    ctx.ob('size', 'block size of %s' % n, x is None or x > 0, f.rel, f.q, f.line, 'the block size of %s is %s' % (n, x), detail=n)
                    continue
                same = [m for m in res if m != n and x is not None and res[m] == x]
                ctx.ob('distinct', '%s of %s' % (kind, n), not same, f.rel, f.q, f.line, '%s and %s have the same %s %s' % (n, ', '.join(same), kind, x), detail=kind + n)
                if kind == 'name' and x is not None:
                    ctx.ob('resolves', 'text of %s' % n, x != '', f.rel, f.q, f.line, 'the name of %s is empty' % n, detail='empty' + n)
                if kind == 'codec' and x is not None:
                    codecs[x] = (n, v)
            a = mk('sym', 'identifier')
            a.nn = True
            outs, I = lookup(p, cl, tabs, f, a, [v for _, v, _ in vals])
            bad = [(s, x) for k, s, x in outs if k == 'r']
            ctx.ob('unknown', '%s of another identifier' % kind, not bad and outs, f.rel, f.q, f.line, 'an unknown identifier resolves to %s' % (show(bad[0][1]) if bad and isinstance(bad[0][1], T) else '?'), detail=kind)
    ctx.analysed(*sorted(cl.fns | set(fs), key=lambda f: f.q))
    ctx.count('algorithms', len(vals))
    attribution(ctx, p, codecs)


def value(I, s, x, kind):
    if not isinstance(x, T):
        return None
    if kind == 'codec':
        return class_of(I, s, x)
    if x.op == 'c':
        return x.a[0]
    if isloc(x) and kind == 'name':
        x = I.load(s, x)
    return decode_str(x)


def lookup(p, cl, tabs, f, arg, others):
    I = engine.Interp(p, cl)
    I.nums.add(arg)

    def setup(st):
        for q, g in p.globals.items():
            t = g.get('t')
            if t is None or not (g.get('relfile') or '').startswith('src/hzip_codec/') or t.strip().q not in MAPS:
                continue
            loc = mk('glob', q)
            v = mk('zero')
            seen = set()
            for ke, ve, l in tabs.pairs(g):
                k, x = tabs.term(ke), tabs.term(ve)
                if k is None:
                    raise AnalysisError('a key of %s is not a constant' % q)
                if k in seen:
                    continue           # the first of two equal keys counts
                seen.add(k)
                v = mk('ins', v, k)
                st.mem[mk('el', loc, k)] = x if x is not None else I.fresh('value')
            st.mem[loc] = v
        for v in others or ():
            st.facts.assume(eq(arg, c(v)), False)
    return I.run(f, setup, None, [arg]), I


# ---- attribution ---------------------------------------------------------------------------------------------------------------
def attribution(ctx, p, codecs):
    from hz import codecs as cd
    for q, (n, v) in sorted(codecs.items()):
        for r in cd.explore(ctx, q):
            if r.kind != 'r' or r.op == 'decompress':
                continue
            alg = r.alg()
            if alg is None:
                ok, what = False, 'nothing'
            else:
                ok = r.s.facts.decide(eq(alg, c(v))) is True
                what = show(alg)
            if not ok and v == 0 and r.op == 'compress':
                # bytes that are not smaller than the original are stored as they came, with a model state of their own (C26)
                ok = r.s.facts.decide(le(r.get('o_size'), r.get('size'))) is True
                what = 'that of its input, although the result can be smaller than the original'
            ctx.ob('attributed', 'result of %s::%s' % (q.split('::')[-1], r.op), ok, r.f.rel, r.f.q, r.f.line, 'the result of the codec of %s is attributed to algorithm %s' % (n, what), r.path(), detail='%s:%s' % (q, r.op))
