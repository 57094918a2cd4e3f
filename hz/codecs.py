"""Exploration of the codecs: every path of each operation of a codec on an arbitrary block."""
from . import engine, prog
from .extract import AnalysisError
from .prog import rel
from .terms import *
from .engine import Exc, isloc

DIR = 'src/hzip_codec/'
OPS = ('compress', 'decompress', 'train')
BLOB, BYTES, MST, MDATA, HEAD = (mk('obj', n) for n in ('block', 'bytes', 'mstate', 'model', 'header'))
P = lambda o: mk('ptr', mk('el', o, ZERO))
F = lambda l, n: mk('fld', l, n)
E0 = lambda o: mk('el', o, ZERO)
STAGES = ('hztrans::', 'hzmodels::', 'hzrans64', 'PNGBundleBuilder', 'SharinganStateTransition')


def units():
    """The codecs' files and what they use of the block."""
    import os
    from .extract import REPO
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, DIR)):
        for f in sorted(fs):
            x = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith('.cpp') and '/processor/' not in x and not x.endswith('codec_provider.cpp') and '/state_transition' not in x:
                r.append((x, 'cpu'))
    return r + [('src/hzip_core/blob/blob.cpp', 'cpu')]


class Codec(engine.Client):
    max_paths = 20000

    def __init__(self, p):
        self.p = p
        self.fns = set()

    def want_inline(self, fn, st):
        r = fn.rel.startswith(DIR) or fn.cq in ('HZ_Blob', 'HZ_MState', 'HZ_BlobHeader') or fn.rel.startswith('src/hzip_core/utils/utils.')
        if r and fn.rel.startswith(DIR) and any((fn.cq or '').startswith(x) for x in STAGES):
            r = False
        if r:
            self.fns.add(fn)
        return r

    def opaque(self, I, e, name, st, obj, args, fr, out):
        if name is not None and (str(name).startswith(STAGES) or str(e.get('cq') or '').startswith(STAGES)):
            I.emit(st, 'stage', e, fr, q=name, n=e.get('n'), cq=e.get('cq'), o=obj, args=tuple(I.argval(st, e, i, args) for i in range(len(args))))
        return ()


class Result:
    def __init__(self, I, f, op, kind, s, v):
        self.I, self.f, self.op, self.kind, self.s, self.v = I, f, op, kind, s, v

    def loc(self):
        v = self.I.lib.unwrap(self.s, self.v)
        return self.I.deref(v) if isinstance(v, T) and v.op in ('ptr', 'viter') else None

    def get(self, n):
        """Member of the result; None if it was never set."""
        l = self.loc()
        if l is None:
            return None
        v = self.I.load(self.s, F(l, n))
        return None if v.op == 'uninit' else v

    def mstate(self):
        v = self.v if self.op == 'train' else self.get('mstate')
        if v is None:
            return None
        v = self.I.lib.unwrap(self.s, v)
        return self.I.deref(v) if v.op == 'ptr' else None

    def alg(self):
        m = self.mstate()
        return None if m is None else self.I.load(self.s, F(m, 'alg'))

    def path(self):
        return ['%s:%s %s' % (e.file, e.line, e.k + (' ' + str(e.get('n')) if e.k == 'stage' else '')) for e in self.s.events()][-30:]


def setup(I):
    def f(st):
        m = st.mem
        for o in (BLOB, MST):
            m[F(o, '#n')] = ONE
        b = E0(BLOB)
        nums = {}
        for n in ('o_size', 'size', 'mstate_id', 'alg', 'bytes', 'model', 'header'):
            t = mk('sym', n)
            t.nn = True
            I.nums.add(t)
            nums[n] = t
        m[F(BYTES, '#n')] = nums['bytes']
        m[F(MDATA, '#n')] = nums['model']
        m[F(HEAD, '#n')] = nums['header']
        m[F(b, 'mstate')] = P(MST)
        m[F(b, 'data')] = P(BYTES)
        m[F(b, 'o_size')] = nums['o_size']
        m[F(b, 'size')] = nums['size']
        m[F(b, 'mstate_id')] = nums['mstate_id']
        m[F(b, 'status')] = mk('sym', 'status')
        m[F(F(b, 'header'), 'raw')] = P(HEAD)
        m[F(E0(MST), 'alg')] = nums['alg']
        m[F(E0(MST), 'data')] = P(MDATA)
    return f


_cache = {}


def program(ctx=None):
    p = prog.load(units())
    if ctx is not None:
        ctx.program(p)
    return p


def classes(p):
    """The codecs: every class with the operations that derives from the abstract one."""
    return sorted({r['q'] for r in p.records.values() if any('hzcodec::AbstractCodec' in str(b) for b in r.get('bases', []))})


def explore(ctx, q):
    if q in _cache:
        return _cache[q]
    p = program(ctx)
    res = []
    fns = set()
    for op in OPS:
        fs = [f for f in p.byq.get('%s::%s' % (q, op), []) if f.body is not None]
        if len(fs) != 1:
            raise AnalysisError('%d definitions of %s::%s' % (len(fs), q, op))
        f = fs[0]
        cl = Codec(p)
        I = engine.Interp(p, cl)
        arg = mk('obj', 'argument')

        def su(st, I=I):
            setup(I)(st)
            st.mem[arg] = P(BLOB)
        outs = I.run(f, su, mk('obj', 'codec'), [arg if f.params[0]['t'].c == 'ref' else P(BLOB)])
        res += [Result(I, f, op, k, s, v) for k, s, v in outs]
        fns |= cl.fns | {f}
    ctx.analysed(*sorted(fns, key=lambda f: f.q))
    _cache[q] = res
    return res
