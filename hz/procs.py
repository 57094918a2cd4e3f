"""Exploration of the job processor: every path of a submitted job, with whatever its codec, the archive and the callbacks raise."""
from . import engine, prog
from .extract import AnalysisError
from .prog import rel
from .terms import *
from .engine import Exc, isloc, root
from .proto import ghost, g

UNITS = [('src/hzip_codec/processor/processor.cpp', 'cpu'), ('src/hzip_core/blob/blob.cpp', 'cpu')]
STDEXC = 'std::exception'
PROC = 'HZ_Processor'
JOB, CODEC, STUB, BLOB, ORIG, MST = (mk('obj', n) for n in ('job', 'codec', 'stub', 'blob', 'original', 'mstate'))
ARG = mk('obj', 'argument')
P = lambda o: mk('ptr', mk('el', o, ZERO))
F = lambda l, n: mk('fld', l, n)
E0 = lambda o: mk('el', o, ZERO)
REPORTS = ('on_success', 'on_error', 'on_completed')
CALLBACKS = ('blob_id_callback', 'blob_callback')
CODECS = ('compress', 'decompress', 'train')


class Proc(engine.Client):
    tracing = False
    track_alloc = False
    distinct_objects = True
    max_paths = 60000

    def __init__(self, monitors):
        self.mon = monitors
        self.seen = {}
        self.fns = set()
        self.depth = 0

    def ob(self, ctx, rule, what, ok, e, fr, msg='', detail=''):
        key = (rule, what, rel(fr.file), fr.name, e.get('l'), detail)
        o = self.seen.get(key)
        if o is None or o[0] and not ok:
            self.seen[key] = (bool(ok), msg, fr.stack())

    def report(self, ctx):
        for (rule, what, file, fn, line, detail), (ok, msg, stack) in sorted(self.seen.items(), key=lambda x: str(x[0])):
            ctx.ob(rule, '%s:%s %s' % (file.split('/')[-1], line, what), ok, file, fn, line or 0, msg, stack, detail)

    def want_inline(self, fn, st):
        r = fn.rel.startswith('src/hzip_codec/processor/') or fn.cq in ('HZ_Blob', 'HZ_MState', 'HZ_CodecJob', 'HZ_Job', 'HZ_JobStub')
        if r:
            self.fns.add(fn)
        return r

    def opaque(self, I, e, name, st, obj, args, fr, out):
        if name is not None and not name.startswith('(') and not e.get('noexc') and I.P.fns.get(e.get('fn')) is not None:
            return (STDEXC,)
        return ()

    def on_event(self, I, st, ev):
        if ev.k == 'catch':
            st.mem[g('raised')] = ONE

    def throw(self, s, ty, e, fr, out, what):
        s2 = s.copy()
        s2.mem[g('raised')] = ONE
        out.append(('t', s2, Exc(ty, None, e.get('l', 0), rel(fr.file), fr.name, what)))

    def is_fn(self, I, st, loc):
        """Name of the callback stored at a location, if it is one of the job's."""
        v = I.load(st, loc) if isloc(loc) else loc
        return v.a[0] if v.op == 'sfn' else None

    def call(self, I, e, name, st, obj, args, fr, out):
        cq, n = e.get('cq'), e.get('n')
        if name is None:
            return None
        if name.startswith('loguru::') or cq is not None and cq.startswith('loguru::'):
            if n == 'current_verbosity_cutoff':
                return [(st, c(-100))]
            t = e.get('t')
            return [(st, ZERO if t is None or t.c == 'void' else I.result(e, name, st))]
        if name == 'std::thread::(ctor)' or cq == 'std::thread' and str(n).startswith('(ctor'):
            return self.thread(I, e, st, args, fr, out) if args else None
        if cq == 'std::thread' and n in ('detach', 'join'):
            return [(st, ZERO)]
        if cq == 'Semaphore' and n in ('acquire', 'release'):
            for m in self.mon:
                m.slot(self, st, n, e, fr)
            k = g('slots')
            st.mem[k] = add(st.mem.get(k, ZERO), ONE if n == 'acquire' else c(-1))
            return [(st, ZERO)]
        if n in ('operator==', 'operator!=') and len(args) == 2:
            for i in (0, 1):
                v = args[i]
                v = I.load(st, v) if isloc(v) else v
                w = args[1 - i]
                w = I.load(st, w) if isloc(w) else w
                if v.op == 'sfn' and w.op in ('null', 'zero', 'c'):
                    t = mk('eq0', v)
                    return [(st, t if n == 'operator==' else neg(t))]
        if n == 'operator bool' and obj is not None:
            f = self.is_fn(I, st, obj)
            if f:
                return [(st, neg(mk('eq0', I.load(st, obj))))]
        if n == 'operator()' and obj is not None:
            v = I.load(st, obj) if isloc(obj) else obj
            if v.op == 'sfn':
                return self.stored(I, e, st, v, [I.argval(st, e, i, args) for i in range(len(args))], fr, out)
        if n in CODECS and cq is not None and cq.startswith('hzcodec::'):
            return self.codec(I, e, st, n, obj, I.argval(st, e, 0, args), fr, out)
        if cq == 'HZ_Archive':
            return self.archive(I, e, st, n, obj, [I.argval(st, e, i, args) for i in range(len(args))], fr, out)
        if cq == 'hzcodec::CodecProvider':
            self.throw(st, STDEXC, e, fr, out, n)
            return [(st, I.result(e, name, st))]
        return None

    def thread(self, I, e, st, args, fr, out):
        f = I.argval(st, e, 0, args)
        av = []
        for i in range(1, len(args)):
            v = args[i]
            if not isloc(v):
                o = I.newobj('targ')
                st.mem[o] = v
                v = o
            else:
                o = I.newobj('targ')
                st.mem[o] = I.load(st, v)
                v = o
            av.append(v)
        if f.op not in ('clo', 'fnref'):
            raise AnalysisError('a thread runs something unknown at %s:%s' % (fr.file, e.get('l')))
        st.mem[g('thread')] = ONE
        e2 = {'k': 'call', 'l': e.get('l', 0), 'args': [], 't': None, 'tu': e.get('tu')}
        o2 = []
        res = I.call_value(f, e2, st, av, fr, o2)
        for kind, s, x in o2:
            for m in self.mon:
                m.escapes(self, s, x, e, fr)
        states = [s for s, _ in res]
        r = []
        for s in states:
            for m in self.mon:
                m.finished(self, s, e, fr)
            s.mem[g('thread')] = NULL
            r.append((s, mk('str', 'thread')))
        return r

    def stored(self, I, e, st, v, av, fr, out):
        n = v.a[0]
        ok = st.facts.decide(mk('eq0', v)) is False
        for m in self.mon:
            m.called(self, st, n, av, ok, e, fr)
        if n in CALLBACKS:
            self.throw(st, STDEXC, e, fr, out, n)
        return [(st, ZERO)]

    def codec(self, I, e, st, n, obj, blob, fr, out):
        self.throw(st, STDEXC, e, fr, out, n)
        B = I.deref(I.lib.unwrap(st, blob))
        for m in self.mon:
            m.codec(self, st, n, B, e, fr)
        src = I.load(st, F(B, 'mstate'))
        res = []
        for case in ('kept', 'new'):
            s = st.copy()
            if case == 'kept':
                ms = src
            else:
                o = I.newobj('mstate')
                s.mem[F(o, '#n')] = ONE
                alg = I.fresh('alg')
                alg.nn = True
                s.mem[F(E0(o), 'alg')] = alg
                ms = P(o)
            M = I.deref(ms)
            s.mem[ghost(M, 'coder')] = ONE
            if case == 'kept':
                alg = I.fresh('alg')
                alg.nn = True
                s.mem[F(M, 'alg')] = alg
            if n == 'train':
                res.append((s, ms))
                continue
            o = I.newobj('coded')
            s.mem[F(o, '#n')] = ONE
            b = E0(o)
            size = I.fresh('size')
            size.nn = True
            I.nums.add(size)
            s.mem[F(b, 'mstate')] = ms
            s.mem[F(b, 'size')] = size
            s.mem[F(b, 'o_size')] = I.load(s, F(B, 'o_size'))
            s.mem[F(b, 'data')] = mk('ptr', E0(I.newobj('bytes')))
            s.mem[F(b, 'mstate_id')] = ZERO
            s.mem[F(b, 'status')] = ZERO
            s.mem[ghost(b, 'by')] = mk('str', n)
            s.mem[ghost(b, 'ms')] = ms
            s.mem[ghost(b, 'bytes')] = s.mem[F(b, 'data')]
            s.mem[ghost(b, 'size')] = size
            res.append((s, P(o)))
        return res

    def archive(self, I, e, st, n, obj, av, fr, out):
        for m in self.mon:
            m.archive(self, st, n, av, e, fr)
        self.throw(st, STDEXC, e, fr, out, n)
        if n == 'inject_mstate':
            B = I.deref(I.lib.unwrap(st, av[1]))
            ms = I.lib.unwrap(st, av[0])
            id_ = I.fresh('id')
            id_.nn = True
            what = 'stored'
            if not (ms.op == 'ptr' and self.is_mstate(e)):
                o = I.newobj('mstate')
                st.mem[F(o, '#n')] = ONE
                alg = I.fresh('alg')
                alg.nn = True
                st.mem[F(E0(o), 'alg')] = alg
                ms = P(o)
                what = 'found'
            I.store(st, F(B, 'mstate_id'), id_, e, fr)
            I.store(st, F(B, 'mstate'), ms, e, fr)
            M = I.deref(ms)
            st.mem[ghost(M, 'id')] = id_
            st.mem[ghost(M, 'how')] = mk('str', what)
            if what == 'stored':
                st.mem[ghost(M, 'alg')] = I.load(st, F(M, 'alg'))
            return [(st, ZERO)]
        return [(st, ZERO if e.get('t') is None or e['t'].c == 'void' else I.result(e, e.get('n'), st))]

    def is_mstate(self, e):
        t = e['args'][0].get('t')
        return t is not None and 'HZ_MState' in t.strip().n


class Monitor:
    def slot(self, c, s, n, e, fr):
        pass

    def called(self, c, s, n, args, nonnull, e, fr):
        pass

    def codec(self, c, s, n, blob, e, fr):
        pass

    def archive(self, c, s, n, args, e, fr):
        pass

    def escapes(self, c, s, x, e, fr):
        pass

    def finished(self, c, s, e, fr):
        pass


def setup(I):
    """An arbitrary job of each declared type."""
    def f(st):
        m = st.mem
        for o in (JOB, CODEC, STUB, BLOB, MST):
            m[F(o, '#n')] = ONE
        j, k, s, b = E0(JOB), E0(CODEC), E0(STUB), E0(BLOB)
        m[ARG] = P(JOB)
        m[F(j, 'type')] = mk('sym', 'jobtype')
        m[F(j, 'codec')] = P(CODEC)
        m[F(j, 'stub')] = P(STUB)
        m[F(k, 'blob')] = P(BLOB)
        m[F(k, 'job_type')] = mk('sym', 'codectype')
        m[F(k, 'algorithm')] = mk('sym', 'algorithm')
        m[F(k, 'archive')] = mk('sym', 'archive')
        m[F(k, 'mstate_addr')] = mk('sym', 'addr')
        for n in CALLBACKS:
            m[F(k, n)] = mk('sfn', n)
        for n in REPORTS:
            m[F(s, n)] = mk('sfn', n)
        m[F(b, 'mstate')] = P(MST)
        m[F(b, 'data')] = mk('ptr', E0(ORIG))
        m[F(b, 'o_size')] = mk('sym', 'o_size')
        m[F(b, 'size')] = mk('sym', 'size')
        m[F(b, 'mstate_id')] = mk('sym', 'mstate_id')
        m[F(b, 'status')] = mk('sym', 'status')
        a = mk('sym', 'malg')
        m[F(E0(MST), 'alg')] = a
        for v in ('jobtype', 'codectype', 'algorithm', 'o_size', 'size', 'mstate_id', 'malg', 'status'):
            t = mk('sym', v)
            t.nn = True
            I.nums.add(t)
        among(I, st, mk('sym', 'jobtype'), 'HZ_Job::JobType')
        among(I, st, mk('sym', 'codectype'), 'HZ_CodecJob::CodecJobType')
    return f


def among(I, st, v, enum):
    vals = [x[1] for x in I.P.enum(enum)['vals']]
    st.facts.assume(le(c(min(vals)), v), True)
    st.facts.assume(le(v, c(max(vals))), True)


def program(ctx=None):
    p = prog.load(UNITS)
    if ctx:
        ctx.program(p)
    return p


def explore(p, monitors):
    cl = Proc(monitors)
    I = engine.Interp(p, cl)
    cl.I = I
    f = p.one('HZ_Processor::run')
    outs = I.run(f, setup(I), mk('obj', 'processor'), [ARG if f.params[0]['t'].c == 'ref' else P(JOB)])
    return cl, I, outs


def decide(ctx, *monitors):
    p = program(ctx)
    cl, I, outs = explore(p, list(monitors))
    cl.fns.add(p.one('HZ_Processor::run'))
    ctx.analysed(*sorted(cl.fns, key=lambda f: f.q))
    ctx.count('paths', len(outs))
    for m in monitors:
        m.done(cl, outs, p)
    cl.report(ctx)
    return p, cl, I, outs
