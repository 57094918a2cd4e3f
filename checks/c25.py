"""Every path of a submitted job is explored, from HZ_Processor::run through encoding, decoding and training, for every combination of
callbacks that are there or not, of optional parts that are there or not, and of codec, archive and callbacks raising an error at any
call. The state carries the number of slots held, what was reported and whether completion was signalled; nothing may leave the thread
as an exception. That the functions a job reports through do not raise is decided over the call graph of everything assigned to them."""
TECHNIQUE = 'typestate exploration of every path of a job, with exceptions at every call'
NOTE = 'All jobs of the declared types; assumes that errors are standard exceptions (C37) and that a semaphore counts (C40).'

from hz import procs, prog
from hz.prog import walk, rel
from hz.procs import *


class M(procs.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def slot(self, c, s, n, e, fr):
        k = s.mem.get(g('slots'), ZERO)
        want = ZERO if n == 'acquire' else ONE
        c.ob(self.ctx, 'slot', '%s a slot' % ('take' if n == 'acquire' else 'give back'), k is want, e, fr,
             'a job that holds %s slots %s' % (show(k), 'takes another' if n == 'acquire' else 'gives one back'), n)

    def inside(self, c, s, what, e, fr):
        held = s.mem.get(g('slots'), ZERO) is ONE or what in REPORTS
        c.ob(self.ctx, 'inside', what, held and s.mem.get(g('done')) is not ONE, e, fr,
             '%s happens %s' % (what, 'after completion was signalled' if s.mem.get(g('done')) is ONE else 'without a slot'), what)

    def codec(self, c, s, n, blob, e, fr):
        self.inside(c, s, n, e, fr)
        c.ob(self.ctx, 'result', 'work of the job', s.mem.get(g('coded')) is not ONE, e, fr, 'the codec is run twice for one job', 'once')
        s.mem[g('coded')] = ONE

    def archive(self, c, s, n, args, e, fr):
        self.inside(c, s, 'archive operation', e, fr)

    def told(self, c, s):
        if s.mem.get(g('told')) is not None:
            return True
        bad = s.mem.get(g('coded')) is not ONE or s.mem.get(g('raised')) is ONE
        return s.facts.decide(mk('eq0', mk('sfn', 'on_error' if bad else 'on_success'))) is True

    def called(self, c, s, n, args, nonnull, e, fr):
        c.ob(self.ctx, 'present', n, nonnull, e, fr, '%s is called without checking that there is one' % n, n)
        self.inside(c, s, n, e, fr)
        if n in ('on_success', 'on_error'):
            t = s.mem.get(g('told'))
            c.ob(self.ctx, 'result', n, t is None, e, fr, '%s is reported after the job has already reported %s' % (n[3:], t.a[0] if t is not None else ''), 'twice')
            if n == 'on_success':
                ok = s.mem.get(g('coded')) is ONE and s.mem.get(g('raised')) is not ONE
                c.ob(self.ctx, 'result', n, ok, e, fr, 'success is reported although %s' % ('an operation of the job failed' if s.mem.get(g('raised')) is ONE else 'the codec was not run'), 'true')
            s.mem[g('told')] = mk('str', n[3:])
        if n == 'on_completed':
            c.ob(self.ctx, 'completed', n, self.told(c, s), e, fr, 'completion is signalled before the result was reported')
            s.mem[g('done')] = ONE

    def escapes(self, c, s, x, e, fr):
        c.ob(self.ctx, 'contained', 'thread of a job', False, e, fr, '%s leaves the thread (raised at %s:%s)' % (x.type, x.file, x.line), 'escape')

    def finished(self, c, s, e, fr):
        c.ob(self.ctx, 'contained', 'thread of a job', True, e, fr)
        k = s.mem.get(g('slots'), ZERO)
        c.ob(self.ctx, 'slot', 'end of a job', k is ZERO, e, fr, 'a job ends with %s slots' % show(k), 'end')
        c.ob(self.ctx, 'result', 'end of a job', self.told(c, s), e, fr, 'a job ends without reporting success or an error', 'end')
        none = s.facts.decide(mk('eq0', mk('sfn', 'on_completed'))) is True
        c.ob(self.ctx, 'completed', 'end of a job', none or s.mem.get(g('done')) is ONE, e, fr, 'a job ends without signalling completion', 'end')
        s.mem[g('ran')] = add(s.mem.get(g('ran'), ZERO), ONE)

    def done(self, c, outs, p):
        f = p.one('HZ_Processor::run')
        bad = [o for o in outs if o[0] != 'r' or o[1].mem.get(g('ran'), ZERO) is not ONE]
        self.ctx.ob('started', 'run', not bad, f.rel, f.q, f.line, 'a submitted job is not started exactly once' if not bad or bad[0][0] == 'r' else '%s is raised' % bad[0][2].type, [], 'once')


def run(ctx):
    ctx.rule('slot', 'a job holds one slot from before its work to its end', 3)
    ctx.rule('inside', 'all work of a job happens while it holds a slot, and nothing after completion was signalled', 5)
    ctx.rule('result', 'either success or an error is reported, once, and success only after the work', 3)
    ctx.rule('completed', 'completion is signalled once, after the result', 2)
    ctx.rule('present', 'callbacks are called only if there are any', 3)
    ctx.rule('contained', 'no exception leaves the thread of a job')
    ctx.rule('started', 'a submitted job is started once')
    ctx.rule('limit', 'the number of slots is the configured one')
    ctx.rule('reports', 'the functions a job reports through do not raise', 4)
    m = M(ctx)
    p, cl, I, outs = procs.decide(ctx, m)
    slots(ctx, p)
    reports(ctx)
    ctx.assume('codecs, the archive and callbacks raise standard exceptions only (C37)')


def slots(ctx, p):
    for f in p.byq.get('HZ_Processor::cycle', []):
        cl = Proc([Bal()])
        I = engine.Interp(p, cl)
        cl.I = I
        outs = I.run(f, None, mk('obj', 'processor'), [])
        ok = bool(outs) and all(o[0] == 'r' and o[1].mem.get(g('slots'), ZERO) is ZERO for o in outs)
        ctx.ob('slot', 'cycle', ok, f.rel, f.q, f.line, 'waiting for a free slot changes the number of slots', [], 'cycle')
    for f in p.byq.get('HZ_Processor::HZ_Processor', []):
        if not f.params or f.d.get('implicit') or len(f.params) != 1 or not f.params[0]['t'].isint:
            continue
        cl = Proc([])
        got = []
        call0 = cl.call

        def call(I, e, name, st, obj, args, fr, out):
            if name == 'Semaphore::(ctor)':
                got.append(I.argval(st, e, 0, args) if args else ZERO)
                return [(st, mk('str', 'semaphore'))]
            return call0(I, e, name, st, obj, args, fr, out)
        cl.call = call
        I = engine.Interp(p, cl)
        cl.I = I
        n = mk('sym', 'n_threads')
        n.nn = True
        outs = I.run(f, None, mk('obj', 'processor'), [n])
        ctx.ob('limit', 'processor', got == [n], f.rel, f.q, f.line, 'the processor has %s slots, not the configured number' % ', '.join(show(x) for x in got))


class Bal(procs.Monitor):
    pass


def reports(ctx):
    from hz import sweep
    p = prog.load([('src/hzip_network/api/handlers/streamer.cpp', 'cpu'), ('src/hzip_network/api/handlers/socket_class.cpp', 'cpu')])
    memo = {}

    def body_raises(n, fn, depth=0):
        if depth > 40:
            return 'too deep'
        for x in walk(n):
            if x.get('k') == 'throw':
                return 'a throw at line %s' % x.get('l')
            if x.get('k') in ('call', 'ctor') and x.get('fn') in p.fns:
                r = raises(p.fns[x['fn']], depth + 1)
                if r:
                    return '%s' % r
        return None

    def raises(f, depth):
        if f.id in memo:
            return memo[f.id]
        memo[f.id] = None
        r = None
        if f.rel.startswith('src/') and f.body is not None:
            r = body_raises(f.body, f, depth)
            r = '%s: %s' % (f.q, r) if r else None
        memo[f.id] = r
        return r
    for f in sorted(p.fns.values(), key=lambda f: str(f.id)):
        if not f.rel.startswith('src/') or f.body is None:
            continue
        for x in walk(f.body):
            if x.get('k') in ('call', 'bin') and (x.get('n') == 'operator=' or x.get('op') == '='):
                lhs = x.get('obj') or x.get('a')
                rhs = (x.get('args') or [x.get('b')])[-1]
                if lhs is None or lhs.get('k') != 'mem' or not str(lhs.get('q')).startswith('HZ_JobStub::on_'):
                    continue
                lam = [y for y in walk(rhs) if y.get('k') == 'lambda']
                r = body_raises(lam[0]['body'], f) if lam else None
                ctx.ob('reports', '%s:%s %s' % (f.rel.split('/')[-1], x.get('l'), lhs['n']), r is None, f.rel, f.q, x.get('l'), '%s can raise: %s' % (lhs['n'], r), [], lhs['n'])
                ctx.analysed(f)
