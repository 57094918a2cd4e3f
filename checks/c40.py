"""Abstract interpretation of every operation of the counting semaphore on every path. Whenever an operation waits, everything the
lock protects is forgotten, so what an operation relies on afterwards must have been established after its last wait and under the
lock. Acquiring must have seen a positive counter under that lock and take exactly one from it; releasing must add exactly one and
notify on every path, not before the lock is taken; loops may go on only after a wait."""
TECHNIQUE = 'abstract interpretation with havoc at waits: typestate of the lock and exact effect on the counter'
NOTE = 'Holds for every schedule and count below 2^64, because the counter is unknown after each wait; trusts std::mutex and std::condition_variable.'

from hz import archive, prog, engine
from hz.terms import *
from hz.extract import AnalysisError

UNITS = [('src/hzip_core/utils/semaphore.cpp', 'cpu')]
CQ = 'Semaphore'
TH = mk('obj', 'semaphore')


class Client(engine.Client):
    keep_loops = True

    def __init__(self, fields):
        self.fields = fields

    def held(self, st):
        return st.cl.get('held', ())

    def on_lock(self, I, st, m, e, fr, kind):
        st.cl['held'] = self.held(st) + (m,)
        self.havoc(I, st)

    def on_unlock(self, I, st, m, e, fr, kind):
        h = list(self.held(st))
        if m in h:
            h.remove(m)
        st.cl['held'] = tuple(h)

    def havoc(self, I, st):
        for n, t in self.fields.items():
            st.mem[I.fld(TH, n)] = I.fresh('count', t)

    def on_read(self, I, st, loc, e, fr):
        if under(loc, TH) and loc.op == 'fld' and loc.a[1] in self.fields:
            I.emit(st, 'rd', e, fr, loc=loc, held=self.held(st))

    def on_write(self, I, st, loc, v, e, fr):
        if under(loc, TH) and loc.op == 'fld' and loc.a[1] in self.fields:
            I.emit(st, 'w', e, fr, loc=loc, old=I.load(st, loc), new=v, held=self.held(st))

    def on_event(self, I, st, ev):
        if ev.k in ('notify', 'cvwait'):
            ev.d['held'] = self.held(st)

    def on_cvwait(self, I, e, st, obj, av, fr, out):
        lk = I.load(st, av[0]) if isloc(av[0]) else av[0]
        st.cl['waited'] = True
        if len(av) < 2:
            self.havoc(I, st)
            return [(st, ZERO)]
        timed = e['n'] != 'wait'
        pred = av[-1]
        r = []
        for s, b in self.pred(I, pred, e, st, fr, out):
            if b:
                r.append((s, ONE))
                continue
            self.havoc(I, s)
            for s2, b2 in self.pred(I, pred, e, s, fr, out):
                if b2 or timed:
                    r.append((s2, ONE if b2 else ZERO))
        return r

    def pred(self, I, pred, e, st, fr, out):
        for s, v in I.call_value(pred, e, st, [], fr, out):
            yield from I.split(s, v)


def run(ctx):
    ctx.rule('exclusive', 'the counter is read and written only under the lock', 3)
    ctx.rule('wait-locked', 'waiting gives up the lock that protects the counter, on the condition that release notifies', 1)
    ctx.rule('acquire', 'acquiring takes exactly one unit, and only if there is one', 1)
    ctx.rule('release', 'releasing adds exactly one unit', 1)
    ctx.rule('wakes', 'every release wakes a waiter, after the counter has changed or while it cannot be looked at', 1)
    ctx.rule('no-spin', 'an operation goes round only after it has waited', 0)
    ctx.rule('returns', 'every operation can complete and none fails', 2)
    ctx.rule('initial', 'the semaphore starts with the units it is created with', 1)
    ctx.assume('a waiter that is woken is eventually scheduled', 'fewer than 2^64 units are released')
    p = prog.load(UNITS)
    ctx.program(p)
    rec = p.rec(CQ)
    ints = {x['n']: x['t'] for x in rec['fields'] if x['t'].isint}
    if not ints:
        raise AnalysisError('the semaphore has no counter')
    fns = [f for f in p.fns.values() if f.cq == CQ]
    waited, notified = set(), set()
    for f in sorted(fns, key=lambda f: f.line):
        if f.kind == 'ctor':
            if f.d.get('implicit') or len(f.params) != 1 or not f.params[0]['t'].isint:
                continue
            I = engine.Interp(p, engine.Client())
            ctx.analysed(f)
            for kind, s, v in I.run(f, this=TH):
                vals = [I.load(s, I.fld(TH, n)) for n in ints]
                ok = kind == 'r' and any(lin(x) == lin(arg(I, f)) for x in vals)
                ctx.ob('initial', '%s sets %s' % (f.q, ', '.join(show(x) for x in vals)), ok, f.rel, f.q, f.line, 'the counter does not start with the given number of units')
            continue
        if f.kind != 'method' or f.d.get('implicit'):
            continue
        I = engine.Interp(p, Client(ints))
        ctx.analysed(f)
        outs = I.run(f, this=TH)
        ctx.ob('returns', f.q, any(k == 'r' for k, _, _ in outs), f.rel, f.q, f.line, '%s never returns' % f.q)
        for kind, s, v in outs:
            evs = s.events()
            trace = archive.pathdesc(evs)
            at = dict(file=f.rel, func=f.q, line=f.line, path=trace)
            fl = list(archive.flat(evs))
            for e, _ in fl:
                if e.k in ('rd', 'w'):
                    ctx.ob('exclusive', '%s: %s of %s' % (f.q, 'read' if e.k == 'rd' else 'write', show(e.loc)), bool(e.held) and all(under(m, TH) for m in e.held), e.file, f.q, e.line,
                           'the counter is %s without the lock' % ('read' if e.k == 'rd' else 'changed'), trace)
                if e.k == 'cvwait':
                    ctx.ob('wait-locked', '%s waits' % f.q, len(e.held) == 1, e.file, f.q, e.line, 'waiting without the lock, or with another lock', trace)
                    waited.add(e.cv)
                if e.k == 'notify':
                    notified.add(e.cv)
                if e.k == 'loop':
                    for k, body, _ in e.body:
                        if k == 'cont':
                            ctx.ob('no-spin', '%s: loop of line %d' % (f.q, e.line), any(x.k == 'cvwait' for x in body), e.file, f.q, e.line, 'the operation can go round without waiting', archive.pathdesc(body))
            if kind == 't':
                ctx.ob('returns', f.q, False, msg='%s can raise' % f.q, **at)
                continue
            ws = [e for e, _ in fl if e.k == 'w']
            total = None
            if ws:
                d = [sub(e.new, e.old) for e in ws]
                total = d[0]
                for x in d[1:]:
                    total = add(total, x)
                if any(lo for e, lo in fl if e.k == 'w'):
                    total = None
            if f.n in ('acquire', 'wait', 'down', 'P'):
                ok = total is not None and total is c(-1)
                ctx.ob('acquire', '%s takes one unit' % f.q, ok, msg='a path changes the counter by %s instead of taking one unit' % (show(total) if total is not None else 0), detail='one', **at)
                if ok:
                    w = ws[0]
                    ctx.ob('acquire', '%s found a unit' % f.q, s.facts.decide(le(ONE, w.old)) is True, msg='a unit is taken although none may be there', detail='found', **at)
            elif f.n in ('release', 'post', 'up', 'V', 'signal'):
                ctx.ob('release', '%s adds one unit' % f.q, total is not None and total is ONE, msg='a path changes the counter by %s instead of adding one unit' % (show(total) if total is not None else 0), detail='one', **at)
                ns = [e for e in evs if e.k == 'notify']
                i = [evs.index(e) for e in ws if e in evs]
                ok = bool(ns) and all(e.held or i and evs.index(e) > max(i) for e in ns)
                ctx.ob('wakes', '%s wakes a waiter' % f.q, ok, msg='a path of release wakes no waiter' if not ns else 'the waiter is woken before the unit is there', **at)
            elif ws:
                bad = [e for e in ws if e.new is not None and s.facts.decide(le(ZERO, e.new)) is not True]
                ctx.ob('acquire', f.q, not bad, msg='the counter can drop below zero', detail='other', **at)
    ctx.ob('wait-locked', 'conditions waited for', waited <= notified, UNITS[0][0], CQ, 0, 'a condition that is waited for is never notified', detail='pair')


def arg(I, f):
    return I.load(engine.State(), mk('obj', 'arg:' + f.params[0]['n']))
