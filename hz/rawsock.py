"""SocketInterface on the level of send() and recv(): what is transferred, in which order, and what is known about the results."""
from . import engine, prog
from .proto import SOCK, CONN, UNITS, g
from .engine import Exc
from .prog import rel, walk
from .terms import *

TH = mk('obj', 'socket')
RAW = ('send', 'recv', 'write', 'read', 'sendto', 'recvfrom')
BUF, N = mk('obj', 'payload'), mk('sym', 'n', -1)
N.nn = True


def israw(e):
    return e.get('k') == 'call' and e.get('n') in RAW and e.get('cq') is None and e.get('fn') is None or \
        e.get('k') == 'call' and e.get('n') in RAW and e.get('cq') is None


class Base(engine.Client):
    max_paths = 2000

    def __init__(self):
        self.fns = set()

    def want_inline(self, fn, st):
        r = fn.rel.startswith('src/hzip_network/')
        if r:
            self.fns.add(fn)
        return r

    def opaque(self, I, e, name, st, obj, args, fr, out):
        return ()


class Transfers(Base):
    """Whether a function that returns normally has transferred all it was asked for."""
    tracing = False

    def __init__(self, ctx, f, status, payload, way):
        super().__init__()
        self.ctx, self.f, self.status, self.payload, self.way = ctx, f, status, payload, way

    def collects(self, I, n, st, fr):
        return any(israw(x) for x in walk(n))

    def ob(self, rule, what, ok, e, fr, msg):
        self.ctx.ob(rule, '%s: %s' % (self.f.q.split('::')[-1], what), ok, rel(fr.file), fr.name, e.get('l') or 0, msg, fr.stack(), self.f.q.split('::')[-1])

    def checked(self, I, st, e, fr):
        r = st.mem.get(g('r'))
        if r is not None:
            self.ob('result', 'result before the next step', st.facts.decide(le(ZERO, r)) is True, e, fr, 'goes on although the transfer before may have failed')
            st.mem.pop(g('r'))

    def call(self, I, e, name, st, obj, args, fr, out):
        if not israw(e):
            return None
        way = 'send' if e['n'] in ('send', 'write', 'sendto') else 'recv'
        av = [I.argval(st, e, i, args) for i in range(len(args))]
        L = I.deref(av[1])
        n = av[2]
        r = I.fresh(way)
        I.types_of[r] = e['t']
        st.facts.assume(le(c(-1), r), True)
        st.facts.assume(le(r, n), True)
        self.ob('socket', 'socket of the transfer', av[0] is I.load(st, mk('fld', TH, '_sock')), e, fr, 'the transfer does not use the socket of the session')
        self.checked(I, st, e, fr)
        off = st.mem.get(g('off'), ZERO)
        if self.payload and L.op == 'el' and L.a[0] is BUF:
            done = not self.status or st.facts.decide(eq(st.mem.get(g('st'), ZERO), ONE)) is True
            self.ob('order', 'status byte before the payload', done, e, fr, 'the payload is transferred before the status byte is known to be sent')
            self.ob('place', 'part of the payload', way == self.way and st.facts.decide(eq(L.a[1], off)) is True and st.facts.decide(le(add(off, n), N)) is True, e, fr,
                    'the transfer (%s bytes at %s) does not continue the payload at %s' % (show(n), show(L.a[1]), show(off)))
            st.mem[g('off')] = add(off, r)
        elif way == 'send':
            v = I.load(st, L) if L.op != 'el' else None
            self.ob('order', 'status byte', self.status and n is ONE and v is ZERO and st.facts.decide(eq(st.mem.get(g('st'), ZERO), ONE)) is not True and off is ZERO, e, fr,
                    'something else than one success byte is sent around the payload')
            st.mem[g('st')] = r
        else:
            self.ob('place', 'part of the payload', False, e, fr, 'data is received into something else than the given buffer')
        st.mem[g('r')] = r
        return [(st, r)]


def transfers(ctx, p, name, status, payload, way, args):
    f = p.one(SOCK + '::' + name)
    cl = Transfers(ctx, f, status, payload, way)
    I = engine.Interp(p, cl)
    cl.I = I
    av = {'buf': mk('ptr', mk('el', BUF, ZERO)), 'n': N}
    outs = I.run(f, this=TH, args=[av[a] if a in av else a for a in args])
    e = {'l': f.line}
    fr = engine.Frame(f.q, f.file)
    for k, s, v in outs:
        if k == 't':
            cl.ob('raises', 'exception %s' % v.type, v.type == CONN or CONN in p.bases(v.type), e, fr, 'a failed transfer raises %s, not a connection error' % v.type)
        else:
            if status:
                st = s.mem.get(g('st'), ZERO)
                cl.ob('complete', 'status byte', s.facts.decide(eq(st, ONE)) is True, e, fr, 'returns normally although the status byte may not have been sent')
            if payload:
                cl.ob('complete', 'payload', s.facts.decide(eq(s.mem.get(g('off'), ZERO), N)) is True, e, fr, 'returns normally although the payload may not have been transferred completely')
    ctx.analysed(*sorted(cl.fns | {f}, key=lambda f: f.q))


class Frames(Base):
    """Sequence of what is sent."""

    def call(self, I, e, name, st, obj, args, fr, out):
        ts = e.get('cq') == SOCK and e.get('n') == 't_send'
        if not ts and not israw(e):
            return None
        av = [I.argval(st, e, i, args) for i in range(len(args))]
        if not ts:
            av = av[1:]
        L = I.deref(av[0])
        v = I.load(st, L) if L.op != 'el' and av[0].op == 'ptr' else None
        w = None
        for x in walk(e['args'][0 if ts else 1]):
            if x.get('k') == 'un' and x.get('op') == '&':
                t = (x.get('e') or x.get('a')).get('t')
                w = t.strip().w if t is not None else None
        r = I.fresh('sent')
        I.types_of[r] = mk_type(e)
        I.emit(st, 'frame', e, fr, n=av[1], v=v, buf=av[0], w=w, r=r, ts=ts)
        if ts:
            s2 = st.copy()
            out.append(('t', s2, Exc(CONN, None, e.get('l', 0), rel(fr.file), fr.name, 'send failed')))
        return [(st, r)]


def mk_type(e):
    return e.get('t')


def framing(ctx, rule):
    p = prog.load(UNITS)
    for name, first in (('success', None), ('error', 0xff)):
        f = p.one(SOCK + '::' + name)
        cl = Frames()
        I = engine.Interp(p, cl)
        outs = I.run(f, this=TH)
        n = 0
        for k, s, v in outs:
            ev = [x for x in s.events() if x.k == 'frame']
            if k == 't':
                ctx.ob(rule, '%s: exception' % name, name == 'success', f.rel, f.q, f.line, 'reporting an error raises %s' % (v.type if v is not None else 'an exception'), [], name + ':throw')
                continue
            msg = 'the message is not sent as its length (2 bytes) and that many of its bytes'
            want = []
            ok = len(ev) == (2 if first is None else 3)
            # giving up after a failed send is fine
            short = ev and not ok and s.facts.decide(eq(ev[-1].d['r'], ev[-1].d['n'])) is not True and name == 'error'
            i = 0
            if first is not None and ev:
                x = ev[0].d
                if not (x['n'] is ONE and x['v'] is not None and x['v'].op == 'c' and x['v'].a[0] & 0xff == first):
                    ok = short = False
                    msg = 'the report does not start with the error byte'
                i = 1
            if len(ev) > i:
                x = ev[i].d
                ok = ok and x['n'].op == 'c' and x['n'].a[0] == 2 and x['w'] == 16 and x['v'] is not None and 'len' in show(x['v'])
                short = short and ok is not None and x['n'].op == 'c' and x['n'].a[0] == 2
                if len(ev) > i + 1:
                    y = ev[i + 1].d
                    ok = ok and x['v'] is not None and (y['n'] is x['v'] or s.facts.decide(eq(y['n'], x['v'])) is True) and 'msg' in show(y['buf'])
            if not ev:
                ok = False
            n += 1
            ctx.ob(rule, '%s: frame' % name, ok or bool(short), f.rel, f.q, f.line, msg, [str(x) for x in ev], name)
        ctx.analysed(f, *sorted(cl.fns, key=lambda f: f.q))
