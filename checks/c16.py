"""A whole session is explored as a set of abstract states that count how often its socket was closed and its slot released: on every way
the session can end both counts must be one, nothing may use the socket after it was closed, and no exception may leave the session. The
server's accept loop is explored in the same way: the state holds the accepted connection that is not yet closed or handed over and the
number of slots taken and not handed over; both must be empty whenever the next connection is accepted, a session gets exactly the
accepted socket and one slot of the server's semaphore, and the result of a failed accept is not used."""
TECHNIQUE = 'abstract exploration of a session and of the accept loop with ownership counts in the state'
NOTE = 'All sessions, all results of accept() and setsockopt(). Exceptions raised by the standard library when memory or threads are exhausted are not considered.'

from hz import proto, engine
from hz.proto import g, THIS
from hz.prog import rel
from hz.terms import *

CONNFN = ('setsockopt', 'getsockopt', 'send', 'recv', 'read', 'write', 'shutdown', 'getpeername', 'getsockname', 'fcntl', 'ioctl', 'dup')


class M(proto.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def used(self, c, s, e, fr, what):
        c.ob(self.ctx, 'after', what, s.mem.get(g('closed'), ZERO) is ZERO, e, fr, 'the socket is used after it was closed')

    def op(self, c, s, name, obj, args, e, fr):
        if name == 'close':
            own = args[0] is c.I.load(s, mk('fld', THIS, '_sock'))
            n = s.mem.get(g('closed'), ZERO)
            c.ob(self.ctx, 'close', 'close of the socket', own and n is ZERO, e, fr, 'the socket is closed a second time' if own else 'something else than the socket of the session is closed')
            s.mem[g('closed')] = add(n, ONE)
        if name == 'release':
            n = s.mem.get(g('released'), ZERO)
            o = c.I.load(s, mk('fld', THIS, '_semaphore'))
            c.ob(self.ctx, 'release', 'release of the slot', n is ZERO, e, fr, 'the slot is released a second time')
            s.mem[g('released')] = add(n, ONE)
        if name == 'shutdown':
            self.used(c, s, e, fr, name)
        if name == 'acquire':
            c.ob(self.ctx, 'release', 'slot', False, e, fr, 'a session takes another slot')

    def recv(self, c, s, obj, L, n, size, e, fr):
        self.used(c, s, e, fr, 'receive')

    def send(self, c, s, obj, v, L, n, size, e, fr):
        self.used(c, s, e, fr, 'send')

    def success(self, c, s, obj, e, fr):
        self.used(c, s, e, fr, 'report of success')

    def error(self, c, s, obj, e, fr):
        self.used(c, s, e, fr, 'report of an error')

    def done(self, c, outs):
        f = c.I.P.one('hzapi::ApiInstance::start')
        e, fr = {'l': f.line}, engine.Frame(f.q, f.file)
        for k, s, v in outs:
            if k == 't':
                c.ob(self.ctx, 'end', 'exception', False, e, fr, 'an exception (%s) can leave the session' % v.type, 'throw')
                continue
            c.ob(self.ctx, 'end', 'end of the session', s.mem.get(g('closed')) is ONE, e, fr, 'a session can end without closing its socket exactly once', 'close')
            c.ob(self.ctx, 'end', 'end of the session', s.mem.get(g('released')) is ONE, e, fr, 'a session can end without releasing its slot exactly once', 'release')


class Server(proto.Net):
    """The accept loop."""

    def __init__(self, ctx):
        super().__init__([])
        self.ctx = ctx
        self.accepts = self.sessions = 0

    def want_inline(self, fn, st):
        return super().want_inline(fn, st) and fn.q != 'hzapi::ApiInstance::start'

    def head_(self, st, e, fr, what):
        fd = st.mem.get(g('fd'))
        self.ob(self.ctx, 'accepted', what, fd is None, e, fr, 'an accepted connection is neither closed nor handed to a session')
        self.ob(self.ctx, 'slots', what, st.mem.get(g('slots'), ZERO) is ZERO, e, fr, 'a slot that was taken is neither handed to a session nor released')

    def settled(self, I, st, fr):
        if fr.this is THIS:
            st.mem.pop(g('old'), None)

    def call(self, I, e, name, st, obj, args, fr, out):
        self.I = I
        n, cq = e.get('n'), e.get('cq')
        if name is None:
            return None
        if name in ('accept', '::accept', 'accept4', '::accept4') and cq is None:
            self.accepts += 1
            self.head_(st, e, fr, 'accept')
            bad = st.copy()
            r = I.fresh('connection')
            I.types_of[r] = e['t']
            self.tags[r] = 'conn'
            bad.facts.assume(le(r, c(-1)), True)
            bad.mem.pop(g('fd'), None)
            st.facts.assume(le(ZERO, r), True)
            st.mem[g('fd')] = r
            return [(st, r), (bad, r)]
        if name in ('close', '::close') and cq is None:
            x = I.argval(st, e, 0, args)
            if self.tags.get(x) == 'conn':
                ok = st.mem.get(g('fd')) is x
                self.ob(self.ctx, 'accepted', 'close', ok, e, fr, 'a connection is closed that was closed before, was handed to a session, or was never accepted')
                st.mem.pop(g('fd'), None)
            return [(st, I.result(e, name, st))]
        if n in CONNFN and cq is None and args:
            x = I.argval(st, e, 0, args)
            if self.tags.get(x) == 'conn':
                self.ob(self.ctx, 'accepted', n, st.mem.get(g('fd')) is x, e, fr, '%s is given a connection that was closed before, was handed to a session, or was never accepted' % n)
            r = I.fresh(n)
            I.types_of[r] = e['t']
            return [(st, r)]
        if cq == 'Semaphore' and n in ('acquire', 'release'):
            k = st.mem.get(g('slots'), ZERO)
            if n == 'release':
                self.ob(self.ctx, 'slots', n, st.facts.decide(le(ONE, k)) is True, e, fr, 'a slot is released that was not taken or was handed to a session')
            st.mem[g('slots')] = add(k, ONE if n == 'acquire' else c(-1))
            return [(st, ZERO)]
        if name == 'hzapi::ApiInstance::start':
            self.sessions += 1
            F = lambda f: I.load(st, mk('fld', obj, f))
            x = F('_sock')
            fd = st.mem.get(g('fd'))
            self.ob(self.ctx, 'session', 'socket of the session', fd is not None and x is fd, e, fr, 'the session does not get the accepted connection (%s, %s)' % (show(x), show(fd) if fd is not None else 'none'))
            k = st.mem.get(g('slots'), ZERO)
            self.ob(self.ctx, 'session', 'slot of the session', st.facts.decide(le(ONE, k)) is True, e, fr, 'a session is started without a slot')
            a, b = I.load(st, mk('fld', obj, '_semaphore')), I.load(st, mk('fld', THIS, '_semaphore'))
            same = a is b or show(a) == show(b)
            self.ob(self.ctx, 'session', 'semaphore of the session', same, e, fr, 'the session releases another semaphore than the one its slot was taken from')
            st.mem.pop(g('fd'), None)
            st.mem[g('slots')] = sub(k, ONE)
            return [(st, ZERO)]
        if cq == 'std::thread' and n in ('detach', 'join'):
            t = I.load(st, obj) if isloc(obj) else obj
            if t.op == 'thread' and t.a and t.a[0].op in ('clo', 'fnref'):
                e2 = {'k': 'call', 'l': e.get('l', 0), 'args': [], 't': None, 'tu': e.get('tu')}
                return [(s, ZERO) for s, _ in I.call_value(t.a[0], e2, st, list(t.a[1:]), fr, out)]
            return None
        if name.startswith('loguru::') or cq is not None and cq.startswith('loguru::'):
            return super().call(I, e, name, st, obj, args, fr, out)
        return None

    def opaque(self, I, e, name, st, obj, args, fr, out):
        return ()

    def loop_round(self, I, n, st, fr, rng, k):
        pass


def run(ctx):
    ctx.rule('close', 'the socket of a session is closed once', 1)
    ctx.rule('release', 'the slot of a session is released once', 1)
    ctx.rule('after', 'nothing uses the socket after it was closed', 30)
    ctx.rule('end', 'a session ends with its socket closed and its slot released', 2)
    ctx.rule('accepted', 'an accepted connection is closed or handed over, once', 2)
    ctx.rule('slots', 'slots taken are handed over or released', 2)
    ctx.rule('session', 'a session gets the accepted socket and a slot', 3)
    cl, I, outs = proto.decide(ctx, M(ctx))
    p = I.P
    sv = Server(ctx)
    I2 = engine.Interp(p, sv)
    f = p.one('hzapi::Api::start')
    outs = I2.run(f, this=THIS)
    ctx.analysed(f, *sorted(sv.fns, key=lambda f: f.q))
    if not sv.accepts or not sv.sessions:
        raise proto.AnalysisError('no accept() or no session in the accept loop')
    e, fr = {'l': f.line}, engine.Frame(f.q, f.file)
    for k, s, v in outs:
        sv.head_(s, e, fr, 'end of the accept loop')
    sv.report(ctx)
