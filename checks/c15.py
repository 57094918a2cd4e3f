"""A whole session is explored as a set of abstract states. The state knows the random token of the session, whether the client was sent
its encryption under the session's password, and the value the client sent back afterwards. Every receive of a command, every operation
on an archive and every job needs the fact that the value sent back equals the token; before that only the token is drawn, encrypted and
sent, and nothing that reveals the plain token is sent."""
TECHNIQUE = 'abstract exploration of a session with the facts established by the handshake'
NOTE = 'All sessions. The strength of the token generator and of the encryption is not in scope.'

from hz import proto
from hz.proto import g
from hz.terms import *

BEFORE = ('hz_rand64', 'hz_enc_token', 'close', 'shutdown', 'release')


class M(proto.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def passed(self, s):
        if s.mem.get(g('auth')) is ONE:
            return True
        t, a = s.mem.get(g('token')), s.mem.get(g('answer'))
        return t is not None and a is not None and s.facts.decide(eq(t, a)) is True

    def closing(self, c, s):
        if self.passed(s):
            s.mem[g('auth')] = ONE
            s.mem.pop(g('token'), None)
            s.mem.pop(g('answer'), None)

    def send(self, c, s, obj, v, L, n, size, e, fr):
        if self.passed(s):
            return
        while v is not None and v.op == 'trunc':
            v = v.a[2]
        enc = v is not None and v.op == 'enc' and len(v.a) == 2
        if enc:
            pw, tok = v.a
            src = show(pw)
            fresh_ = c.tags.get(tok) == 'token'
            ok = fresh_ and pw is c.I.load(s, mk('fld', proto.THIS, '_password'))
            c.ob(self.ctx, 'challenge', 'value sent before the handshake', ok, e, fr,
                 'the challenge is not a fresh random token encrypted with the password of the session (%s, %s)' % (src, show(tok)))
            if ok and n.op == 'c' and n.a[0] == 8:
                s.mem[g('token')] = tok
                s.mem.pop(g('answer'), None)
        else:
            c.ob(self.ctx, 'challenge', 'value sent before the handshake', False, e, fr, 'something else than the encrypted token is sent before the handshake has succeeded: %s' % (show(v) if v is not None else '?'))

    def got(self, c, s, obj, v, n, e, fr):
        if g('token') in s.mem and g('answer') not in s.mem and n.op == 'c' and n.a[0] == 8:
            s.mem[g('answer')] = v

    def word(self, c, s, obj, group, e, fr):
        c.ob(self.ctx, 'command', 'receive of a command (%s)' % group, self.passed(s), e, fr, 'a command is read without the client having returned the plain token', group)

    def op(self, c, s, name, obj, args, e, fr):
        if name in BEFORE:
            return
        c.ob(self.ctx, 'effect', name, self.passed(s), e, fr, '%s is reached without the client having returned the plain token' % name, name)

    def run(self, c, s, job, codec, stub, e, fr):
        c.ob(self.ctx, 'effect', 'job', self.passed(s), e, fr, 'a job is started without the client having returned the plain token', 'run')

    def success(self, c, s, obj, e, fr):
        c.ob(self.ctx, 'told', 'report of success', self.passed(s), e, fr, 'success is reported without the client having returned the plain token')


def run(ctx):
    ctx.rule('challenge', 'before the handshake has succeeded only the fresh token, encrypted with the session\'s password, is sent', 1)
    ctx.rule('command', 'commands are read only after the client returned the plain token', 6)
    ctx.rule('effect', 'archives and jobs are reached only after the client returned the plain token', 12)
    ctx.rule('told', 'success is reported only after the client returned the plain token', 4)
    proto.decide(ctx, M(ctx))
