"""A whole session is explored as a set of abstract states in which every submitted job may succeed or fail; success and failure run the
callbacks the job was given. After a failure, no way through the code may report success or create a file entry, further blocks may not
be submitted as if nothing had happened, and the request ends only after the client was told. Nor may a request end or report success
while a job of it may still be running. In the processor, every path of a job on which the codec, the archive or a callback raises
must reach the error callback, and never the one for success."""
TECHNIQUE = 'abstract exploration of a session with failure injection at every job'
NOTE = 'All numbers of blocks and all positions of failing blocks. Assumes that a job signals its end exactly once (C25).'

from hz import proto, procs
from hz.proto import g
from hz.terms import *


class M(proto.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def failed(self, s):
        return s.mem.get(g('failed')) is ONE

    def pending(self, s):
        return s.mem.get(g('job'), NULL) is not NULL

    def success(self, c, s, obj, e, fr):
        c.ob(self.ctx, 'success', 'report of success', not self.failed(s), e, fr, 'success is reported although a job of the request has failed')
        c.ob(self.ctx, 'finished', 'report of success', not self.pending(s), e, fr, 'success is reported although a job of the request may still be running', 'success')

    def op(self, c, s, name, obj, args, e, fr):
        if name == 'create_file_entry':
            c.ob(self.ctx, 'entry', name, not self.failed(s), e, fr, 'a file entry is created although a job of the request has failed')
            c.ob(self.ctx, 'finished', name, not self.pending(s), e, fr, 'a file entry is created although a job of the request may still be running', 'entry')
        if name == '#deadlock':
            c.ob(self.ctx, 'mutex', 'lock of the session mutex', False, e, fr, 'the session waits for a mutex that no job of it will release')

    def run(self, c, s, job, codec, stub, e, fr):
        c.ob(self.ctx, 'stop', 'job', not self.failed(s), e, fr, 'another block is processed although one has failed')
        st = c.I.load(s, mk('fld', stub, 'on_error'))
        c.ob(self.ctx, 'stop', 'error callback of the job', st.op in ('clo', 'fnref'), e, fr, 'the job is started without anybody being told of its failure', 'callback')

    def ready(self, c, s, fr):
        e = {'l': fr.fn.line}
        c.ob(self.ctx, 'told', 'end of a request', not self.failed(s) or s.mem.get(g('told')) is ONE, e, fr, 'a request ends without the client being told that a job has failed')
        c.ob(self.ctx, 'finished', 'end of a request', not self.pending(s), e, fr, 'a request ends although a job of it may still be running', 'request')


class Job(procs.Monitor):
    """In the processor: an operation of the job that fails is reported as an error."""

    def __init__(self, ctx):
        self.ctx = ctx

    def called(self, c, s, n, args, nonnull, e, fr):
        raised = s.mem.get(g('raised')) is ONE
        if n == 'on_success':
            c.ob(self.ctx, 'job', 'success of a job', not raised, e, fr, 'a job reports success although one of its operations failed', n)
        if n == 'on_error':
            s.mem[g('error')] = ONE
        if n == 'on_completed' or n in procs.CALLBACKS:
            self.told(c, s, e, fr, n)

    def told(self, c, s, e, fr, what):
        raised = s.mem.get(g('raised')) is ONE
        none = s.facts.decide(mk('eq0', mk('sfn', 'on_error'))) is True
        c.ob(self.ctx, 'job', 'failure of a job', not raised or none or s.mem.get(g('error')) is ONE, e, fr,
             'the failure of an operation of a job is not reported', what)

    def finished(self, c, s, e, fr):
        self.told(c, s, e, fr, 'end')

    def done(self, c, outs, p):
        pass


def run(ctx):
    ctx.rule('success', 'success is not reported after a failed job', 7)
    ctx.rule('entry', 'no file entry is created after a failed job', 1)
    ctx.rule('stop', 'a failed job stops the request, and somebody is told', 8)
    ctx.rule('told', 'a request with a failed job ends only after the client was told', 1)
    ctx.rule('finished', 'nothing ends or succeeds while a job may still be running', 9)
    ctx.rule('mutex', 'the session does not wait for itself', 0)
    ctx.rule('job', 'the processor reports every failed operation of a job as an error', 2)
    proto.decide(ctx, M(ctx))
    procs.decide(ctx, Job(ctx))
