"""A whole network session is explored as a set of abstract states; every optional request part is an option whose presence is part of
the state. Taking the content of an option requires that it is known to be present; the algorithm of a job must be one the client sent
and known to be non-zero; a job that decompresses needs a model state or the address of one; a reply with data needs that the client
asked for data."""
TECHNIQUE = 'abstract exploration of a session with presence facts for every optional request part'
NOTE = 'All command sequences.'

from hz import proto
from hz.proto import ghost, g
from hz.terms import *


class M(proto.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def inner(self, c, s, v, e, fr):
        if s.facts.decide(mk('is_some', v)) is not True and v.op != 'some':
            c.ob(self.ctx, 'present', 'content of an optional part', False, e, fr, 'the content of an optional part is used on a way on which it was not checked to be there')

    def opened(self, c, s, v, e, fr):
        c.ob(self.ctx, 'present', 'content of an optional part', True, e, fr)

    def alg(self, c, s, a, e, fr, what):
        while a.op in ('box', 'trunc'):
            a = next(x for x in a.a if isinstance(x, T))
        tag = c.tags.get(a)
        known = s.facts.decide(eq(a, ZERO)) is False
        return tag, known

    def run(self, c, s, job, codec, stub, e, fr):
        a = c.I.load(s, mk('fld', codec, 'algorithm'))
        cm = c.command(s)
        tag, nz = self.alg(c, s, a, e, fr, 'job')
        received = str(tag).endswith(':4')
        stored = 'mstate' in show(a)
        ok = received and nz or stored
        c.ob(self.ctx, 'algorithm', 'algorithm of a job', ok, e, fr, 'the algorithm of the job (%s, %s) need not be one the client sent' % (show(a), tag), 'job')
        blob = c.I.deref(c.I.lib.unwrap(s, c.I.load(s, mk('fld', codec, 'blob'))))
        t = c.I.load(s, mk('fld', codec, 'job_type'))
        addr = c.I.load(s, mk('fld', codec, 'mstate_addr'))
        arch = c.I.load(s, mk('fld', codec, 'archive'))
        there = lambda v: v.op == 'some' or s.facts.decide(mk('is_some', v)) is True
        if t is JOB(c, 'TRAIN'):
            c.ob(self.ctx, 'training', 'training job', there(addr) and there(arch), e, fr,
                 'a training is started without the %s it stores its result in' % ('archive' if there(addr) else 'address'), 'train')
        if t is JOB(c, 'DECODE'):
            m = s.mem.get(mk('fld', blob, 'mstate'))
            has = there(addr) or m is not None and m.op == 'ptr' \
                or blob.op == 'el' and s.mem.get(ghost(blob.a[0], 'stored')) is ONE
            c.ob(self.ctx, 'mstate', 'model state of a decompression', has, e, fr, 'a decompression is started with neither a model state nor the address of one', 'decode')

    def op(self, c, s, name, obj, args, e, fr):
        if name == 'algorithm_to_bsize':
            tag, nz = self.alg(c, s, args[0], e, fr, name)
            c.ob(self.ctx, 'algorithm', 'block size', nz and str(tag).endswith(':4'), e, fr, 'the block size is taken for an algorithm the client need not have sent (%s)' % show(args[0]), 'bsize')

    def send(self, c, s, obj, v, L, n, size, e, fr):
        cm = c.command(s)
        if cm is None or cm[0] == 'API':
            return
        if cm == ('QUERY', [6]):
            return
        c.ob(self.ctx, 'asked', 'reply with data', s.mem.get(g('pb')) is ONE, e, fr, 'data is sent to a client that has not asked for any')


def JOB(c, name):
    return mk('c', {v[0]: v[1] for v in c.I.P.enum('HZ_CodecJob::CodecJobType')['vals']}[name])


def run(ctx):
    ctx.rule('present', 'the content of an optional part is used only where it is known to be there', 15)
    ctx.rule('algorithm', 'the algorithm of a job or a block size is one the client (or the stored blob) named', 5)
    ctx.rule('mstate', 'a decompression has a model state', 2)
    ctx.rule('training', 'a training is started only with an archive and an address to store the result at', 1)
    ctx.rule('asked', 'data is sent only to a client that asked for it', 8)
    proto.decide(ctx, M(ctx))
