"""A whole network session is explored as a set of abstract states. Each received path carries a mark that only the path validator sets
and that a new receive or a write to its characters removes. At every operation that creates, replaces or removes an entry of an
archive's index (file or model state), and at every job that is given a model-state address, the path must carry the mark."""
TECHNIQUE = 'taint typestate (received / validated) in an abstract exploration of a session'
NOTE = 'All command sequences. The validator itself is C12; that the archive indexes exactly the path it is given is C04/C05.'

from hz import proto
from hz.terms import *


class M(proto.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def op(self, c, s, name, obj, args, e, fr):
        w = proto.PATHOPS.get(name)
        if w is None or e.get('cq') != 'HZ_Archive' or not w[1]:
            return
        tag, ok = c.path_tag(s, args[w[0]])
        c.ob(self.ctx, 'validated', name, ok, e, fr, 'the path given to %s (%s) was not accepted by the path validator on some way here' % (name, tag), name)

    def run(self, c, s, job, codec, stub, e, fr):
        a = c.I.load(s, mk('fld', codec, 'mstate_addr'))
        if a.op in ('none', 'zero') or s.facts.decide(mk('is_some', a)) is False:
            return
        tag, ok = c.path_tag(s, a)
        c.ob(self.ctx, 'validated', 'address of a job', ok, e, fr, 'the model-state address given to a job (%s) was not accepted by the path validator on some way here' % tag, 'job')


def run(ctx):
    ctx.rule('validated', 'a path that names what is changed was accepted by the validator', 7)
    proto.decide(ctx, M(ctx))
