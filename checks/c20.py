"""A whole network session is explored as a set of abstract states (fixpoint at the command loops). At every receive the number of bytes
asked for is compared with the size of the object written to: the number of elements it was allocated with times the element size, or
the size of the scalar; the length is an arbitrary value the client announced. Wherever received characters are used as a string
(path, address, log message), an element behind the received bytes and within the allocation must be known to be zero."""
TECHNIQUE = 'abstract interpretation of a session (fixpoint over command loops) with buffer capacities, fill levels and terminators in the state'
NOTE = 'All command sequences, all announced lengths up to the width of the field; allocation failure throws.'

from hz import proto
from hz.proto import ghost
from hz.terms import *


class M(proto.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def recv(self, c, s, obj, L, n, size, e, fr):
        if L.op == 'el':
            N = s.mem.get(ghost(L.a[0], 'n'))
            if N is None:
                rv = c.I.load(s, L.a[0])
                N = mk_len(rv) if rv.op not in ('ptr',) else None
            sz = size or 1
            ok = N is not None and s.facts.decide(le(add(scale(L.a[1], sz), n), scale(N, sz))) is True
            c.ob(self.ctx, 'fits', 'receive into a buffer', ok, e, fr,
                 'receives %s bytes into a buffer of %s elements of %d bytes' % (show(n), show(N) if N is not None else 'unknown many', sz), 'buffer')
        else:
            ok = size is not None and s.facts.decide(le(n, k(size))) is True
            c.ob(self.ctx, 'scalar', 'receive into a field', ok, e, fr, 'receives %s bytes into an object of %s bytes' % (show(n), size), 'field')

    def string(self, c, s, v, e, fr):
        B = v.a[0].a[0]
        c.ob(self.ctx, 'terminated', 'received characters used as a string', s.mem.get(ghost(B, 'z')) is ONE, e, fr,
             'the received characters are used as a string without a zero behind them within the buffer')


def k(n):
    return mk('c', n)


def run(ctx):
    ctx.rule('fits', 'a receive into a buffer writes at most what it was allocated for', 8)
    ctx.rule('scalar', 'a receive into a scalar writes at most its size', 15)
    ctx.rule('terminated', 'received characters are used as a string only with a terminator within the buffer', 10)
    proto.decide(ctx, M(ctx))
