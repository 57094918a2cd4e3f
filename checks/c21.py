"""A whole session is explored as a set of abstract states that remember the last fixed-width field sent. Every send whose length is not a
constant must be preceded immediately by a field holding exactly that length (the same value, after any narrowing); every send of
constant length must have the size of the object it sends. For replies that are lists the state remembers the announced count less the
elements sent: no element may be sent when none is left, and the request may end (without an error being reported) only when none is
left. The framing of SocketInterface::success and error is decided on every path of these functions."""
TECHNIQUE = 'abstract exploration of a session with the last announced length and the outstanding element count in the state'
NOTE = 'All replies, all numbers of elements.'

from hz import proto, rawsock
from hz.proto import g
from hz.terms import *

LISTS = {('QUERY', 2), ('QUERY', 8), ('DECODE', 0)}
GHOSTS = ('hdr', 'left')


class M(proto.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def listing(self, c, s):
        cm = c.command(s)
        return cm is not None and len(cm[1]) == 1 and (cm[0], cm[1][0]) in LISTS

    def send(self, c, s, obj, v, L, n, size, e, fr):
        h = s.mem.get(g('hdr'))
        if n.op == 'c':
            c.ob(self.ctx, 'field', 'field of fixed width', size == n.a[0], e, fr, '%d bytes of an object of %s bytes are sent' % (n.a[0], size))
            s.mem[g('hdr')] = v if v is not None and size == n.a[0] and size > 1 else NULL
            if self.listing(c, s) and g('left') not in s.mem:
                c.ob(self.ctx, 'count', 'announced count', size == 8 and v is not None, e, fr, 'the list is not preceded by its count')
                s.mem[g('left')] = v if v is not None else c.I.fresh('count')
            return
        while h is not None and h.op == 'box':
            h = h.a[0]
        ok = h is not None and h is not NULL and (h is n or s.facts.decide(eq(h, n)) is True)
        c.ob(self.ctx, 'length', 'data of variable length', ok, e, fr, '%s bytes are sent, but the field before holds %s' % (show(n), show(h) if h is not None else 'nothing'))
        s.mem[g('hdr')] = NULL
        if self.listing(c, s):
            left = s.mem.get(g('left'))
            ok = left is not None and s.facts.decide(le(ONE, left)) is True
            c.ob(self.ctx, 'elements', 'element of a list', ok, e, fr, 'an element is sent although all announced elements may have been sent')
            if left is not None:
                s.mem[g('left')] = sub(left, ONE)

    def end(self, c, s, e, fr, what):
        left = s.mem.get(g('left'))
        if left is not None and s.mem.get(g('told')) is not ONE:
            c.ob(self.ctx, 'elements', what, s.facts.decide(le(left, ZERO)) is True, e, fr, 'fewer elements than announced may have been sent', 'end')
        h = s.mem.get(g('hdr'))

    def success(self, c, s, obj, e, fr):
        self.end(c, s, e, fr, 'success after a list')
        s.mem.pop(g('left'), None)
        s.mem.pop(g('hdr'), None)

    def error(self, c, s, obj, e, fr):
        s.mem.pop(g('left'), None)
        s.mem.pop(g('hdr'), None)

    def ready(self, c, s, fr):
        self.end(c, s, {'l': fr.fn.line}, fr, 'end of a request')
        for n in GHOSTS:
            s.mem.pop(g(n), None)


def run(ctx):
    ctx.rule('field', 'a field is sent with the size of the object that holds it', 6)
    ctx.rule('length', 'data of variable length is preceded by its length', 4)
    ctx.rule('count', 'a list is preceded by its count', 2)
    ctx.rule('elements', 'as many elements are sent as announced', 3)
    ctx.rule('framing', 'success and error messages are framed as the client reads them', 2)
    proto.decide(ctx, M(ctx))
    rawsock.framing(ctx, 'framing')
