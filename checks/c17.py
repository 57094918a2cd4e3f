"""The transfer functions of SocketInterface are analysed on every path (loops as fixpoints) for arbitrary buffers and lengths; send and
recv return any value from -1 to the length asked for. The state holds the number of payload bytes transferred so far. A normal return
needs the facts that the status byte was sent and that exactly all payload bytes were transferred, in order; no transfer result may be
passed over; failures leave as connection errors. An error report starts with the error byte."""
TECHNIQUE = 'abstract interpretation with transfer progress in the state; results of send() and recv() unconstrained'
NOTE = 'All lengths and all results of send() and recv(). Lengths of 2^63 and more are excluded (they do not fit an object).'

from hz import proto, rawsock
from hz.terms import *


def run(ctx):
    ctx.rule('complete', 'a transfer returns normally only if everything was transferred', 6)
    ctx.rule('order', 'the success byte comes before the payload (or before waiting for it)', 4)
    ctx.rule('place', 'the payload is transferred in order, each byte once', 3)
    ctx.rule('raises', 'an incomplete transfer raises a connection error', 5)
    ctx.rule('result', 'no failed transfer is passed over', 2)
    ctx.rule('socket', 'transfers use the socket of the session', 6)
    ctx.rule('error', 'an error report starts with the error byte', 1)
    p = proto.program(ctx)
    rawsock.transfers(ctx, p, 't_send', True, True, 'send', ['buf', 'n'])
    rawsock.transfers(ctx, p, 't_recv', True, True, 'recv', ['buf', 'n', ONE])
    rawsock.transfers(ctx, p, 't_recv', False, True, 'recv', ['buf', 'n', ZERO])
    rawsock.transfers(ctx, p, 't_recv_sync', True, False, 'send', [])
    rawsock.framing(ctx, 'error')
    ctx.assume('send() and recv() return -1 or the number of bytes transferred, at most the length given.')
