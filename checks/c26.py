"""Every path of an encoding is explored with the model state as a typestate: where a coder's model state object came from, whether it is
the one the coder was given or a new one (both are explored for every codec), and under which identifier the archive holds it. At every
point where a block is stored, the identifier in the block must be the one under which the archive holds the model state object that
describes the block's bytes: the coder's for compressed bytes, an empty one for bytes that are stored as they came. What is handed
back to the client must be the stored block. Reading a block back gives it the model state its identifier names."""
TECHNIQUE = 'typestate exploration of model-state objects through every path of an encoding'
NOTE = 'All blocks, codecs that keep or replace the model state, and every failure of the archive in between.'

from hz import procs
from hz.procs import *


class M(procs.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def archive(self, c, s, n, args, e, fr):
        I = c.I
        if n != 'write_blob':
            return
        b = I.deref(I.lib.unwrap(s, args[0]))
        by = s.mem.get(ghost(b, 'by'))
        ms = I.lib.unwrap(s, I.load(s, F(b, 'mstate')))
        m = I.deref(ms) if ms.op == 'ptr' else None
        mid = I.load(s, F(b, 'mstate_id'))
        ok = by is not None and by.a[0] == 'compress'
        c.ob(self.ctx, 'block', 'stored block', ok, e, fr, 'what is stored is not the result of the codec', 'block')
        if not ok:
            return
        held = s.mem.get(ghost(m, 'id')) if m is not None else None
        ok = held is not None and (held is mid or s.facts.decide(eq(held, mid)) is True)
        c.ob(self.ctx, 'tied', 'identifier in a stored block', ok, e, fr,
             'the block is stored with the identifier %s, but its model state is held %s' % (show(mid), 'under %s' % show(held) if held is not None else 'nowhere in the archive'), 'id')
        stored = I.load(s, F(b, 'data'))
        coded = stored is s.mem.get(ghost(b, 'bytes'))
        orig = stored is mk('ptr', E0(ORIG)) or stored is I.load(s, F(E0(BLOB), 'data'))
        c.ob(self.ctx, 'bytes', 'bytes of a stored block', coded or orig, e, fr, 'the bytes stored are neither those of the codec nor the original ones')
        size = I.load(s, F(b, 'size'))
        want = s.mem.get(ghost(b, 'size')) if coded else I.load(s, F(E0(BLOB), 'o_size'))
        c.ob(self.ctx, 'bytes', 'size of a stored block', size is want or s.facts.decide(eq(size, want)) is True, e, fr, 'the size of a block of %s bytes is given as %s' % (show(want), show(size)), 'size')
        alg = I.load(s, F(m, 'alg')) if m is not None else None
        if alg is not None and alg.op in ('zero', 'uninit'):
            alg = self.default
        st = I.load(s, F(b, 'status'))
        stv = s.facts.decide(truth(st))
        if coded:
            ok = ms is s.mem.get(ghost(b, 'ms'))
            c.ob(self.ctx, 'describes', 'model state of compressed bytes', ok, e, fr, 'compressed bytes are stored with a model state that is not the one they were coded with', 'coded')
            c.ob(self.ctx, 'describes', 'mark of compressed bytes', stv is True, e, fr, 'compressed bytes are marked as stored unchanged', 'status')
            a0 = s.mem.get(ghost(m, 'alg')) if m is not None else None
            c.ob(self.ctx, 'describes', 'model state in the archive', a0 is None or a0 is alg or s.facts.decide(eq(a0, alg)) is True, e, fr,
                 'the model state was written to the archive before the coder changed it', 'early')
        elif orig:
            U = {v[0]: v[1] for v in I.P.enum('hzcodec::algorithms::ALGORITHM')['vals']}['UNCOMPRESSED']
            ok = alg is not None and s.facts.decide(eq(alg, c_(U))) is True
            c.ob(self.ctx, 'describes', 'model state of original bytes', ok, e, fr, 'original bytes are stored with a model state of a coder', 'plain')
            c.ob(self.ctx, 'describes', 'mark of original bytes', stv is False, e, fr, 'original bytes are marked as compressed', 'status')
        s.mem[g('stored')] = mk('ptr', b)

    def called(self, c, s, n, args, nonnull, e, fr):
        if n == 'blob_callback' and s.mem.get(g('stored')) is not None:
            b = c.I.deref(c.I.lib.unwrap(s, args[0]))
            c.ob(self.ctx, 'same', 'block handed back', mk('ptr', b) is s.mem[g('stored')], e, fr, 'the block handed back is not the one that was stored')

    def done(self, c, outs, p):
        pass


c_ = c


def default_algorithm(p):
    """Algorithm of a new model state."""
    fs = [f for f in p.byq.get('HZ_MState::HZ_MState', []) if not f.params and not f.d.get('implicit')]
    if not fs:
        return ZERO     # member initialiser or value initialisation; the declared initialiser is part of the constructor otherwise
    I = engine.Interp(p, Proc([]))
    outs = I.run(fs[0], None, mk('obj', 'fresh'))
    vs = {I.load(s, F(mk('obj', 'fresh'), 'alg')) for k, s, v in outs}
    v = vs.pop() if len(vs) == 1 else None
    return v if v is not None and v.op == 'c' else None if v is None else (ZERO if v.op == 'zero' else v)


def run(ctx):
    ctx.rule('block', 'what is stored is the result of the codec')
    ctx.rule('tied', 'the identifier in a stored block is the one under which the archive holds its model state')
    ctx.rule('bytes', 'bytes and size of a stored block belong together', 2)
    ctx.rule('describes', 'the model state describes how the bytes were coded', 4)
    ctx.rule('same', 'the client is handed the block that was stored')
    m = M(ctx)
    m.default = default_algorithm(procs.program())
    procs.decide(ctx, m)
    ctx.assume('the archive stores a model state under the identifier it returns (C12) and returns it under that identifier (C05)')
