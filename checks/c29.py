"""A whole session is explored as a set of abstract states. For uploads the state remembers the announced length less what was received:
every block received must be non-empty, at most what is left and at most the algorithm's block size, must be received into a buffer of
exactly its size, and is processed (unless a block has failed) in the same round with that size recorded in it; success needs that
nothing is left. Block ids are recorded by appending, in the order the jobs complete, and the file entry lists exactly the recorded ids
in that order (the copying loop is summarised, every index is covered)."""
TECHNIQUE = 'abstract exploration of a session with the outstanding length in the state (relational invariants of the receive loops)'
NOTE = 'All lengths. That blocks complete in order follows from one job at a time (C23 finished).'

from hz import proto
from hz.proto import g, ghost
from hz.terms import *

UP = {('ENCODE', 0), ('ENCODE', 6)}


class M(proto.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def up(self, c, s):
        cm = c.command(s)
        return cm is not None and len(cm[1]) == 1 and (cm[0], cm[1][0]) in UP

    def got(self, c, s, obj, v, n, e, fr):
        if self.up(c, s):
            c.ob(self.ctx, 'length', 'announced length', n.op == 'c' and n.a[0] == 8 and g('left') not in s.mem, e, fr, 'an upload is announced by something else than one length of 8 bytes')
            s.mem[g('left')] = v
            s.mem.pop(g('blk'), None)

    def recv(self, c, s, obj, L, n, size, e, fr):
        if not self.up(c, s) or L.op != 'el':
            return
        left, bs = s.mem.get(g('left')), s.mem.get(g('bs'))
        D = s.facts.decide
        c.ob(self.ctx, 'raw', 'block', not c.sync, e, fr, 'a status byte is sent between the blocks of an upload')
        c.ob(self.ctx, 'block', 'size of a block', D(le(ONE, n)) is True, e, fr, 'a block may be empty (%s)' % show(n), 'empty')
        c.ob(self.ctx, 'block', 'size of a block', left is not None and D(le(n, left)) is True, e, fr, 'a block (%s) may be larger than what is left of the upload' % show(n), 'left')
        c.ob(self.ctx, 'block', 'size of a block', bs is not None and D(le(n, bs)) is True, e, fr, 'a block (%s) may be larger than the block size of the algorithm' % show(n), 'bsize')
        N = s.mem.get(ghost(L.a[0], 'n'))
        c.ob(self.ctx, 'buffer', 'buffer of a block', L.a[1] is ZERO and N is not None and D(eq(N, n)) is True, e, fr, 'a block is received into a part of its buffer', 'buffer')
        prev = s.mem.get(g('blk'))
        c.ob(self.ctx, 'kept', 'block before', prev is None or s.mem.get(g('failed')) is ONE, e, fr, 'a block is received although the one before has not been processed')
        if left is not None:
            s.mem[g('left')] = sub(left, n)
        s.mem[g('blk')] = mk('ptr', L)

    def after(self, c, s, name, obj, args, r, e, fr):
        if name == 'algorithm_to_bsize':
            s.mem[g('bs')] = r

    def run(self, c, s, job, codec, stub, e, fr):
        if not self.up(c, s):
            return
        I = c.I
        blob = I.deref(I.lib.unwrap(s, I.load(s, mk('fld', codec, 'blob'))))
        data = I.lib.unwrap(s, I.load(s, mk('fld', blob, 'data')))
        blk = s.mem.get(g('blk'))
        same = blk is not None and data.op == 'ptr' and data is blk
        c.ob(self.ctx, 'kept', 'block of the job', same, e, fr, 'the job does not process the block received last', 'job')
        if same:
            n = s.mem.get(ghost(data.a[0].a[0], 'n'))
            o = I.load(s, mk('fld', blob, 'o_size'))
            c.ob(self.ctx, 'buffer', 'recorded size', s.facts.decide(eq(o, n)) is True, e, fr, 'the size recorded in the block (%s) is not the size received (%s)' % (show(o), show(n)), 'o_size')
        s.mem.pop(g('blk'), None)

    def done_(self, c, s, e, fr, what):
        if not self.up(c, s):
            return
        left = s.mem.get(g('left'))
        if g('failed') not in s.mem:
            c.ob(self.ctx, 'all', what, left is not None and s.facts.decide(le(left, ZERO)) is True, e, fr, '%s although a part of the upload may not have been received' % what, what)
            c.ob(self.ctx, 'kept', what, g('blk') not in s.mem, e, fr, '%s although a block was not processed' % what, what)

    def success(self, c, s, obj, e, fr):
        self.done_(c, s, e, fr, 'success')

    def op(self, c, s, name, obj, args, e, fr):
        if name != 'create_file_entry':
            return
        self.done_(c, s, e, fr, 'file entry')
        I = c.I
        f = c.raw[1]
        ids = I.load(s, mk('fld', f, 'blob_ids')) if isloc(f) else None
        ids = I.lib.unwrap(s, ids) if ids is not None else None
        ok, msg = False, 'the ids of the blocks do not reach the file entry'
        if ids is not None and ids.op == 'ptr':
            B = ids.a[0].a[0]
            N = s.mem.get(ghost(B, 'n'))
            src = s.mem.get(g('ids'))
            k = I.fresh('k')
            k.nn = True
            if src is not None:
                vec = I.load(s, src.a[0])
                n = mk_len(vec)
                s2 = s.copy()
                s2.facts.assume(lt(k, n), True)
                x = I.load(s2, mk('el', B, k))
                y = I.load(s2, mk('el', src.a[0], k))
                ok = N is not None and s.facts.decide(eq(N, n)) is True and (x is y or s2.facts.decide(eq(x, y)) is True)
                msg = 'entry k of the file entry is %s, the k-th recorded id is %s (%s entries for %s ids)' % (show(x), show(y), show(N) if N is not None else '?', show(n))
            else:
                # no block: an empty list
                ok = N is not None
        c.ob(self.ctx, 'ids', 'ids of the file entry', ok, e, fr, msg, 'entry')

    def recorded(self, c, s0, s, x, e, fr):
        ch = [l for l, v in s.mem.items() if v.op == 'push' and c.tags.get(v.a[1]) == 'blobid']
        ok = len(ch) == 1
        if ok:
            v, old = s.mem[ch[0]].a[0], c.I.load(s0, ch[0])
            ok = v is old or show(v) == show(old)
            s.mem[g('ids')] = mk('ptr', ch[0])
        c.ob(self.ctx, 'ids', 'recording of an id', ok, e, fr, 'the id of a block is not appended to the ids of the file (%s)' % [(show(l), show(s.mem[l])) for l in ch if l in s.mem], 'append')

    def ready(self, c, s, fr):
        for n in ('left', 'bs', 'blk', 'ids'):
            s.mem.pop(g(n), None)


def run(ctx):
    ctx.rule('length', 'an upload is announced by one length', 2)
    ctx.rule('raw', 'blocks are received without a status byte between them', 2)
    ctx.rule('block', 'a block is not empty, and fits what is left and the block size', 6)
    ctx.rule('buffer', 'the size of a block is the size of its buffer and the size recorded in it', 4)
    ctx.rule('kept', 'every block received is processed, once', 6)
    ctx.rule('all', 'an upload ends only when nothing is left', 3)
    ctx.rule('ids', 'the ids of the blocks are recorded in order and reach the file entry', 2)
    proto.decide(ctx, M(ctx))
