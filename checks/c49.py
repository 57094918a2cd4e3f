"""Abstract interpretation of every stack operation from a partition of all states that satisfy the representation invariant (no
buffer and no words, or a chain of buffers of which only the newest may be partly filled): empty, one word, several words, full, each
as the only buffer and on top of others. Every operation must re-establish the invariant and relate the state before to the state
after as a stack does; size, emptiness and destruction are analysed on chains of up to four buffers. The constructor establishes the
invariant, so by induction every sequence of operations behaves as a stack."""
TECHNIQUE = 'inductive representation invariant, discharged by abstract interpretation of each operation over all state classes'
NOTE = 'All sequences of pushes, pops and queries, all words. The walks over the chain (size, destructor) are analysed for chains of 0 to 4 buffers.'

from hz import archive, prog, engine
from hz.extract import VERIF
from hz.terms import *

UNITS = [(VERIF + '/drivers/headers.cpp', 'cpu')]
Q = 'HZ_Stack'
TH = mk('obj', 'stack')


class Client(engine.Client):
    keep_loops = True
    track_alloc = True
    unroll = 8

    def on_write(self, I, st, loc, v, e, fr):
        if root(loc).op != 'var':
            I.emit(st, 'w', e, fr, loc=loc, new=v)

    def on_read(self, I, st, loc, e, fr):
        if root(loc).op == 'obj':
            I.emit(st, 'rd', e, fr, loc=loc)


def run(ctx):
    ctx.rule('init', 'a new stack is empty', 1)
    ctx.rule('push', 'pushing adds exactly the given word on top and keeps all others', 4)
    ctx.rule('pop', 'popping takes away exactly the top word; the buffer it was alone in is released, once', 4)
    ctx.rule('top', 'the word that is returned is the last one pushed and not yet popped', 4)
    ctx.rule('size', 'the size is the number of words', 4)
    ctx.rule('empty', 'the stack is empty exactly if it has no words', 2)
    ctx.rule('release', 'destruction releases every buffer exactly once and touches none afterwards', 3)
    p = prog.load(UNITS)
    ctx.program(p)
    I = engine.Interp(p, Client())
    ctor = [f for f in p.fns.values() if f.kind == 'ctor' and f.cq == Q and not f.d.get('implicit')][0]
    dtor = [f for f in p.fns.values() if f.kind == 'dtor' and f.cq == Q][0]
    push, pop, top, size, empty = (p.one(Q + '::' + n) for n in ('push', 'pop', 'top', 'size', 'empty'))
    ctx.analysed(ctor, dtor, push, pop, top, size, empty)
    F = lambda n: I.fld(TH, n)
    init = None
    for k, s, v in I.run(ctor, this=TH):
        ok = k == 'r' and I.load(s, F('buffer')) is NULL and I.load(s, F('index')) is ZERO
        ctx.ob('init', 'constructor', ok, ctor.rel, ctor.q, ctor.line, 'a new stack does not start without buffers and words', archive.pathdesc(s.events()))
        init = s
    cap = I.load(init, F('bufsize'))
    if cap.op != 'c':
        cap = I.fresh('bufsize')
        cap.nn = True
    base = {l: v for l, v in init.mem.items() if l not in (F('buffer'), F('index'))}
    i = mk('sym', 'filled', 0)
    i.nn = True
    x = mk('sym', 'word', 0)

    def state(depth, idx, facts=()):
        """Stack with `depth` buffers of which the newest holds idx words."""
        bs = [mk('obj', 'buffer%d' % d) for d in range(depth)]

        def setup(st):
            st.mem.update(base)
            for d, b in enumerate(bs):
                e = mk('el', b, ZERO)
                data = mk('obj', 'words%d' % d)
                st.mem[I.fld(e, 'data')] = mk('ptr', mk('el', data, ZERO))
                st.mem[mk('fld', data, '#n')] = cap
                st.mem[I.fld(e, 'prev')] = mk('ptr', mk('el', bs[d - 1], ZERO)) if d else NULL
                st.mem[I.fld(e, 'next')] = NULL if d == depth - 1 else mk('ptr', mk('el', bs[d + 1], ZERO))
            st.mem[F('buffer')] = mk('ptr', mk('el', bs[-1], ZERO)) if bs else NULL
            st.mem[F('index')] = idx
            st.facts.assume(le(ONE, cap), True)
            for t in facts:
                st.facts.assume(t, True)
        return bs, setup

    def ptr(b):
        return mk('ptr', mk('el', b, ZERO))

    def resume(prev):
        def setup(st):
            st.mem.update(prev.mem)
            st.facts = prev.facts.copy()
        return setup

    classes = [('empty', 0, ZERO, ())]
    for d in (1, 2, 3):
        for n, idx, fs in (('one word', ONE, [le(c(2), cap)]), ('some words', i, [le(c(2), i), lt(i, cap)]), ('full', cap, [le(c(2), cap)])):
            classes.append(('%s in the newest of %d buffers' % (n, d), d, idx, fs))
    D = lambda s, t: s.facts.decide(t) is True
    for name, depth, idx, fs in classes:
        bs, setup = state(depth, idx, fs)
        # push
        for k, s, v in I.run(push, setup=setup, this=TH, args=[x]):
            evs = s.events()
            at = dict(file=push.rel, func=push.q, line=push.line, path=archive.pathdesc(evs))
            if k != 'r':
                ctx.ob('push', name, False, msg='pushing raises', **at)
                continue
            nb, ni = I.load(s, F('buffer')), I.load(s, F('index'))
            same = depth > 0 and nb is ptr(bs[-1])
            loc = nb.a[0] if nb.op == 'ptr' else None
            if same:
                ok = D(s, eq(ni, add(idx, ONE))) and D(s, le(ni, cap))
            else:
                fresh_ = loc is not None and root(loc) not in [root(b) for b in bs] and any(e.k == 'alloc' and under(loc, e.obj) for e in evs)
                prev = I.load(s, I.fld(loc, 'prev')) if fresh_ else None
                full = depth == 0 or D(s, eq(idx, cap))
                ok = fresh_ and full and D(s, eq(ni, ONE)) and prev is (ptr(bs[-1]) if depth else NULL)
            ctx.ob('push', name, ok, msg='pushing onto a stack with %s does not leave one more word (buffer %s, index %s)' % (name, show(nb), show(ni)), detail='count', **at)
            data = I.load(s, I.fld(loc, 'data')) if loc is not None else NULL
            cell = I.elem(data.a[0], sub(ni, ONE)) if data.op == 'ptr' and data.a[0].op == 'el' else None
            room = s.mem.get(mk('fld', data.a[0].a[0], '#n')) if cell is not None else None
            ctx.ob('push', name, cell is not None and room is not None and D(s, le(ni, room)), msg='the word is stored outside its buffer', detail='room', **at)
            words = [e for e in evs if e.k == 'w' and e.loc.op == 'el']
            ctx.ob('push', name, cell is not None and all(e.loc is cell or D(s, eq(e.loc.a[1], cell.a[1])) and e.loc.a[0] is cell.a[0] for e in words) and I.load(s, cell) is x,
                   msg='pushing does not store the word on top, or changes another one', detail='word', **at)
            ctx.ob('push', name, not any(e.k == 'free' for e in evs), msg='pushing releases a buffer', detail='free', **at)
            for b in bs:
                if b is not bs[-1]:
                    ctx.ob('push', name, not any(e.k == 'w' and under(e.loc, b) for e in evs), msg='pushing changes an older buffer', detail='older', **at)
            if bs:
                was = ptr(bs[-2]) if depth > 1 else NULL
                ctx.ob('push', name, I.load(s, I.fld(mk('el', bs[-1], ZERO), 'prev')) is was, msg='pushing changes the chain of buffers', detail='chain', **at)
            # top and pop after push
            for k2, s2, v2 in I.run(top, setup=resume(s), this=TH):
                ctx.ob('top', 'top after a push onto %s' % name, k2 == 'r' and v2 is x, top.rel, top.q, top.line, 'after a push the top is %s, not the word pushed' % (show(v2) if isinstance(v2, T) else v2), detail='pushed')
            for k2, s2, v2 in I.run(pop, setup=resume(s), this=TH):
                b2, i2 = I.load(s2, F('buffer')), I.load(s2, F('index'))
                ok = k2 == 'r' and b2 is (ptr(bs[-1]) if depth else NULL) and D(s2, eq(i2, idx))
                ctx.ob('pop', 'pop after a push onto %s' % name, ok, pop.rel, pop.q, pop.line, 'a push followed by a pop does not restore a stack with %s' % name, detail='inverse', path=archive.pathdesc(s2.events()))
            for k2, s2, v2 in I.run(empty, setup=resume(s), this=TH):
                ctx.ob('empty', 'empty after a push', k2 == 'r' and s2.facts.decide(truth(v2)) is False, empty.rel, empty.q, empty.line, 'a stack is empty after a push', detail='pushed')
        # pop
        for k, s, v in I.run(pop, setup=setup, this=TH):
            evs = s.events()
            at = dict(file=pop.rel, func=pop.q, line=pop.line, path=archive.pathdesc(evs))
            if k != 'r':
                ctx.ob('pop', name, False, msg='popping raises', **at)
                continue
            nb, ni = I.load(s, F('buffer')), I.load(s, F('index'))
            freed = [e for e in evs if e.k == 'free']
            gone = depth > 0 and D(s, eq(idx, ONE))
            if gone:
                wb = ptr(bs[-2]) if depth > 1 else NULL
                ok = nb is wb and D(s, eq(ni, cap if depth > 1 else ZERO))
                okf = len(freed) == 1 and freed[0].val is ptr(bs[-1])
            else:
                ok = nb is (ptr(bs[-1]) if depth else NULL) and D(s, eq(ni, sub(idx, ONE) if depth else ZERO))
                okf = not freed
            ctx.ob('pop', name, ok, msg='popping from a stack with %s leaves buffer %s with index %s' % (name, show(nb), show(ni)), detail='count', **at)
            ctx.ob('pop', name, okf, msg='popping from a stack with %s releases %d buffers' % (name, len(freed)), detail='free', **at)
            late = released_use(evs)
            ctx.ob('pop', name, late is None, msg='a buffer is used after it was released', detail='use', **at)
            ctx.ob('pop', name, not any(e.k == 'w' and e.loc.op == 'el' for e in evs), msg='popping changes a word', detail='word', **at)
            for j in range(depth - 1):
                ctx.ob('pop', name, I.load(s, I.fld(mk('el', bs[j], ZERO), 'prev')) is (ptr(bs[j - 1]) if j else NULL), msg='popping changes the chain of buffers', detail='chain', **at)
        # observers
        if depth:
            for k, s, v in I.run(top, setup=setup, this=TH):
                want = I.load(s, mk('el', mk('obj', 'words%d' % (depth - 1)), sub(idx, ONE)))
                ctx.ob('top', name, k == 'r' and v is want and not writes(s), top.rel, top.q, top.line, 'the top of a stack with %s is %s' % (name, show(v) if isinstance(v, T) else v), detail='top', path=archive.pathdesc(s.events()))
        for k, s, v in I.run(size, setup=setup, this=TH):
            want = add(idx, mul(cap, c(max(depth - 1, 0))))
            ctx.ob('size', name, k == 'r' and D(s, eq(v, want)) and not writes(s), size.rel, size.q, size.line, 'the size of a stack with %s is given as %s, not %s' % (name, show(v) if isinstance(v, T) else v, show(want)), detail='size', path=archive.pathdesc(s.events()))
        for k, s, v in I.run(empty, setup=setup, this=TH):
            ctx.ob('empty', name, k == 'r' and s.facts.decide(truth(v)) is (depth == 0) and not writes(s), empty.rel, empty.q, empty.line, 'a stack with %s is %s empty' % (name, 'said to be' if depth else 'not said to be'), detail='empty')
    for depth in range(0, 5):
        bs, setup = state(depth, i if depth else ZERO, [le(ONE, i), le(i, cap)])
        for k, s, v in I.run(dtor, setup=setup, this=TH):
            evs = s.events()
            freed = [e.val for e in evs if e.k == 'free' and e.val is not NULL]
            at = dict(file=dtor.rel, func=dtor.q, line=dtor.line, path=archive.pathdesc(evs))
            ctx.ob('release', '%d buffers' % depth, k == 'r' and sorted(t.id for t in freed) == sorted(ptr(b).id for b in bs), msg='destroying a stack of %d buffers releases %s' % (depth, [show(t) for t in freed] or 'none'), detail='once', **at)
            ctx.ob('release', '%d buffers' % depth, released_use(evs) is None, msg='a buffer is used after it was released', detail='use', **at)


def writes(s):
    return any(e.k == 'w' for e in s.events())


def released_use(evs):
    gone = set()
    for e in evs:
        if e.k == 'free' and e.val.op == 'ptr':
            gone.add(root(e.val.a[0]))
        elif e.k in ('rd', 'w') and root(e.loc) in gone:
            return e
    return None
