"""Abstract interpretation of every operation of the path index, for a symbolic tree and a symbolic path. The walk that each operation
makes over the components of its path is summarised as a loop, and each way a step of it can go is compared with the step every other
operation makes (empty component: stay; present component: go to that child; missing component: stop, or create exactly that child in
a directory). Then every way out of the operation is compared with the contract of a file tree: what it returns, what it refuses, what
it changes, and for removal the order of detaching and freeing and the point of detachment."""
TECHNIQUE = 'abstract interpretation with loop summaries of the path index, compared with the contract of a file tree'
NOTE = 'Holds for every tree shape, path and number of components; trusts the standard containers and getline.'

from hz import archive, engine
from hz.terms import *
from hz.extract import AnalysisError

TH = mk('obj', 'trie')
CQ = 'HZ_ArchiveTrie'


class Client(engine.Client):
    track_alloc = True
    keep_loops = True

    def call(self, I, e, name, st, obj, args, fr, out):
        if name == 'std::getline' and len(args) >= 2:
            d = I.argval(st, e, 2, args) if len(args) > 2 else c(10)
            yes, no = st, st.copy()
            t = fresh('tok')
            I.emit(yes, 'tok', e, fr, tok=t, delim=d, res=1, src=args[0])
            I.store(yes, args[1], t)
            I.emit(no, 'tok', e, fr, tok=None, delim=d, res=0, src=args[0])
            return [(yes, ONE), (no, ZERO)]

    def on_write(self, I, st, loc, v, e, fr):
        r = root(loc)
        if r is TH or r.op == 'mem' or r.op == 'obj' and 'rnew' in str(r.a[0]):
            I.emit(st, 'w', e, fr, loc=loc, new=v)


def fields(I, node):
    n = I.deref(node)
    return lambda x: I.fld(n, x)


def init(I, loc):
    """What loc holds before the operation."""
    return I.load(engine.State(), loc)


def mutations(evs):
    return [e for e in evs if e.k in ('w', 'maperase', 'mapins', 'mapclear', 'free', 'recursion') and not (e.k == 'w' and e.new is None)]


class Walk:
    """The loop over the components of a path, which come straight from the path or from a list made of it."""

    def __init__(self, I, f, evs):
        self.I, self.f = I, f
        self.root = init(I, I.fld(TH, 'root'))
        loops = [e for e in evs if e.k == 'loop']
        src = next((e for e in loops if any(x.k == 'tok' for b in e.body for x in b[1])), None)
        self.src = self.ev = self.list = self.W = None
        if src is None:
            return
        self.src = self.ev = src
        self.find()
        if self.W is None:
            # the components are collected first
            self.list = src
            for e in loops[loops.index(src) + 1:]:
                if e.get('rng') is not None:
                    self.ev = e
                    self.find()
                    if self.W is not None:
                        break
        self.N = next((s.mem.get(self.W) for s in self.ev.starts if s.mem.get(self.W) is not None), None) if self.W is not None else None

    def find(self):
        # the place the walk is at: the variable that starts at the root and that the loop changes
        ws = [l for l, v in self.ev.pre.items() if v is not None and v is self.root and l.op != 'fld']
        self.W = ws[0] if len(ws) == 1 else None

    def steps(self):
        for (kind, evs, s), s0 in zip(self.ev.body, self.ev.starts):
            yield kind, evs, s, s0

    def component(self, evs, s):
        """(there is one, the component, it is known to be empty or not)"""
        if self.list is None:
            t = next((e for e in evs if e.k == 'tok'), None)
            if t is None or not t.res:
                return False, None, None
            return True, t.tok, s.facts.decide(eq(mk_len(t.tok), ZERO))
        return True, self.I.load(s, mk('el', self.ev.rng, self.ev.kvar)), False if self.filtered() else None

    def filtered(self):
        return all(s.facts.decide(eq(mk_len(t.tok), ZERO)) is False for k, evs, s in self.list.body if any(e.k == 'push' for e in evs) for t in evs if t.k == 'tok')


def contained(I, s, s0, node, tok):
    v = I.load(s0, fields(I, node)('children'))
    return s.facts.decide(I.lib.contains(s, v, tok))


def check_walk(ctx, I, f, w):
    at = lambda e: dict(file=e.file, func=f.q, line=e.line)
    for kind, evs, s in w.src.body:
        toks = [e for e in evs if e.k == 'tok']
        for t in toks:
            ctx.ob('split', '%s splits at %s' % (f.q, show(t.delim)), t.delim is c(47), msg='the path is not split at slashes', path=archive.pathdesc(evs), **at(t))
        if toks:
            ctx.ob('split', '%s reads one component per step' % f.q, len([x for x in toks if x.res]) <= 1 and (kind != 'cont' or toks[0].res == 1), msg='a step of the walk reads more than one component', path=archive.pathdesc(evs), **at(toks[0]))
        if w.list is not None and toks and kind == 'cont' and toks[0].res:
            ps = [e for e in evs if e.k == 'push']
            want = 0 if s.facts.decide(eq(mk_len(toks[0].tok), ZERO)) is True else 1
            ctx.ob('split', '%s keeps every component' % f.q, len(ps) == want and all(I.load(s, e.el) is toks[0].tok for e in ps), msg='the list of components is not the components of the path', path=archive.pathdesc(evs), **at(toks[0]))
    for kind, evs, s, s0 in w.steps():
        there, tok, empty = w.component(evs, s)
        path = archive.pathdesc(evs)
        t = w.ev
        if not there:
            continue
        n0 = s0.mem.get(w.W)
        n1 = s.mem.get(w.W)
        mut = mutations(evs)
        if kind != 'cont':
            continue
        if empty is None and contained(I, s, s0, n0, tok) is not True:
            ctx.ob('step', '%s: empty components' % f.q, False, msg='the walk does not tell an empty component from a name', path=path, **at(t))
            continue
        if empty is True:
            ctx.ob('step', '%s: empty component' % f.q, n1 is n0 and not mut, msg='an empty component of the path is not ignored', path=path, detail='empty', **at(t))
            continue
        known = contained(I, s, s0, n0, tok)
        ctx.ob('step', '%s: component present or missing' % f.q, known is not None, msg='the walk goes on without having found whether the component exists', path=path, detail='known', **at(t))
        if known is True:
            cl = mk('el', fields(I, n0)('children'), tok)
            want = [I.load(s0, cl), I.load(s, cl)]
            ctx.ob('step', '%s: present component' % f.q, (n1 in want or any(same(s, n1, x) for x in want)) and not mut,
                   msg='the walk changes the tree' if mut else 'the walk does not go to the child that the component names', path=path, detail='present', **at(t))
        elif known is False:
            if f.n != 'set':
                ctx.ob('step', '%s: missing component' % f.q, False, msg='the walk goes on after a component that does not exist', path=path, detail='missing', **at(t))
                continue
            ch = I.load(s0, fields(I, n0)('is_leaf'))
            ctx.ob('below-file', '%s creates %s only in a directory' % (f.q, show(tok)), s.facts.decide(eq(ch, ZERO)) is True, msg='an entry is created below a stored entry', path=path, **at(t))
            X = fields(I, n1) if n1 is not None else None
            ok = any(e.k == 'alloc' for e in evs) and X is not None
            if ok:
                ok = same(s, I.load(s, mk('el', fields(I, n0)('children'), tok)), n1)
                ok = ok and same(s, I.load(s, X('parent')), n0) and I.load(s, X('key')) is tok
                ok = ok and I.load(s, X('is_leaf')) is ZERO and s.facts.decide(eq(mk_len(I.load(s, X('children'))), ZERO)) is True
                others = [e for e in evs if e.k == 'w' and e.new is not None and not under(e.loc, root(I.deref(n1))) and e.loc is not mk('el', fields(I, n0)('children'), tok)]
                ok = ok and not others
            ctx.ob('creates', '%s: new component' % f.q, ok, msg='the node created for a missing component is not an empty directory linked to its parent by its name in both directions', path=path, **at(t))


def same(s, a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    return s.facts.decide(eq(a, b)) is True


class Out:
    """One way out of an operation."""

    def __init__(self, I, w, kind, s, v):
        self.I, self.w, self.kind, self.s, self.v = I, w, kind, s, v
        evs = s.events()
        i = evs.index(w.ev)
        self.rest = self.after = evs[i + 1:]
        self.N = w.N
        # nodes are created by the walk of set only, so children and the root are nodes
        self.possible = s.facts.assume(eq(self.N, mk('null')), False) is not False
        if w.list is None:
            toks = [e for e in self.rest if e.k == 'tok']
            self.complete = bool(toks) and toks[-1].res == 0
            if toks:
                self.after = self.rest[self.rest.index(toks[-1]) + 1:]
        else:
            self.complete = not w.ev.get('partial')
        self.missing = None
        if not self.complete:
            there, tok, empty = w.component(list(reversed(self.rest)), s)
            self.missing = there and empty is False and s.facts.decide(I.lib.contains(s, w_children(self), tok)) is False
        self.mut = mutations([e for e, _ in archive.flat(self.after)])
        self.path = archive.pathdesc(self.after)

    def D(self, t):
        return self.s.facts.decide(t)

    def truth(self):
        """The boolean that is returned."""
        r = self.D(self.v)
        return r if r is not None else neg(self.D(eq(self.v, ZERO)))

    def F(self, name):
        return mk_init(self, name)

    def leaf(self):
        return self.D(eq(self.F('is_leaf'), ZERO))

    def isroot(self):
        return self.D(eq(self.N, self.w.root))


def mk_init(o, name):
    """Field of the node the walk ended at, as it was before the operation changed it."""
    l = fields(o.I, o.N)(name)
    s0 = o.w.ev.starts[0]
    return o.I.load(s0, l)


def w_children(o):
    return mk_init(o, 'children')


def neg(x):
    return None if x is None else not x


def check_out(ctx, I, f, w, o):
    op = f.n
    line = o.v.line if o.kind == 't' and hasattr(o.v, 'line') else f.line
    at = dict(file=f.rel, func=f.q, line=line or f.line, path=o.path)
    raised = o.kind == 't'
    lookups = op in ('get', 'contains', 'check_target', 'children')
    if lookups or raised and (op != 'set' or o.complete or True):
        ctx.ob('unchanged', '%s leaves the tree alone' % f.q, not o.mut, msg='the tree is changed by %s' % ('an operation that is refused' if raised else 'a lookup'), **at)
    if not o.complete:
        if o.missing is not True:
            ctx.ob('step', '%s: walk left early' % f.q, False, msg='the walk ends although the component may exist or be empty', detail='early', **at)
            return
        if op == 'set':
            ctx.ob('refuse', '%s: component missing' % f.q, raised and neg(o.leaf()) is True, msg='set leaves the walk early although the path may be possible', detail='early', **at)
        elif op == 'check_target':
            lf = o.leaf()
            ctx.ob('refuse', 'check_target: component missing', lf is not None and raised == (lf is False),
                   msg='check_target and set disagree about a path below %s' % ('a stored entry' if not raised else 'a directory'), detail='below', **at)
        elif op == 'contains':
            ctx.ob('lookup', 'contains: component missing', not raised and o.truth() is False, msg='a path that was not stored is reported as present', detail='missing', **at)
        else:
            ctx.ob('lookup', '%s: component missing' % op, raised, msg='%s of a path that was not stored does not raise an error' % op, detail='missing', **at)
        return
    if op == 'get':
        lf = neg(o.leaf())
        if raised:
            ctx.ob('lookup', 'get: not an entry', lf is not True, msg='get refuses a stored entry', detail='refused', **at)
        else:
            ctx.ob('lookup', 'get: stored entry', lf is True, msg='get returns a value for a path that was not stored as an entry', detail='leaf', **at)
            val = fields(I, o.N)('value')
            ctx.ob('lookup', 'get: value of the entry', value_of(I, o, val), msg='get does not return the value of the entry at its path', detail='value', **at)
    elif op == 'contains':
        ctx.ob('lookup', 'contains: whole path found', not raised and o.truth() is True, msg='a stored path is reported as missing', detail='present', **at)
    elif op in ('set', 'check_target'):
        r, d = o.isroot(), mk_len(o.F('children'))
        d0 = o.D(eq(d, ZERO))
        free = r is False and d0 is True
        taken = r is True or d0 is False
        ctx.ob('on-directory', '%s: target %s' % (op, 'refused' if raised else 'accepted'), taken if raised else free,
               msg='%s refuses a path that could be stored' % op if raised else '%s accepts the path of a directory' % op, **at)
        if op == 'set' and not raised:
            N = fields(I, o.N)
            ws = [e for e in o.mut if e.k == 'w']
            ok = not [e for e in o.mut if e.k != 'w'] and all(under(e.loc, N('value')) or e.loc is N('is_leaf') for e in ws)
            ctx.ob('stores', 'set: changes only its entry', ok, msg='storing an entry changes something else in the tree', detail='only', **at)
            lf = I.load(o.s, N('is_leaf'))
            ctx.ob('stores', 'set: becomes an entry', o.D(eq(lf, ZERO)) is False, msg='a stored path does not become an entry', detail='leaf', **at)
            vals = [e for e in ws if under(e.loc, N('value'))]
            whole = any(e.loc is N('value') for e in vals) or {part(e.loc, N('value')) for e in vals} >= members(I.P, f.params[1]['t'])
            ctx.ob('stores', 'set: value stored', bool(vals) and whole and all(from_arg(I, e.new, e.loc, N('value'), f) for e in vals), msg='the value of the entry is not the one that was given', detail='value', **at)
    elif op == 'children':
        ctx.ob('lookup', 'children: found', not raised, msg='children of a stored path raises', detail='present', **at)
        if raised:
            return
        check_listing(ctx, I, f, o, at)
    elif op == 'erase':
        check_erase(ctx, I, f, o, at)


def part(l, base):
    while l.op in ('fld', 'el') and l.a[0] is not base:
        l = l.a[0]
    return l.a[1]


def members(p, t):
    r = p.records.get(t.strip().rec)
    return {x['n'] for x in r['fields']} if r else {'?'}


def value_of(I, o, val):
    """The result is a copy of what val held."""
    v = o.v
    if v is None:
        return False
    if not isloc(v):
        return v is init(I, val) or v.op in ('recv', 'aggr') and all(x is init(I, I.fld(val, n)) for n, x in v.a)
    if v is val:
        return True
    ls = [l for l in o.s.mem if under(l, v)]
    return bool(ls) and all(copied(I, o.s, l, rebase(I, l, v, val)) for l in ls)


def rebase(I, l, a, b):
    if l is a:
        return b
    return mk(l.op, rebase(I, l.a[0], a, b), *l.a[1:])


def copied(I, s, l, src):
    v = s.mem[l]
    w = I.load(s, src)
    strip = lambda t: strip(t.a[0]) if t.op in ('copy', 'u') and isinstance(t.a[0], T) else t
    return v is w or strip(v) is strip(w) or v.op in ('uninit', 'zero') and any(x is not l and under(x, l) for x in s.mem)


def from_arg(I, new, loc, base, f):
    """The value written under base is the corresponding part of the argument."""
    rel = []
    l = loc
    while l is not base:
        rel.append(l.a[1])
        l = l.a[0]
    rel.reverse()
    name = f.params[1]['n']
    x = new
    seen = 0
    while isinstance(x, T) and x.op in ('u', 'trunc', 'copy', 'init', 'sel', 'ptr'):
        if x.op == 'sel':
            if rel and rel[-1] == x.a[1]:
                rel = rel[:-1]
            x = x.a[0]
            continue
        if x.op == 'init':
            x = x.a[0]
            break
        x = x.a[-1] if x.op in ('u', 'trunc') else x.a[0]
    while isinstance(x, T) and x.op in ('fld', 'el') and rel and x.a[1] == rel[-1]:
        x, rel = x.a[0], rel[:-1]
    if isinstance(x, T) and x.op in ('recv', 'aggr', 'zero', 'uninit'):
        return x.op in ('recv', 'aggr') and all(from_arg(I, y, I.fld(loc, n), base, f) for n, y in x.a)
    return isinstance(x, T) and not rel and name in show(x)


def check_listing(ctx, I, f, o, at):
    ls = [e for e in o.after if e.k == 'loop']
    want = fields(I, o.N)('children')
    ok = len(ls) == 1 and ls[0].exact and ls[0].trips is mk_len(I.load(o.s, want)) and all(k == 'cont' for k, _, _ in ls[0].body)
    ctx.ob('listing', 'children visits every child once', ok, msg='the listing does not visit every child of the directory exactly once', detail='all', **at)
    for e in ls:
        for k, evs, s in e.body:
            ps = [x for x in evs if x.k == 'push']
            ctx.ob('listing', 'children lists each child once', len(ps) == 1, msg='a child is listed %d times' % len(ps), detail='once', **at)
            if len(ps) != 1:
                continue
            m = init(I, want)
            key = mk('keyat', m, e.kvar)
            node = I.load(s, mk('el', want, key))
            el = ps[0].el
            got = I.load(s, I.fld(el, 'entry')), I.load(s, I.fld(el, 'is_leaf'))
            ok = got[0] is key and (got[1] is init(I, fields(I, node)('is_leaf')) or same(s, got[1], init(I, fields(I, node)('is_leaf'))))
            ctx.ob('listing', 'children lists a child by its name and kind', ok, msg='the listing does not hold the name and the kind of the child', detail='what', **at)


def climb(I, o, e):
    """Loop of erase that climbs to the last directory to keep: (current, removed) locations."""
    return [l for l, v in e.pre.items() if v is not None and v is o.N]


def candidates(o, evs):
    """Nodes that the operation held in a variable."""
    r = [o.N]
    for e in evs:
        if e.k == 'loop':
            r += [v for s0 in e.starts[:1] for l in e.pre for v in [s0.mem.get(l)] if v is not None and l.op == 'var']
    return r


def check_erase(ctx, I, f, o, at):
    raised = o.kind == 't'
    if raised:
        ctx.ob('refuse', 'erase refuses only the root', o.isroot() is True, msg='removing a stored path raises an error', detail='root', **at)
        return
    ctx.ob('refuse', 'erase: root refused', o.isroot() is False, msg='the root can be removed', detail='notroot', **at)
    evs = o.after
    det = [e for e in evs if e.k == 'maperase']
    ctx.ob('detach', 'erase detaches one node', len(det) == 1, msg='%d nodes are detached' % len(det), detail='one', **at)
    if len(det) != 1:
        return
    det = det[0]
    i = evs.index(det)
    frees = [e for e, _ in archive.flat(evs) if e.k in ('free', 'recursion')]
    later = [e for e, _ in archive.flat(evs[i + 1:]) if e.k in ('free', 'recursion')]
    ctx.ob('detach', 'erase detaches before it frees', len(frees) == len(later) and bool(later), msg='a node is freed before it is detached' if later or frees else 'the detached node is never freed', detail='order', **at)
    tops = [e for e in evs[i + 1:] if e.k == 'free']
    D = tops[-1].val if tops else None
    P = det.m.a[0] if det.m.op == 'fld' else None
    if D is None or P is None:
        ctx.ob('detach', 'erase frees the node', False, msg='the detached node is not freed', detail='node', **at)
        return
    s = o.s
    dk = I.load(s, fields(I, D)('key'))
    ctx.ob('detach', 'erase detaches what it frees', same(s, det.key, init(I, fields(I, D)('key'))) or same(s, det.key, dk), msg='the node that is freed is not the one that is detached', detail='key', **at)
    # how far the removal climbs
    direct = P is I.deref(init(I, fields(I, D)('parent'))) or any(P is I.deref(init(I, fields(I, x)('parent'))) and same(s, x, D) for x in candidates(o, evs))
    size = lambda n: mk_len(init(I, fields(I, n)('children')))
    top = lambda st, n: same(st, init(I, fields(I, n)('parent')), mk('null')) or same(st, n, o.w.root)
    nottop = lambda st, n: st.facts.decide(eq(init(I, fields(I, n)('parent')), mk('null'))) is False or st.facts.decide(eq(n, o.w.root)) is False
    full = lambda st, n: st.facts.decide(le(size(n), ONE)) is False or st.facts.decide(eq(size(n), ONE)) is False
    loop, dl = None, None
    for e in evs[:i]:
        if e.k == 'loop' and e.starts:
            for l in climb(I, o, e):
                if e.starts[0].mem.get(l) is D:
                    loop, dl = e, l
    if loop is None:
        ctx.ob('keep', 'erase removes the entry', same(s, D, o.N), msg='something else than the entry is removed', **at)
        ctx.ob('parent', 'erase detaches from the parent', direct, msg='the node is not removed from its own parent', **at)
        par = init(I, fields(I, o.N)('parent'))
        ctx.ob('stop', 'erase removes the directories that are left empty', full(s, par) or top(s, par), msg='a directory that is left empty stays in the tree', **at)
        return
    cur = None
    for (k, body, s1), s0 in zip(loop.body, loop.starts):
        if k != 'cont':
            continue
        lat = dict(path=archive.pathdesc(body), file=f.rel, func=f.q, line=loop.line)
        new = s1.mem.get(dl)
        if new is not init(I, fields(I, D)('parent')):
            # the node was reached by another variable, which goes on to its parent
            cl = [l for l in climb(I, o, loop) if l is not dl and s0.mem.get(l) is new and s1.mem.get(l) is init(I, fields(I, new)('parent'))]
            ctx.ob('climb', 'erase climbs from child to parent', bool(cl), msg='the climb does not go from a node to its parent', **lat)
            if not cl:
                return
            cur = s0.mem.get(cl[0])
        ctx.ob('keep', 'erase climbs past a directory only if nothing else is in it', s1.facts.decide(le(size(new), ONE)) is True, msg='a directory that holds other entries is removed with one of them', **lat)
        ctx.ob('keep', 'erase never climbs past the root', nottop(s1, new), msg='the climb can go past the root', detail='root', **lat)
    if P.op == 'el' and P.a[0].op == 'mem' and P.a[0].a[0].op == 'null':
        # only for a node without parent, that is the root, that was refused
        ctx.ob('parent', 'erase: node without parent', o.isroot() is False, msg='the root can be removed', **at)
        return
    climbed = cur is not None and P is I.deref(cur) and s.facts.decide(eq(cur, D)) is False
    ctx.ob('parent', 'erase detaches from the parent', direct or climbed, msg='the node that is removed may not be a child of the directory that it is removed from', **at)
    # it stops only at the root or where something else is
    stopat = cur if climbed else init(I, fields(I, D)('parent')) if cur is None else None
    if stopat is not None:
        ctx.ob('stop', 'erase removes the directories that are left empty', full(s, stopat) or top(s, stopat), msg='a directory that is left empty stays in the tree', **at)


def check_free(ctx, p, f):
    """The function that frees a subtree: every child first, then the node, once."""
    I = engine.Interp(p, Client())
    node = fresh('node')
    outs = I.run(f, this=TH, args=[node]) if 'args' in I.run.__code__.co_varnames else I.run(f, this=TH)
    ctx.analysed(f)
    for kind, s, v in outs:
        evs = s.events()
        at = dict(file=f.rel, func=f.q, line=f.line, path=archive.pathdesc(evs))
        fr = [e for e in evs if e.k == 'free']
        ctx.ob('free', '%s frees the node once' % f.q, len(fr) == 1, msg='the node is freed %d times' % len(fr), detail='once', **at)
        if len(fr) != 1:
            continue
        nd = fr[0].val
        rec = [e for e in evs if e.k == 'loop' and any(x.k == 'recursion' for x, _ in archive.flat([e]))]
        before = rec and evs.index(rec[0]) < evs.index(fr[0])
        ch = fields(I, nd)('children')
        ok = len(rec) == 1 and before and rec[0].exact and rec[0].trips is mk_len(init(I, ch))
        ctx.ob('free', '%s frees every child first' % f.q, ok, msg='not every child is freed before the node', detail='children', **at)
        for e in rec:
            for k, body, s1 in e.body:
                r = [x for x in body if x.k == 'recursion']
                good = k == 'cont' and len(r) == 1 and r[0].args
                a = r[0].args[-1] if good else None
                if a is not None and isloc(a):
                    a = I.load(s1, a)
                el = mk('keyat', init(I, ch), e.kvar)
                good = good and a is not None and a in (init(I, mk('el', ch, el)), I.load(s1, mk('el', ch, el)))
                ctx.ob('free', '%s frees each child once' % f.q, good, msg='a child is not freed exactly once', detail='each', **at)
        after = evs[evs.index(fr[0]) + 1:]
        ctx.ob('free', '%s does not use the node afterwards' % f.q, not mutations(after), msg='the node is used after it was freed', detail='after', **at)


def run(ctx):
    ctx.rule('split', 'every operation takes one component per step, split at slashes', 6)
    ctx.rule('step', 'empty components are skipped, present ones are followed, missing ones are not', 6)
    ctx.rule('below-file', 'no entry is created below a stored entry')
    ctx.rule('creates', 'a created component is an empty directory linked in both directions')
    ctx.rule('unchanged', 'lookups and refused operations leave the tree as it was', 3)
    ctx.rule('refuse', 'set, check_target and erase refuse exactly the impossible paths', 2)
    ctx.rule('on-directory', 'nothing is stored on top of a directory', 2)
    ctx.rule('lookup', 'a lookup yields exactly what was stored', 4)
    ctx.rule('stores', 'storing makes the target an entry with the given value', 2)
    ctx.rule('listing', 'a listing holds every child once', 1)
    ctx.rule('detach', 'removal detaches exactly one node and frees that node afterwards', 2)
    ctx.rule('parent', 'the node is detached from its own parent')
    ctx.rule('climb', 'the climb goes from child to parent', 0)
    ctx.rule('keep', 'a directory is removed with its entry only if nothing else is in it')
    ctx.rule('stop', 'directories that a removal leaves empty go with it', 0)
    ctx.rule('free', 'a subtree is freed children first, every node once', 2)
    ctx.assume('std::unordered_map, std::string and std::getline behave as the standard says', 'rnew value-initialises what it allocates')
    p = archive.program(ctx)
    fns = sorted((f for f in p.fns.values() if f.cq == CQ), key=lambda f: (f.line, f.id))
    if not fns:
        raise AnalysisError('the path index is not found')
    for f in fns:
        if f.kind == 'method' and f.acc == 'public' and f.n != 'all':
            I = engine.Interp(p, Client())
            outs = I.run(f, this=TH)
            ctx.analysed(f)
            seen = set()
            for kind, s, v in outs:
                w = Walk(I, f, s.events())
                if w.src is None:
                    ctx.ob('split', '%s walks over its path' % f.q, False, f.rel, f.q, f.line, 'an operation decides about a path without walking over its components', archive.pathdesc(s.events()))
                    continue
                if w.W is None:
                    ctx.ob('step', '%s starts at the root' % f.q, False, f.rel, f.q, w.ev.line, 'the walk does not start at the root', archive.pathdesc(s.events()))
                    continue
                o = Out(I, w, kind, s, v)
                if not o.possible:
                    continue
                if id(w.ev.starts) not in seen:
                    seen.add(id(w.ev.starts))
                    check_walk(ctx, I, f, w)
                check_out(ctx, I, f, w, o)
        elif f.kind == 'method' and f.acc != 'public' and frees(f):
            check_free(ctx, p, f)


def frees(f):
    """Frees the node it is given and calls itself for others."""
    txt = str(f.d)
    return 'rfree' in txt and f.id in txt
