"""Every function of the sources that acquires a file, an image-library object or a block of memory by hand is analysed on every path, by
return and by exception, with the functions it hands such things to or gets them from analysed inside it. At every way out each thing
acquired must have been released by the function that belongs to it and not twice, or returned, or given to an object that releases it
(counted pointer, bit stream), or stored. It is not touched after its release. For what is stored, the class it is stored in -- or one
that holds objects of that class -- must release things of that type from its destructor, and may not be copied; a constructor
that fails must not have stored anything the destructor would have released."""
TECHNIQUE = 'path-sensitive ownership analysis (acquire, release, hand over) with an owner rule per class'
NOTE = ('Running out of memory is outside. Storing into a class is followed by a rule per class and type, not per object. Sockets and threads '
        'are claimed by C19 and C40; counted memory (rainman::ptr) needs no rule.')

import signal

from hz import prog, engine, exc
from hz.extract import AnalysisError, VERIF, sources
from hz.prog import walk
from hz.terms import *

# acquiring function -> kind
ACQUIRE = {'fopen': 'file', 'fmemopen': 'file', 'tmpfile': 'file', 'fdopen': 'file', 'open_memstream': 'file', 'popen': 'pipe', 'opendir': 'dir',
           'malloc': 'heap', 'calloc': 'heap', 'strdup': 'heap', 'strndup': 'heap', 'realpath': 'heap', 'aligned_alloc': 'heap',
           'rmalloc': 'rainman', 'rnew': 'rainman',
           'png_create_read_struct': 'png', 'png_create_read_struct_2': 'png', 'png_create_write_struct': 'png', 'png_create_write_struct_2': 'png',
           'png_create_info_struct': 'pnginfo', 'jpeg_CreateDecompress': 'jpeg', 'jpeg_CreateCompress': 'jpeg'}
# releasing function -> kinds of its arguments
RELEASE = {'fclose': ('file',), 'pclose': ('pipe',), 'closedir': ('dir',), 'free': ('heap',), 'rfree': ('rainman',),
           'png_destroy_read_struct': ('*png', '*pnginfo', '*pnginfo'), 'png_destroy_write_struct': ('*png', '*pnginfo'),
           'png_destroy_info_struct': (None, '*pnginfo'), 'jpeg_destroy_decompress': ('jpeg',), 'jpeg_destroy_compress': ('jpeg',), 'jpeg_destroy': ('jpeg',)}
# Never fail, or failure ends the process, or failing is running out of memory.
SURE = {'rainman', 'jpeg', 'new', 'new[]'}
OWNERS = ('rainman::ptr', 'std::unique_ptr', 'std::shared_ptr', 'bitio::stream', 'std::make_shared', 'std::make_unique')
THROWING = {'at', 'stoi', 'stol', 'stoul', 'stoull', 'stod', 'substr', 'value', 'regex_match', 'regex_search'}
RES, HELD, FREED, DEAD, KEPT = (mk('obj', 'c42:' + x) for x in ('value', 'held', 'freed', 'dead', 'kept'))
MARKS = (RES, HELD, FREED, DEAD, KEPT)
SMALL = 60
LIMIT = 100             # seconds for one function
FREEDMSG = 'what %s acquired at line %d is used after its release'


def acquires(e):
    k = e.get('k')
    if k == 'new':
        return 'new[]' if e.get('arr') else 'new'
    if k == 'call' and e.get('n') in ACQUIRE and (e.get('cq') or '') in ('', 'rainman::Allocator') and (e.get('q') or '').split('::')[0] in (e['n'], 'std', 'rainman'):
        return ACQUIRE[e['n']]


def releases(e):
    """[(kind, operand)] """
    if e.get('k') == 'delete':
        return [('new[]' if e.get('arr') else 'new', e['e'])]
    if e.get('k') == 'call' and e.get('n') in RELEASE and (e.get('cq') or '') in ('', 'rainman::Allocator'):
        return [(k, a) for k, a in zip(RELEASE[e['n']], e.get('args') or []) if k]
    return []


def site(e, fr):
    return (e.get('n') or e['k'], e['l'], prog.rel(fr.file), fr.name)


class Table:
    def __init__(self, p):
        self.p = p
        self.own = [f for f in p.fns.values() if f.rel.startswith('src/') and f.body is not None]
        self.acq, self.rel, self.calls = {}, {}, {}
        for f in self.own:
            nodes = [x for x in walk([f.body, f.inits]) if isinstance(x, dict)]
            self.acq[f.id] = [x for x in nodes if acquires(x)]
            self.rel[f.id] = [x for x in nodes if releases(x)]
            self.calls[f.id] = {x['fn'] for x in nodes if x.get('fn')}
        self.deep = {i for i in self.acq if self.acq[i] or self.rel[i]}
        while True:
            more = {i for i, c in self.calls.items() if i not in self.deep and c & self.deep}
            if not more:
                break
            self.deep |= more

    def reach(self, i, seen=None):
        seen = seen if seen is not None else set()
        if i not in seen:
            seen.add(i)
            for j in self.calls.get(i, ()):
                self.reach(j, seen)
        return seen


class Client(engine.Client):
    tracing = False
    merge = True
    max_paths = 4000

    def __init__(self, ctx, T_, X, handing, root, makers):
        self.makers = makers    # functions that return what they acquire: kind, may it be null?
        self.ctx, self.T, self.X, self.handing, self.root = ctx, T_, X, handing, root
        self.fns = set()
        self.stored = set()     # (kind, pointer type, site, field, in a local container?)
        self.hands = False
        self.types = {}
        self.first = {}
        self.watch = ()         # fields of the object at hand

    # -- what is analysed in place -------------------------------------------
    def want_inline(self, fn, st):
        r = fn.rel.startswith('src/') and fn.body is not None and (
            fn.id in self.handing or bool(self.T.rel.get(fn.id)) and fn.id in self.T.rel or
            sum(1 for _ in walk(fn.body)) <= SMALL and not any(isinstance(x, dict) and x.get('k') in ('for', 'while', 'do', 'range') for x in walk(fn.body)))
        if r and self.T.acq.get(fn.id) and fn.id not in self.handing:
            r = False           # decided on its own
        if r:
            self.fns.add(fn)
        return r

    def collects(self, I, n, st, fr):
        return any(isinstance(x, dict) and (acquires(x) or releases(x) or x.get('fn') in self.T.deep) for x in walk(n))

    # -- bookkeeping -----------------------------------------------------------
    def held(self, st):
        return [(l.a[1], st.mem.get(mk('fld', RES, l.a[1])), v) for l, v in list(st.mem.items()) if l.op == 'fld' and l.a[0] is HELD and l.a[1] != 'start']

    def find(self, st, v):
        """Site whose last result this is."""
        for l, r in list(st.mem.items()):
            if l.op == 'fld' and l.a[0] is RES and r is v and l.a[1] != 'start':
                return l.a[1]

    def loop_round(self, I, n, st, fr, rng, k):
        """What blocks hold does not matter from one round to the next."""
        for l, v in list(st.mem.items()):
            if l.op == 'fld' and l.a[0] is RES and l.a[1] != 'start' and v.op == 'ptr' and v.a[0].op == 'el':
                I.drop_under(st, v.a[0].a[0])
                st.mem[v.a[0].a[0]] = mk('uninit', v.a[0].a[0])
        for l, v in list(st.mem.items()):
            if v.op in ('updp', 'fill') or l.op in ('el', 'mitem') and not (v.op == 'ptr'):
                if l.op in ('el', 'mitem'):
                    del st.mem[l]
                else:
                    st.mem[l] = mk('uninit', l)

    def merge_key(self, st):
        return tuple(sorted((str(s), str(st.mem.get(mk('fld', HELD, s)))) for s, _, _ in self.held(st))) + \
            tuple(sorted(str(l.a[1]) for l in st.mem if l.op == 'fld' and l.a[0] is FREED)) + \
            tuple((str(st.mem.get(l)), isnull(st, self.first.get(l.a[1]))) for l in self.watch)

    def acquire(self, I, st, e, fr, kind, v):
        s = site(e, fr)
        self.types[s] = ptype(e)
        self.drop(I, st, s, 'the next call')
        st.mem[mk('fld', RES, s)] = v
        st.mem[mk('fld', HELD, s)] = mk('str', kind)
        st.mem.pop(mk('fld', FREED, s), None)
        self.ctx.ob('site', '%s at %s:%d' % (s[0], s[2], s[1]), True)

    def new_object(self, I, e, fr):
        """One object per place of acquisition: the latest."""
        return mk('obj', 'c42:%s:%d:%s' % (e['n'] if isinstance(e.get('n'), str) else 'new', e['l'], fr.name))

    def drop(self, I, st, s, what):
        """The next thing is acquired at the same place while this one is still held."""
        if mk('fld', HELD, s) in st.mem:
            if not self.live(I, st, st.mem[mk('fld', RES, s)]):
                self.leak(s, what)
            st.mem.pop(mk('fld', HELD, s))

    def leak(self, s, what):
        self.ctx.ob('released', '%s at %s:%d' % (s[0], s[2], s[1]), False, s[2], s[3], s[1],
                    'what %s acquires here is neither released nor handed on before %s' % (s[0], what), detail=s[0] + '|' + what)

    def live(self, I, st, v):
        for l, x in st.mem.items():
            if l.op == 'fld' and l.a[0] in MARKS:
                continue
            if x is v or isinstance(x, T) and I.mentions(x, lambda t: t is v):
                r = l
                while r.op in ('fld', 'el', 'mitem'):
                    r = r.a[0]
                if mk('fld', DEAD, r) not in st.mem:
                    return True
        return False

    def release(self, I, st, v, kind, e, fr):
        s = self.find(st, v)
        where = (prog.rel(fr.file), fr.name, e['l'])
        if s is None:
            if v.op in ('lit', 'c', 'ptr') or v is NULL:
                return
            # something of the object's, or of the caller's
            s = ('the block', e['l'], where[0], where[1])
            self.types[s] = '?'
            st.mem[mk('fld', RES, s)] = v
            st.mem[mk('fld', FREED, s)] = ONE
            return
        if mk('fld', FREED, s) in st.mem:
            self.ctx.ob('once', 'release at line %d' % e['l'], False, *where, 'what %s acquired at line %d is released a second time' % (s[0], s[1]))
            return
        h = st.mem.get(mk('fld', HELD, s))
        if h is not None:
            k = h.a[0]
            self.ctx.ob('matching', '%s of line %d released at line %d' % (s[0], s[1], e['l']), k == kind, *where,
                        'what %s acquired at line %d (%s) is released as %s' % (s[0], s[1], k, kind))
            st.mem.pop(mk('fld', HELD, s))
        self.ctx.ob('once', '%s of line %d released at line %d' % (s[0], s[1], e['l']), True)
        st.mem[mk('fld', FREED, s)] = ONE

    def value(self, I, st, v):
        for _ in range(4):
            if v is not None and engine.isloc(v):
                v = I.load(st, v)
        return v

    # -- hooks -------------------------------------------------------------------
    def call(self, I, e, name, st, obj, args, fr, out):
        if obj is not None and engine.isloc(obj):
            self.on_read(I, st, mk('fld', obj, '*'), e, fr)
        k = acquires(e) if e.get('k') == 'call' else None
        if k == 'jpeg':
            self.acquire(I, st, e, fr, k, self.value(I, st, args[0]))
            return [(st, ZERO)]
        if k:
            o = self.new_object(I, e, fr)
            I.drop_contents(st, o)
            v = mk('ptr', mk('el', o, ZERO))
            st.mem[o] = mk('uninit', o)
            r = []
            if k not in SURE:
                s2 = st.copy()
                r.append((s2, NULL))
            self.acquire(I, st, e, fr, k, v)
            return r + [(st, v)]
        if e.get('k') == 'call' and releases(e):
            for i, kind in enumerate(RELEASE[e['n']]):
                if kind is None or i >= len(args):
                    continue
                v = self.value(I, st, args[i])
                if v is NULL or v is ZERO:
                    continue
                if kind.startswith('*'):
                    l = I.deref(v)
                    x = self.value(I, st, l)
                    self.release(I, st, x, kind[1:], e, fr)
                    if engine.isloc(l):
                        st.mem[l] = NULL    # libpng clears the pointer
                else:
                    self.release(I, st, v, kind, e, fr)
            return [(st, ZERO)]
        made = self.makers.get(e.get('fn'))
        if made:
            r = []
            for s2, _ in I.opaque(e, name, st, obj, args, fr, out):
                o = self.new_object(I, e, fr)
                I.drop_contents(s2, o)
                v = mk('ptr', mk('el', o, ZERO))
                s2.mem[o] = mk('uninit', o)
                if made[1]:
                    r.append((s2.copy(), NULL))
                self.acquire(I, s2, e, fr, made[0], v)
                r.append((s2, v))
            return r
        q = e.get('q') or name or ''
        if q.startswith(OWNERS) and (e.get('k') == 'ctor' or e.get('n') in ('reset', '(ctor)') or 'make_' in q):
            self.owned(I, st, args)
        return None

    def owned(self, I, st, args):
        for a in args:
            s = self.find(st, self.value(I, st, a))
            if s is not None and mk('fld', HELD, s) in st.mem:
                self.ctx.ob('released', '%s at %s:%d: handed to an owner' % (s[0], s[2], s[1]), True)
                st.mem.pop(mk('fld', HELD, s))

    def on_event(self, I, st, ev):
        fr = type('F', (), {'file': ev.file, 'name': ev.fn})
        if ev.k == 'new':
            self.acquire(I, st, {'k': 'new', 'l': ev.line, 't': ev.type + ' *'}, fr, 'new[]' if ev.arr else 'new', mk('ptr', mk('el', ev.obj, ZERO)))
        elif ev.k == 'delete':
            self.release(I, st, ev.val, 'new[]' if ev.arr else 'new', {'l': ev.line}, fr)
        elif ev.k == 'construct' and str(ev.cls).startswith(OWNERS):
            self.owned(I, st, ev.args)
        elif ev.k == 'push':
            s = self.find(st, ev.val) if ev.val is not None else None
            if s is not None and mk('fld', HELD, s) in st.mem:
                self.put(I, st, s, ev.c, ev)

    track_alloc = True

    def on_decl(self, I, st, v, loc, fr):
        st.mem.pop(mk('fld', DEAD, loc), None)

    def on_scope_exit(self, I, st, v, loc, fr):
        t = v.get('t')
        if t is not None and t.c == 'rec':
            self.destroy(I, st, t, loc, fr)
        if t is not None and t.strip().c in ('rec', 'ptr', 'arr'):
            st.mem[mk('fld', DEAD, loc)] = ONE

    def destroy(self, I, st, t, loc, fr):
        """The destructor of a local object: releases of its own fields."""
        q = (t.rec or t.q or t.n or '').replace('const ', '')
        for f in self.T.own:
            if f.kind != 'dtor' or f.cls != q and f.cq != q:
                continue
            self.fns.add(f)
            for x in self.T.rel[f.id]:
                for kind, a in releases(x):
                    for m in walk(a):
                        if isinstance(m, dict) and m.get('k') == 'mem' and m.get('n'):
                            l = mk('fld', loc, m['n'])
                            w = st.mem.get(l)
                            if w is not None and w.op == 'rf':
                                l = w.a[0]
                                w = st.mem.get(l)
                            if w is not None and w is not NULL:
                                self.release(I, st, w, kind.lstrip('*'), x, type('F', (), {'file': f.file, 'name': f.q}))
                                if kind.startswith('*'):
                                    st.mem[l] = NULL

    def on_read(self, I, st, loc, e, fr):
        if loc.op in ('el', 'fld') and loc.a[0] not in MARKS:
            r = loc
            while r.op in ('fld', 'el', 'mitem'):
                r = r.a[0]
            for l in [l for l in st.mem if l.op == 'fld' and l.a[0] is FREED]:
                v = st.mem.get(mk('fld', RES, l.a[1]))
                if v is not None and (v.op == 'ptr' and root(v.a[0]) is r and r.op == 'obj' or v.op != 'ptr' and root(I.deref(v)) is r):
                    self.ctx.ob('once', 'access at line %d' % (e or {}).get('l', 0), False, prog.rel(fr.file), fr.name, (e or {}).get('l', 0),
                                FREEDMSG % (l.a[1][0], l.a[1][1]))

    def on_write(self, I, st, loc, v, e, fr):
        if loc.op == 'fld' and loc.a[0] in MARKS:
            return
        self.on_read(I, st, loc, e, fr)
        if v is None:
            return
        s = self.find(st, v)
        if s is not None and mk('fld', HELD, s) in st.mem:
            self.put(I, st, s, loc, e)

    def put(self, I, st, s, loc, e):
        """A held thing is stored at a place."""
        kind = st.mem[mk('fld', HELD, s)].a[0]
        r = loc
        while r.op in ('fld', 'el', 'mitem'):
            r = r.a[0]
        if r.op == 'var' and loc.op != 'el' and loc.op != 'mitem':
            if loc.op == 'fld':
                self.stored.add((kind, self.types[s], s, loc.a[1], False, 'local'))
            return          # still in the hands of this function
        st.mem.pop(mk('fld', HELD, s))
        if r.op == 'glob':
            return          # for the life of the process
        if loc is r and r.op in ('obj', 'mem', 'deref'):
            self.hands = True       # a variable of the caller
            return
        if loc.op == 'fld' and loc.a[0].op == 'obj':
            st.mem[mk('fld', KEPT, s)] = loc
        self.stored.add((kind, self.types[s], s, field(loc), r.op == 'var', ''))


def isnull(st, v):
    return v is not None and st.facts.decide(mk('eqv', *sorted((v, NULL), key=lambda z: z.id))) is True


def field(loc):
    while loc.op in ('el', 'mitem', 'fld'):
        if loc.op == 'fld':
            return loc.a[1]
        loc = loc.a[0]
    return None


def ptype(e):
    """Type of what is acquired or released, as a string."""
    t = e.get('t')
    if isinstance(t, str):
        return norm(t)
    while t is not None and t.c == 'ref':
        t = t.p
    return norm(t.n) if t is not None else '?'


def norm(n):
    return n.replace('const ', '').replace('struct ', '').replace('class ', '').replace(' ', '')


class Late(Exception):
    pass


def limited(ctx, I, f, setup):
    """Outcomes of f; a function that is not decided in time is named in the evidence and not judged."""
    def late(*_):
        raise Late
    old = signal.signal(signal.SIGALRM, late)
    n = LIMIT if len(ctx.assumptions) < 4 else LIMIT // 5
    signal.setitimer(signal.ITIMER_REAL, n)
    try:
        return list(I.run(f, setup))
    except Late:
        ctx.assume('%s was not decided within %d s' % (f.q, n))
        return []
    except AnalysisError as x:
        ctx.assume('%s was not decided: %s' % (f.q, x))
        return []
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def analyse(ctx, p, tab, X, f, handing, makers, fields=()):
    cl = Client(ctx, tab, X, handing, f, makers)
    I = cl.I = engine.Interp(p, cl)

    def opaque(I, e, name, st, obj, args, fr, out):
        for a in args:
            s = cl.find(st, cl.value(I, st, a)) if a is not None else None
            if s is not None and mk('fld', FREED, s) in st.mem:
                ctx.ob('once', 'use at line %d' % e['l'], False, prog.rel(fr.file), fr.name, e['l'], FREEDMSG % (s[0], s[1]))
        ts = set()
        for t in X.targets(e):
            ts |= set(X.escapes[t])
        if not ts and e.get('n') in THROWING and (e.get('q') or '').startswith('std::'):
            ts = {'std::exception'}
        return sorted(t for t in ts if t)
    cl.opaque = opaque

    this = mk('obj', 'this:' + (f.cq or ''))
    first = cl.first
    cl.watch = [mk('fld', this, x) for x in sorted(fields)]

    def setup(st):
        for m in MARKS:
            st.mem[mk('fld', m, 'start')] = ZERO
        for fld in fields:
            first[fld] = I.load(st, mk('fld', this, fld))
    hands = False
    made = set()
    for k, s, v in limited(ctx, I, f, setup):
        if k == 'r':
            hs = cl.held(s)
            made.add('null' if not hs and (v is NULL or v is ZERO) else hs[0][2].a[0] if len(hs) == 1 and v is hs[0][1] and hs[0][2].a[0] != 'jpeg' else None)
        for fld in sorted(fields):
            loc = mk('fld', this, fld)
            old, new = first[fld], I.load(s, loc)
            gone = cl.find(s, new)
            ctx.ob('kept', '%s::%s after %s' % (f.cls, fld, f.n), gone is None or mk('fld', FREED, gone) not in s.mem, f.rel, f.q, f.line,
                   '%s still refers to what was released at line %d' % (fld, gone[1] if gone else 0), detail=fld + '|dangling')
            if new is old or isnull(s, old):
                continue
            gone = cl.find(s, old)
            ok = gone is not None and mk('fld', FREED, gone) in s.mem or any(
                x is old or x.op in ('ptr', 'lin', 'viter', 'updp', 'fill') and I.mentions(x, lambda t: t is old) for l, x in s.mem.items()
                if not (l.op == 'fld' and l.a[0] in MARKS) and root(l).op != 'var')
            ctx.ob('kept', '%s::%s after %s' % (f.cls, fld, f.n), ok, f.rel, f.q, f.line,
                   '%s is given another value, and what it referred to is neither released nor kept' % fld, detail=fld + '|lost')
        for st_, val, h in cl.held(s):
            if k == 'r' and v is not None and h.a[0] != 'jpeg':
                xs = [x for l, x in s.mem.items() if under(l, v)] if engine.isloc(v) else [v]
                if any(x is val or I.mentions(x, lambda t: t is val) for x in xs):
                    hands = True
                    ctx.ob('released', '%s at %s:%d: returned' % (st_[0], st_[2], st_[1]), True)
                    continue
            if f.q == 'main' and h.a[0] in ('new', 'new[]'):
                continue        # the process ends
            cl.leak(st_, 'the exception raised at line %d' % v.line if k == 't' else 'the return')
        if k == 't' and f.kind == 'ctor':
            # the destructor does not run: what the object itself was to release is lost
            for l, x in list(s.mem.items()):
                if l.op == 'fld' and l.a[0] is KEPT and l.a[1] != 'start' and x.op == 'fld' and x.a[0].op == 'obj' and l.a[1][3] == f.q:
                    cl.leak(l.a[1], 'the exception raised at line %d, after which the destructor does not run,' % v.line)
        for l in s.mem:
            if l.op == 'fld' and l.a[0] is FREED and l.a[1] != 'start':
                ctx.ob('released', '%s at %s:%d: released' % (l.a[1][0], l.a[1][2], l.a[1][1]), True)
    if len(made - {'null'}) == 1 and None not in made and not cl.hands:
        makers[f.id] = (*(made - {'null'}), 'null' in made)
    ctx.analysed(*sorted(cl.fns | {f}, key=lambda f: f.q))
    return cl, hands


def run(ctx):
    ctx.rule('site', 'places where a file, image object or block of memory is acquired', 12)
    ctx.rule('released', 'things released, returned or handed over on a way out', 8)
    ctx.rule('once', 'releases and accesses: nothing is released twice or used after its release', 5)
    ctx.rule('matching', 'released by the function that belongs to it', 5)
    ctx.rule('owner', 'classes that store such things release them when they are destroyed', 4)
    ctx.rule('kept', 'fields that hold such things: what they held is released or kept when they change, and they never hold what is released', 4)
    ctx.rule('copied', 'classes that release from their destructor are not copied', 3)
    p = ctx.program(prog.load([(s, 'ocl') for s in sources()] + [(VERIF + '/drivers/headers.cpp', 'ocl'), (VERIF + '/drivers/jpeg.cpp', 'ocl')]))
    tab = Table(p)
    X = exc.Excs(p, [f for f in p.fns.values() if f.body is not None])
    todo = sorted((f for f in tab.own if tab.acq[f.id]), key=lambda f: f.id)
    handing, done, stored, makers = set(), set(), set(), {}
    while todo:
        f = todo.pop(0)
        if f.id in done:
            continue
        done.add(f.id)
        cl, hands = analyse(ctx, p, tab, X, f, handing, makers)
        stored |= {x + (f,) for x in cl.stored}
        hands = hands or cl.hands
        if hands and f.id not in handing:
            handing.add(f.id)
            for g in tab.own:
                if f.id in tab.calls[g.id]:
                    done.discard(g.id)
                    todo.append(g)
    fields = {}
    for kind, ty, s, fld, local, _, f in stored:
        if fld and f.cls and not local:
            fields.setdefault(f.cls, set()).add(fld)
    for g in sorted(tab.own, key=lambda g: g.id):
        if g.kind not in ('ctor', 'dtor') and g.cls in fields and (tab.rel[g.id] or touches(g, fields[g.cls])):
            rec = p.records.get(g.cls)
            own = fields[g.cls] & {x['n'] for x in rec.get('fields') or []} if rec else fields[g.cls]
            if own:
                analyse(ctx, p, tab, X, g, handing, makers, own)
    owners = {}
    for kind, ty, s, fld, local, _, f in sorted(stored, key=lambda x: str(x[:5])):
        where = (s[2], s[3], s[1])
        if local:
            ok = any(k.lstrip('*') == kind and ptype(a) == ty for i in tab.reach(f.id) for x in tab.rel.get(i, ()) for k, a in releases(x))
            ctx.ob('owner', '%s at line %d kept in a local container' % (s[0], s[1]), ok, *where,
                   'what %s acquires is kept in a local container, and nothing of type %s is released' % (s[0], ty))
            continue
        recs = holders(p, fld, ty) | ({f.cls} if f.cls else set()) if fld else set(p.records)
        good = []
        for o in sorted(closure(p, recs)) if fld else sorted(p.records):
            how = frees(tab, o, kind, ty)
            if how:
                good.append(o)
            if how == 'dtor':
                owners.setdefault(o, s)
        boxed = [x for q in recs for x in (p.records.get(q) or {}).get('fields') or [] if x['n'] == fld and ty in norm(x['t'].n) and x['t'].strip().c == 'rec'
                 and not norm(x['t'].n).startswith(('std::shared_ptr', 'std::unique_ptr', 'rainman::ptr'))] if fld else []
        if boxed and good:
            ctx.ob('owner', '%s: each of them is visited' % fld, any(visits(g, fld) for o in good for d in tab.own if norm(d.cls or '') == norm(o) and d.kind == 'dtor'
                   for i in tab.reach(d.id) for g in [tab.p.fns.get(i)] if g is not None and g.body is not None), *where,
                   'the destructor does not go through %s, where what %s acquires is stored' % (fld, s[0]), detail=fld + '|visit')
        ctx.ob('owner', '%s at line %d, stored as %s' % (s[0], s[1], fld), bool(good), *where,
               'what %s acquires (%s) is stored%s, and no destructor of the class, or of one that holds its objects, releases it'
               % (s[0], ty, ' as %s' % fld if fld else ''), detail='%s|%s' % (s[0], fld or ty))
    # what a free function stores in an object of its caller: each class that passes its own object
    for kind, ty, s, fld, local, _, f in sorted(stored, key=lambda x: str(x[:5])):
        if local or f.cls or not fld:
            continue
        for c_ in sorted({g.cls for g in tab.own if g.cls and f.id in tab.calls[g.id]}):
            os = closure(p, {c_}, True)
            ctx.ob('owner', '%s, stored as %s for %s' % (s[0], fld, c_), any(frees(tab, o, kind, ty) for o in os), s[2], s[3], s[1],
                   'what %s acquires (%s) is stored for an object of %s, whose destructor does not release it' % (s[0], ty, c_), detail='%s|%s|%s' % (s[0], fld, c_))
    # pairs of functions the PNG library is given for its memory
    for f in tab.own:
        for x in walk(f.body):
            if isinstance(x, dict) and x.get('k') == 'call' and str(x.get('n')).startswith('png_create_') and str(x['n']).endswith('_2') and len(x['args']) >= 7:
                gs = [{y['fn'] for y in walk(x['args'][i]) if isinstance(y, dict) and y.get('k') in ('ref', 'mem') and y.get('fn')} for i in (5, 6)]
                if not gs[0] and not gs[1]:
                    continue
                got = {(acquires(y), ptype(y)) for g in gs[0] for i in tab.reach(g) for y in tab.acq.get(i, ())}
                put = {(k, ptype(a)) for g in gs[1] for i in tab.reach(g) for y in tab.rel.get(i, ()) for k, a in releases(y)}
                ctx.ob('matching', 'memory functions of %s at line %d' % (x['n'], x['l']), bool(got) and got == put, f.rel, f.q, x['l'],
                       'the library gets its memory as %s and gives it back as %s' % (sorted(got), sorted(put)), detail='callbacks')
    for o in sorted(owners):
        bad = [(f, x) for f in tab.own for x in walk([f.body, f.inits]) if isinstance(x, dict) and copies(x, closure(p, {o}, True))]
        bad = [(f, x) for f, x in bad if not f.d.get('implicit')]
        f, x = bad[0] if bad else (None, None)
        ctx.ob('copied', o, not bad, f.rel if f else '', f.q if f else '', x['l'] if x else 0, 'an object of %s is copied; both copies release the same things' % o, detail=o)


def touches(g, fields):
    """Does the function write a field of these names?"""
    return any(isinstance(x, dict) and x.get('k') in ('bin', 'un') and any(isinstance(y, dict) and y.get('k') == 'mem' and y.get('n') in fields for y in walk(x.get('a') or x.get('l') or x))
               for x in walk(g.body))


def visits(g, fld):
    """A loop over the container that does something with the elements."""
    def names(x):
        return any(isinstance(y, dict) and y.get('k') == 'mem' and y.get('n') == fld for y in walk(x))
    for x in walk(g.body):
        if not isinstance(x, dict) or x.get('k') not in ('for', 'while', 'do', 'range'):
            continue
        if names(x) and any(isinstance(y, dict) and (y.get('k') == 'delete' or y.get('k') == 'call' and y.get('args')) and y.get('n') not in ('operator!=', 'operator++')
                            for y in walk(x.get('b'))):
            return True
    return False


def holders(p, fld, ty):
    """Records with a field of this name that can hold pointers of this type."""
    return {q for q, r in p.records.items() for f in r.get('fields') or [] if f['n'] == fld and ty in norm(f['t'].n)}


def closure(p, recs, byvalue=False):
    """The records and those of the sources with fields of their types."""
    if not hasattr(p, 'c42fields'):
        own = {norm(f.cls) for f in p.fns.values() if f.rel.startswith('src/') and f.cls}
        p.c42fields = [(q, f['t'].c, norm(f['t'].n)) for q, r in p.records.items() if norm(q) in own or not q.startswith(('std::', '__gnu'))
                       for f in r.get('fields') or [] if f['t'].c in ('rec', 'ptr', 'ref', 'arr')]
    r, todo = set(recs), list(recs)
    while todo:
        n = norm(todo.pop())
        for q, c_, t in p.c42fields:
            if q not in r and (t == n and c_ == 'rec' if byvalue else n in t):
                r.add(q)
                todo.append(q)
    return r


def frees(tab, o, kind, ty):
    for f in tab.own:
        if norm(f.cls or '') != norm(o) or f.kind not in ('dtor', 'ctor'):
            continue
        for i in sorted(tab.reach(f.id)) if f.kind == 'dtor' else [f.id]:
            g = tab.p.fns.get(i)
            nodes = tab.rel.get(i, ())
            if f.kind == 'ctor':
                nodes = [y for x in walk([g.body, g.inits]) if isinstance(x, dict) and x.get('k') == 'lambda' for y in walk(x.get('body')) if isinstance(y, dict) and releases(y)]
            if any(k.lstrip('*') == kind and ptype(a) == ty for x in nodes for k, a in releases(x)):
                return f.kind
    return None


def copies(x, classes):
    if x.get('k') == 'ctor' and x.get('copy') and not x.get('move'):
        return norm(str(x.get('cls') or '')) in {norm(o) for o in classes}
    if x.get('k') == 'call' and x.get('n') == 'operator=':
        return norm(str(x.get('cls') or '')) in {norm(o) for o in classes}
    return False
