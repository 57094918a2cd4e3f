"""Definite-assignment and definite-return analysis of every function, constructor and lambda of the program, in the configurations
with and without OpenCL. A disjunctive dataflow over the syntax tree keeps, per path, the scalars that have no value yet (local
variables and, member by member, local objects whose constructor leaves members unset) together with the truth of the conditions
tested so far, so that guards repeated on a path agree. Reading such a scalar, handing it on by value, or ending a function that
promises a result without returning or raising is a violation. Calls use summaries of the callee (members written and members read
first); constructors are summarised by the members they leave unset, and such a member may only be read by the class if some method
of it establishes the member first."""
TECHNIQUE = 'path-sensitive definite assignment and definite return by disjunctive dataflow with interprocedural summaries'
NOTE = 'Scalars, pointers and scalar members of objects; elements of arrays and heap buffers are outside (C28 requires codec buffers to be filled).'

from hz import prog, flow
from hz.extract import AnalysisError, VERIF, sources, ParseFailure
from hz.prog import walk, rel

SC = ('int', 'bool', 'enum', 'ptr', 'float')


class Summ:
    def __init__(self):
        self.writes, self.exposed, self.retun = frozenset(), {}, frozenset()


class Analysis:
    def __init__(self, p):
        self.p = p
        self.summ, self.busy = {}, set()
        self.unset_memo, self.ctor_memo = {}, {}
        self.noreturn = set()
        self.bad = {}
        self.reads = self.rets = 0

    def rec(self, name):
        r = self.p.records.get(name)
        return r if r and not r['relfile'].startswith('/') else None

    def leaves(self, r, depth=0):
        """Scalar members that a default-initialised object of an aggregate or implicitly constructed class leaves unset."""
        k = r['n']
        if k in self.unset_memo:
            return self.unset_memo[k]
        self.unset_memo[k] = frozenset()
        x = set()
        for f in r['fields']:
            if f.get('init') or f.get('static'):
                continue
            t = f['t']
            if t.c in SC:
                x.add((f['n'],))
            elif t.c == 'rec' and depth < 4:
                q = self.rec(t.rec or t.n)
                if q:
                    for l in self.default_unset(q):
                        x.add((f['n'],) + l)
        if r.get('union'):
            x = set()
        self.unset_memo[k] = frozenset(x)
        return self.unset_memo[k]

    def default_unset(self, r):
        cs = [f for f in self.p.fns.values() if f.kind == 'ctor' and f.cls == r['n'] and not f.d.get('implicit') and not f.params]
        if cs:
            return self.ctor_unset(cs[0])
        return self.leaves(r)

    def ctor_unset(self, f):
        """Members a constructor leaves unset."""
        if f.id in self.ctor_memo:
            return self.ctor_memo[f.id]
        self.ctor_memo[f.id] = frozenset()
        r = self.rec(f.cls)
        if not r:
            return frozenset()
        un = set(self.leaves(r))
        for i in f.inits:
            if i.get('deleg'):
                g = self.p.fns.get((i.get('e') or {}).get('fn'))
                un = set(self.ctor_unset(g)) if g else set()
            elif i.get('fld') and (i.get('written') or i.get('e')):
                e = i.get('e') or {}
                if e.get('k') == 'ctor':
                    left = self.made(e)
                    un = {x for x in un if x[0] != i['fld']} | {(i['fld'],) + x for x in left}
                else:
                    un = {x for x in un if x[0] != i['fld']}
        w = Walk(self, f, 'ctor', un)
        o = w.run()
        end = o.n + o.ret
        left = frozenset(x[1:] for st in end for x in st.un if x[0] == 'this')
        self.ctor_memo[f.id] = left
        return left

    def made(self, e):
        """Members unset after a construction expression."""
        if e.get('zero'):
            return frozenset()
        g = self.p.fns.get(e.get('fn'))
        r = self.rec(e.get('cls') or '')
        if not r or e.get('copy') or (e.get('implicit') and e.get('args')):
            return frozenset()
        if g is not None and not g.d.get('implicit'):
            return self.ctor_unset(g)
        if not e.get('args'):
            return self.leaves(r)
        return frozenset()

    def summary(self, fid):
        if fid in self.summ:
            return self.summ[fid]
        f = self.p.fns.get(fid)
        if f is None or f.body is None or fid in self.busy:
            return None
        self.busy.add(fid)
        un = set()
        r = self.rec(f.cls) if f.cls and f.kind != 'ctor' else None
        if r:
            un |= {('this',) + x for x in self.leaves(r)}
        for q in f.params:
            t = q['t'].strip()
            if q['t'].c == 'ref' and t.c == 'rec' and self.rec(t.rec or t.n):
                un |= {(q['id'],) + x for x in self.leaves(self.rec(t.rec or t.n))}
            elif q['t'].c == 'ref' and t.c in SC and not t.const:
                un.add((q['id'],))
            elif q['t'].c in ('ptr', 'arr'):
                un.add((q['id'], '[]'))
        w = Walk(self, f, 'summary', un)
        o = w.run()
        s = Summ()
        end = o.n + o.ret
        name = {q['id']: i for i, q in enumerate(f.params)}
        conv = lambda x: (name.get(x[0], x[0]),) + x[1:]
        s.writes = frozenset(conv(x) for x in un if all(x not in st.un for st in end))
        s.exposed = {conv(x): l for x, l in w.exposed.items()}
        s.retun = frozenset(w.retun)
        self.busy.discard(fid)
        self.summ[fid] = s
        return s


class Walk(flow.Flow):
    def __init__(self, an, f, mode, un):
        super().__init__(an.p, an.noreturn)
        self.an, self.f, self.mode = an, f, mode
        self.start = frozenset(('this',) + x for x in un) if mode == 'ctor' else frozenset(un)
        self.exposed, self.retun = {}, set()
        self.bad = {}
        self.names = {}
        self.stored = set()

    def loop(self, s, sts, o):
        keep, self.stored = self.stored, set()
        o = super().loop(s, sts, o)
        if self.stored:
            # a loop that fills a buffer is taken to fill what is read from it later
            for st in o.n:
                st.un = st.un - self.stored
            o.n = flow.dedupe(o.n)
        self.stored |= keep
        return o

    def run(self):
        sts = [flow.S(self.start)]
        if self.mode == 'ctor':
            for i in self.f.inits:
                self._thr = []
                if i.get('e') and i['e'].get('k') != 'ctor':
                    sts = self.expr(i['e'], sts)
                elif i.get('e'):
                    for a in i['e'].get('args') or []:
                        sts = self.expr(a, sts, rd=True)
        return self.body(self.f.body, sts)

    def under(self, st, pl):
        return [x for x in st.un if x[:len(pl)] == pl]

    def hit(self, st, x, e, how='read'):
        self.an.reads += 1
        if self.mode == 'summary' and x in self.start:
            self.exposed.setdefault(x, (e.get('l'), self.f.id))
            return
        self.bad.setdefault(x, (e.get('l'), how))

    def read(self, st, pl, e):
        if pl in st.un and not (len(pl) > 1 and pl[-1] == '[]' and e.get('k') != 'idx'):
            self.hit(st, pl, e)
            st.un = st.un - {pl}

    def wrote(self, st, pl, e, value):
        # a member or whole object
        gone = self.under(st, pl)
        if gone:
            st.un = st.un - frozenset(gone)
        if '[]' in pl:
            self.stored.add(pl)
        if value is not None and value.get('t') is not None and value['t'].c == 'rec':
            self.copied(st, pl, value)
        elif value is not None and len(pl) == 1 and raw_memory(value):
            st.un = st.un | {pl + ('[]',)}

    def copied(self, st, pl, value):
        src = self.place(value)
        if src is not None:
            st.un = st.un | {pl + x[len(src):] for x in self.under(st, src)}
        elif value.get('k') == 'ctor':
            if value.get('copy') and value.get('args'):
                self.copied(st, pl, value['args'][0])
            else:
                st.un = st.un | {pl + x for x in self.an.made(value)}
        elif value.get('k') == 'init' and value.get('rec') is not None:
            self.initlist(st, pl, value)
        elif value.get('k') == 'call' and value.get('fn') in self.p.fns and not value.get('virt'):
            s = self.an.summary(value['fn'])
            if s:
                st.un = st.un | {pl + x for x in s.retun}

    def initlist(self, st, pl, e):
        for n, v in zip(e.get('fields') or [], e.get('elems') or []):
            if isinstance(v, dict) and v.get('t') is not None and v['t'].c == 'rec':
                self.copied(st, pl + (n if isinstance(n, str) else n.get('n'),), v)

    def escaped(self, st, pl, e):
        gone = self.under(st, pl)
        if gone:
            st.un = st.un - frozenset(gone)

    def leave(self, st, ids):
        x = frozenset(u for u in st.un if u[0] in ids)
        if x:
            st.un = st.un - x

    def declared(self, st, v):
        t = v.get('t')
        pl = (v['id'],)
        self.names[v['id']] = v['n']
        gone = self.under(st, pl)
        if gone:
            st.un = st.un - frozenset(gone)
        if t is None or v.get('static') or v.get('binds'):
            return
        e = v.get('init')
        if t.c in SC and e is None:
            st.un = st.un | {pl}
        elif t.c == 'arr' and e is None and scalar_array(t):
            st.un = st.un | {pl + ('[]',)}
        elif t.c == 'ptr' and e is not None and raw_memory(e):
            st.un = st.un | {pl + ('[]',)}
        elif t.c == 'rec' and self.an.rec(t.rec or t.n):
            if e is None:
                st.un = st.un | {pl + x for x in self.an.leaves(self.an.rec(t.rec or t.n))}
            else:
                self.copied(st, pl, e)

    def called(self, st, e, args, opl):
        fid = e.get('fn')
        s = self.an.summary(fid) if fid in self.p.fns and not e.get('virt') and self.p.fns[fid].body is not None and not self.p.fns[fid].d.get('implicit') else None
        if e.get('k') == 'call' and e.get('op') == '=' and opl is not None and args and args[0][0].get('t') is not None and (s is None):
            self.wrote(st, opl, e, args[0][0])
            if self.place(args[0][0]) is None and args[0][0].get('t').c != 'rec':
                pass
            return True
        if opl is not None:
            un = self.under(st, opl)
            if un and s is not None:
                for x in un:
                    k = ('this',) + x[len(opl):]
                    if k in s.exposed:
                        self.hit(st, x, e, 'read by %s at line %d' % (s.exposed[k][1], s.exposed[k][0]))
                    if k in s.writes or k in s.exposed:
                        st.un = st.un - {x}
            elif un and e.get('fn') not in self.p.fns:
                st.un = st.un - frozenset(un)
        for i, (a, m, pl) in enumerate(args):
            if pl is None:
                if m in ('ref', 'move'):
                    for y in walk(a):
                        q = self.place(y) if isinstance(y, dict) and y.get('k') in ('ref', 'mem') else None
                        if q is not None and m == 'ref':
                            self.escaped(st, q, e)
                continue
            un = self.under(st, pl)
            if not un:
                continue
            if s is not None:
                for x in un:
                    k = (i,) + x[len(pl):]
                    if m == 'val' and '[]' not in k:
                        continue
                    if k in s.exposed:
                        self.hit(st, x, e, 'read by %s at line %d' % (s.exposed[k][1], s.exposed[k][0]))
                    if k in s.writes or k in s.exposed:
                        st.un = st.un - {x}
            elif m == 'val' and any('[]' in x for x in un):
                if (e.get('fn') or '').startswith(('free(', 'rfree')) or e.get('n') in ('rfree', 'free'):
                    continue
                sig = flow.signature(fid)
                if sig and i < len(sig) and sig[i].strip().startswith('const '):
                    self.hit(st, un[0], e, 'read by %s' % e.get('n'))
                st.un = st.un - frozenset(un)
                self.stored |= set(un)
            elif m in ('ref', 'move') or (e.get('k') == 'ctor' and e.get('copy')):
                if m == 'ref':
                    st.un = st.un - frozenset(un)
            elif m in ('cref', 'val') and e.get('k') == 'call' and (e.get('cq') or '').startswith('std::'):
                for x in un:
                    self.hit(st, x, e, 'stored')
                st.un = st.un - frozenset(un)
        return True

    def returned(self, st, e, node):
        if e is None or e.get('t') is None or e['t'].c != 'rec':
            return
        src = self.place(e)
        while src is None and e.get('k') == 'ctor' and e.get('copy') and e.get('args'):
            e = e['args'][0]
            src = self.place(e)
        if src is not None and src[0] != 'this':
            self.retun |= {x[len(src):] for x in self.under(st, src)}
        elif e.get('k') == 'ctor':
            self.retun |= self.an.made(e)


def scalar_array(t):
    while t is not None and t.c == 'arr':
        t = t.p
    return t is not None and t.c in SC


def raw_memory(e):
    while e is not None and e.get('k') in ('cast', 'upcast'):
        e = e['e']
    if e is None:
        return False
    if e.get('k') == 'new' and e.get('arr') and not e.get('init'):
        return True
    return e.get('k') == 'call' and e.get('n') in ('malloc', 'rmalloc', 'aligned_alloc')


def title(f, w, x):
    if x[0] == 'this':
        return '.'.join(('this',) + x[1:])
    n = w.names.get(x[0])
    if n is None:
        n = next((q['n'] for q in f.params if q['id'] == x[0]), '?')
    return '.'.join((n,) + x[1:])


class Lam:
    """A lambda's body as a function."""

    def __init__(self, f, e):
        self.id = '%s: lambda at line %d' % (f.id, e['l'])
        self.q, self.rel, self.line, self.params, self.body, self.rt, self.kind, self.cls, self.inits, self.d = \
            f.q, f.rel, e['l'], e['params'], e['body'], e['rt'], 'fn', f.cls, [], {}


def lambdas(f):
    for x in walk(f.body):
        if isinstance(x, dict) and x.get('k') == 'lambda' and x.get('body'):
            yield Lam(f, x)


def program(ctx, config):
    p = prog.load([(s, config) for s in sources()] + [(VERIF + '/drivers/headers.cpp', config)])
    return ctx.program(p)


def run(ctx):
    ctx.rule('returns', 'every function that promises a result returns one or raises on every path', 40)
    ctx.rule('set', 'no local scalar and no member of a local object is read before it has a value', 100)
    ctx.rule('member', 'a member that the constructors of a class leave unset is established by a method before it is read', 5)
    ctx.assume('a switch over an enumeration sees only enumerators', 'library functions give a value to what they are handed by mutable reference')
    for config in ('cpu', 'ocl'):
        p = program(ctx, config)
        an = Analysis(p)
        fns = [f for f in p.fns.values() if f.rel.startswith('src/') and f.body is not None and not f.d.get('implicit')]
        # functions that never return: least fixpoint over direct ends
        ends = {}
        for _ in range(4):
            before = len(an.noreturn)
            for f in fns:
                if f.id in an.noreturn:
                    continue
                w = Walk(an, f, 'probe', ())
                w.called = lambda *a: True
                w.declared = lambda *a: None
                o = w.run()
                ends[f.id] = (o, w)
                if not o.n and not o.ret and o.thr and not w.unsupported and not f.d.get('virt'):
                    an.noreturn.add(f.id)
            if len(an.noreturn) == before:
                break
        allf = list(fns)
        for f in fns:
            allf += list(lambdas(f))
        for f in allf:
            ctx.analysed(f)
            w = Walk(an, f, 'ctor' if f.kind == 'ctor' else 'check', () if f.kind != 'ctor' else ctor_start(an, f))
            o = w.run()
            isvoid = f.rt is None or f.rt.c == 'void' or f.kind in ('ctor', 'dtor') or f.q == 'main'
            if not isvoid:
                ctx.ob('returns', f.id, not o.n or w.unsupported, f.rel, f.q, f.line,
                       '%s promises a value of type %s but a path reaches its end without returning one' % (f.id, f.rt.n))
            n = sum(1 for x in walk(f.body) if isinstance(x, dict) and x.get('k') == 'decl')
            if not w.bad and (n or f.kind == 'ctor'):
                ctx.ob('set', f.id)
            for x, (l, how) in w.bad.items():
                ctx.ob('set', f.id, False, f.rel, f.q, l or f.line, '%s is %s before it has a value (in %s)' % (title(f, w, x), how, f.id), detail=title(f, w, x))
        outside = external_reads(fns)
        for r in p.records.values():
            if r['relfile'].startswith('/') or not r['relfile'].startswith('src/'):
                continue
            ctors = [f for f in fns if f.kind == 'ctor' and f.cls == r['n']]
            if not ctors:
                continue
            left = frozenset().union(*[an.ctor_unset(c) for c in ctors])
            ctx.ob('member', r['n'] + ' constructors')
            if not left:
                continue
            ms = [f for f in fns if f.cls == r['n'] and f.kind not in ('ctor',) and not f.d.get('smeth')]
            ss = {f.id: an.summary(f.id) for f in ms}
            for x in sorted(left):
                k = ('this',) + x
                rd = [(f, s.exposed[k]) for f, s in ((f, ss[f.id]) for f in ms) if s and k in s.exposed]
                rd += outside.get((r['n'], x[0]), []) if len(x) == 1 else []
                wr = [f for f in ms if ss[f.id] and k in ss[f.id].writes and k not in ss[f.id].exposed]
                ok = not rd or bool(wr)
                f0 = rd[0][0] if rd else None
                ctx.ob('member', '%s.%s' % (r['n'], '.'.join(x)), ok, r['relfile'], r['n'], r.get('l') or 0,
                       'no constructor or method of %s gives %s a value, but %s reads it at line %s' % (r['n'], '.'.join(x), f0.id if f0 else '', rd[0][1][0] if rd else ''), detail='.'.join(x))


def ctor_start(an, f):
    r = an.rec(f.cls)
    if not r:
        return ()
    un = set(an.leaves(r))
    for i in f.inits:
        if i.get('deleg'):
            g = an.p.fns.get((i.get('e') or {}).get('fn'))
            return an.ctor_unset(g) if g else ()
        if i.get('fld'):
            e = i.get('e') or {}
            un = {x for x in un if x[0] != i['fld']}
            if e.get('k') == 'ctor':
                un |= {(i['fld'],) + x for x in an.made(e)}
    return un


def external_reads(fns):
    """(class, member) → functions that are not methods of the class and read the member through an object or pointer."""
    r = {}
    for f in fns:
        lhs = set()
        for e in walk(f.body):
            if isinstance(e, dict) and e.get('k') == 'bin' and e.get('op') == '=':
                lhs.add(id(e['a']))
        for e in walk(f.body):
            if isinstance(e, dict) and e.get('k') == 'mem' and id(e) not in lhs and 'fn' not in e:
                t = (e.get('b') or {}).get('t')
                t = t.p if t is not None and t.c in ('ptr', 'ref') else t
                if t is not None and t.c == 'rec' and (t.rec or t.n) != f.cls:
                    r.setdefault((t.rec or t.n, e['n']), []).append((f, (e['l'], f.id)))
    return r
