"""Type-level and effect analysis of errors. Every throw expression of the program must raise an object by value whose class derives
publicly from std::exception; what() of every such class must return a literal or the text of a string the object owns, and every
constructor must set that string. A whole-program fixpoint over throw expressions, handlers, virtual calls and callbacks computes
which errors can leave which functions: none may leave a thread's entry, a destructor or a function that promises not to throw.
Handlers must be reachable, must not slice, and on every path must raise again, answer (reach a transfer to the client or the job's
error callback) or end the session; a handler of session code that can receive a connection error must neither transfer anything
nor go on with the session."""
TECHNIQUE = 'exception-effect fixpoint over the call graph and handler typestate'
NOTE = 'Errors raised by libraries are outside; callbacks are resolved to all lambdas stored in a std::function of that type.'

from hz import prog, flow, exc
from hz.exc import recname
from hz.extract import AnalysisError, VERIF, sources
from hz.prog import walk

TRANSFER = {'send', 'recv', 'sendto', 'recvfrom', 'sendmsg', 'recvmsg', 'write', 'read'}


def plain(t):
    while t is not None and t.c == 'ref':
        t = t.p
    return t


class Handler(flow.Flow):
    """Paths of a handler: does each answer, raise or leave?"""

    def __init__(self, p, answers, f):
        super().__init__(p)
        self.answers, self.f = answers, f

    def called(self, st, e, args, obj):
        if self.answers(e):
            st.un = st.un - {('pending',)}
        return True

    def cond(self, e, st):
        t, f = super().cond(e, st)
        # nobody to tell: a callback that is not there
        names = [x for x in walk(e) if isinstance(x, dict) and x.get('t') is not None and plain(x['t']) is not None
                 and (recname(plain(x['t'])) or '').startswith('std::function')]
        if names:
            neg = any(isinstance(x, dict) and x.get('k') == 'call' and x.get('op') == '==' for x in walk(e))
            for s in (t if neg else f):
                s.un = s.un - {('pending',)}
        return t, f


def run(ctx):
    ctx.rule('catchable', 'every error is raised by value and is a standard exception', 20)
    ctx.rule('message', 'the message of an error is owned by the error and set by every constructor', 8)
    ctx.rule('slice', 'an error is handed on without losing its type', 3)
    ctx.rule('reachable', 'no handler is hidden by one before it', 3)
    ctx.rule('contained', 'no error leaves a thread, a destructor or a function that promises not to throw', 3)
    ctx.rule('answered', 'each handler raises, answers or ends the session on every path', 3)
    ctx.rule('connection', 'a connection error in a session is not answered and ends the session', 1)
    for config in ('cpu', 'ocl'):
        p = ctx.program(prog.load([(s, config) for s in sources()] + [(VERIF + '/drivers/headers.cpp', config)]))
        fns = [f for f in p.fns.values() if f.body is not None]
        X = exc.Excs(p, fns)
        own = [f for f in X.fns.values() if f.rel.startswith('src/')]
        ctx.analysed(*own)
        thrown = {}
        handlers = []
        for f in own:
            hv = {}
            for s in walk(f.body):
                if isinstance(s, dict) and s.get('k') == 'try':
                    for h in s['h']:
                        if 'id' in h:
                            hv[h['id']] = h
            inlam = set()
            for e in walk(f.body):
                if isinstance(e, dict) and e.get('k') == 'lambda':
                    for y in walk(e.get('body')):
                        inlam.add(id(y))
            for e in walk(f.body):
                if not isinstance(e, dict) or id(e) in inlam:
                    continue
                if e.get('k') == 'try':
                    handlers.append((f, e))
                if e.get('k') != 'throw':
                    continue
                if e.get('e') is None:
                    continue
                t = plain(e['e'].get('t')) or e.get('tt')
                n = recname(t)
                good = t.c == 'rec' and ('std::exception' in X.bases(n) or n.startswith('std::'))
                ctx.ob('catchable', '%s raises %s' % (f.id, n), good, f.rel, f.q, e['l'],
                       '%s raises %s, which no handler of std::exception catches' % (f.id, t.n))
                thrown.setdefault(n, (f, e))
                v = e['e']
                while v.get('k') in ('ctor', 'cast', 'upcast') and (v.get('args') or v.get('e')):
                    v = v.get('e') or v['args'][0]
                if v.get('k') == 'ref' and v.get('id') in hv:
                    ctx.ob('slice', '%s:%d' % (f.id, e['l']), False, f.rel, f.q, e['l'],
                           '%s raises a copy of the caught object as %s: the original type and message are lost' % (f.id, n))
        for n, (f, e) in sorted(thrown.items()):
            message(ctx, p, X, n, f, e)
        reach = reachable(p, X)
        for f, s in handlers:
            per = X.caught.get(id(s)) or [{} for _ in s['h']]
            seen = []
            for h, got in zip(s['h'], per):
                t = h.get('t')
                name = recname(t) if t is not None else '...'
                hid = [x for x in seen if x == '...' or (t is not None and x in X.bases(name)) or (t is None and False)]
                ctx.ob('reachable', '%s: handler of %s' % (f.id, name), not hid, f.rel, f.q, h['l'],
                       'the handler of %s never runs: the one of %s before it takes everything' % (name, hid[0] if hid else ''))
                seen.append(name)
                if t is not None and plain(t).c == 'rec':
                    ctx.ob('slice', '%s: handler of %s' % (f.id, name), t.c == 'ref' or not used(h), f.rel, f.q, h['l'],
                           'the handler takes %s by value: what() of the error that was raised is lost' % name)
                if not any(x in p.records for x in got):
                    continue
                H = Handler(p, lambda e: answers(p, X, reach, e), f)
                o = H.body(h['b'], [flow.S(frozenset([('pending',)]))])
                conn = [x for x in got if 'Connection' in x or x in X.transfer_errors]
                leaves = o.n + o.cont + (o.ret if len(conn) < len(got) else [])
                left = [st for st in leaves if ('pending',) in st.un and not later(f, s, h)]
                ctx.ob('answered', '%s: handler of %s' % (f.id, name), not left, f.rel, f.q, h['l'],
                       'the handler of %s in %s passes over %s: on some path it neither raises, answers nor ends the session' % (name, f.id, ', '.join(sorted(got))[:160]))
                if not conn or not f.rel.startswith('src/hzip_network/'):
                    continue
                talk = [e for e in walk(h['b']) if isinstance(e, dict) and e.get('k') in ('call', 'ctor') and reach(e, TRANSFER)]
                ctx.ob('connection', '%s: handler of %s' % (f.id, name), not talk, f.rel, f.q, talk[0]['l'] if talk else h['l'],
                       '%s answers %s on the connection that is broken' % (f.id, conn[0]), detail='answer')
                if inloop(f, s):
                    on = [st for st in o.n + o.cont if not stops(f, s, h)]
                    ctx.ob('connection', '%s: handler of %s ends' % (f.id, name), not on, f.rel, f.q, h['l'],
                           '%s goes on with the session after %s' % (f.id, conn[0]), detail='end')
        for f in own:
            esc = X.escapes[f.id]
            if f.kind == 'dtor' or f.d.get('nothrow') and not f.d.get('implicit'):
                if '~' in f.id or f.d.get('nothrow'):
                    contained(ctx, f, esc, 'is called while an error may be under way' if f.kind == 'dtor' else 'promises not to throw')
        for f in own:
            for e in walk(f.body):
                if isinstance(e, dict) and e.get('k') in ('ctor', 'call') and (e.get('q') or '') in ('std::thread', 'std::jthread', 'std::async', 'std::thread::thread'):
                    for a in e.get('args') or []:
                        for x in walk(a):
                            if isinstance(x, dict) and x.get('k') == 'lambda' and id(x) in X.lams:
                                l = X.lams[id(x)]
                                contained(ctx, l, X.escapes[l.id], 'is the entry of a thread')
                            elif isinstance(x, dict) and x.get('k') == 'ref' and x.get('d') == 'fn' and x.get('fn') in X.fns:
                                contained(ctx, X.fns[x['fn']], X.escapes[x['fn']], 'is the entry of a thread')
                            elif isinstance(x, dict) and x.get('k') == 'mem' and x.get('fn') in X.fns:
                                contained(ctx, X.fns[x['fn']], X.escapes[x['fn']], 'is the entry of a thread')


def contained(ctx, f, esc, why):
    site = next(iter(esc.values()), None)
    ctx.ob('contained', f.id, not esc, f.rel, f.q, f.line,
           '%s, which %s, lets %s out (raised by %s at %s:%d): the process ends' % (f.id, why, ', '.join(sorted(esc)), site.q if site else '', site.rel if site else '', site.line if site else 0))


def used(h):
    return any(isinstance(x, dict) and x.get('k') == 'ref' and x.get('id') == h.get('id') for x in walk(h['b']))


def assigned(h):
    """(variable or member, value) of each assignment in a handler to something declared outside it."""
    inner = {v['id'] for d in walk(h['b']) if isinstance(d, dict) and d.get('k') == 'decl' for v in d['vars'] if 'id' in v}
    for x in walk(h['b']):
        if isinstance(x, dict) and (x.get('k') == 'bin' and x.get('op') == '=' or x.get('k') == 'call' and x.get('op') == '='):
            a, b = (x['a'], x['b']) if x['k'] == 'bin' else (x.get('obj') or x['args'][0], x['args'][-1])
            if a.get('k') == 'ref' and a.get('id') not in inner or a.get('k') == 'mem':
                yield a, b


def later(f, s, h):
    """The handler keeps the message, or the fact that there was an error, for code after it that answers."""
    after = {}
    for x in walk(f.body):
        if isinstance(x, dict) and x.get('k') == 'block' and any(y is s for y in x['b']):
            i = next(n for n, y in enumerate(x['b']) if y is s)
            after = {y.get('id') or y.get('n') for z in x['b'][i + 1:] for y in walk(z) if isinstance(y, dict) and y.get('k') in ('ref', 'mem')}
    return any((a.get('id') or a.get('n')) in after for a, b in assigned(h)) or stops(f, s, h)


def stops(f, s, h):
    """The handler sets what the condition of the enclosing loop tests."""
    for x in walk(f.body):
        if isinstance(x, dict) and x.get('k') in ('for', 'while', 'do') and x.get('c') is not None and any(y is s for y in walk(x['b'])):
            tested = {y.get('id') or y.get('n') for y in walk(x['c']) if isinstance(y, dict) and y.get('k') in ('ref', 'mem')}
            if any((a.get('id') or a.get('n')) in tested for a, b in assigned(h)):
                return True
    return False


def inloop(f, s):
    for x in walk(f.body):
        if isinstance(x, dict) and x.get('k') in ('for', 'while', 'do', 'range'):
            if any(y is s for y in walk(x['b'])):
                return True
    return False


def reachable(p, X):
    """reach(call, names): does the call reach one of the named library functions on the same thread?"""
    memo = {}
    X.transfer_errors = set()
    for f in X.fns.values():
        if f.rel.startswith('src/hzip_network/') and any(isinstance(e, dict) and e.get('k') == 'call' and e.get('fn') and e['fn'].split('(')[0] in TRANSFER for e in walk(f.body)):
            for e in walk(f.body):
                if isinstance(e, dict) and e.get('k') == 'throw' and e.get('e') is not None:
                    X.transfer_errors.add(recname(plain(e['e']['t'])))

    def names(fid):
        if fid in memo:
            return memo[fid]
        memo[fid] = set()
        r = set()
        f = X.fns.get(fid)
        if f is not None:
            skip = set()
            for e in walk(f.body):
                if isinstance(e, dict) and e.get('k') == 'lambda':
                    for y in walk(e.get('body')):
                        skip.add(id(y))
            for e in walk(f.body):
                if isinstance(e, dict) and e.get('k') in ('call', 'ctor') and id(e) not in skip:
                    r |= of(e)
        memo[fid] = r
        return r

    def of(e):
        ts = X.targets(e)
        if ts:
            return set().union(*[names(t) for t in ts])
        return {(e.get('fn') or '').split('(')[0]} if e.get('fn') and '::' not in e['fn'].split('(')[0] else set()

    def reach(e, what):
        return bool(of(e) & what)
    return reach


def answers(p, X, reach, e):
    if (e.get('cq') or '').startswith('std::function') and e.get('op') == '()':
        return True
    return reach(e, {'send', 'close', 'shutdown', 'exit', 'abort', '_exit'})


def message(ctx, p, X, n, f, e):
    r = p.records.get(n)
    if r is None:
        return
    w = None
    for b in X.bases(n):
        for m in (p.records.get(b) or {}).get('methods') or []:
            if m['n'] == 'what' and w is None and p.fns.get(m['id']) is not None:
                w = p.fns[m['id']]
    if w is None:
        lib = [b for b in X.bases(n) if b.startswith('std::') and b != 'std::exception']
        ctx.ob('message', n, bool(lib), r['relfile'], n, r['l'] if 'l' in r else 0, '%s does not say what went wrong: it has no what()' % n)
        return
    cls = p.records.get(w.cls)
    ok_sig = any(o.startswith('std::exception::what') or '::what()' in o for o in w.d.get('over') or [])
    ctx.ob('message', n + ' overrides what()', ok_sig and w.d.get('acc') != 'x', w.rel, w.q, w.line, 'what() of %s does not override the one of std::exception' % n, detail='override')
    rets = [x for x in walk(w.body) if isinstance(x, dict) and x.get('k') == 'return']
    fields = {g['n']: g for g in cls['fields']}
    need = set()
    for x in rets:
        ok = text(x.get('e'), w, fields, need)
        ctx.ob('message', '%s line %d' % (w.q, x['l']), ok, w.rel, w.q, x['l'],
               'what() of %s returns text that the error does not own: it is gone, or missing, when a handler reads it' % n)
    for c in X.fns.values():
        if c.kind == 'ctor' and c.cls == w.cls and not c.d.get('implicit'):
            for m in sorted(need):
                ctx.ob('message', '%s sets %s' % (c.id, m), sets(p, c, m), c.rel, c.q, c.line,
                       '%s does not put a message into %s' % (c.id, m), detail=m)


def text(e, w, fields, need):
    while e is not None and e.get('k') in ('cast', 'upcast') and e.get('e') is not None:
        e = e['e']
    if e is None:
        return False
    k = e.get('k')
    if k == 'str':
        return True
    if k == 'cond':
        return text(e['a'], w, fields, need) and text(e['b'], w, fields, need)
    if k == 'call' and e.get('n') in ('c_str', 'data') and e.get('obj') is not None:
        o = e['obj']
        if o.get('k') == 'mem' and o['b'].get('k') == 'this' and o['n'] in fields:
            t = fields[o['n']]['t']
            if t.c == 'rec' and 'basic_string<' in t.n:
                if not fields[o['n']].get('init'):
                    need.add(o['n'])
                return True
        if o.get('k') == 'ref' and (o.get('static') or o.get('d') == 'global'):
            return True
        return False
    if k == 'call' and e.get('n') == 'what':
        return True
    if k == 'ref' and (o_global(e)):
        return True
    return False


def o_global(e):
    return e.get('d') == 'global' or e.get('static')


def sets(p, c, m):
    for i in c.inits:
        if i.get('deleg'):
            g = p.fns.get((i.get('e') or {}).get('fn'))
            return g is None or sets(p, g, m)
        if i.get('fld') == m and i.get('written'):
            return bool(nonself(i.get('e'), m))

    class W(flow.Flow):
        def called(self, st, e, args, obj):
            if obj == ('this', m) and e.get('op') in ('=', '+=') or obj == ('this', m) and e.get('n') in ('assign', 'append'):
                if nonself(args[0][0] if args else None, m):
                    st.un = st.un - {('this', m)}
            return True
    w = W(p)
    o = w.body(c.body, [flow.S(frozenset([('this', m)]))])
    return not any(st.un for st in o.n + o.ret)


def nonself(e, m):
    """Something other than the member itself and the empty string."""
    for x in walk(e):
        if isinstance(x, dict) and (x.get('k') == 'ref' or x.get('k') == 'str' and x.get('v') or x.get('k') == 'call' and x.get('op') not in ('=',) and x.get('fn')):
            return True
    return False
