"""Lock-order analysis. Every ordered pair of locks (outer held while inner is acquired) is collected from the abstract
paths of the lock-owning classes, with callees analysed in context, and, for the codecs, from the nesting of scope
guards and the locks their callees acquire. The graph of these pairs must be acyclic and no lock may be acquired while
it is already held."""
TECHNIQUE = 'lock-order graph over the call graph, held-lock sets from abstract interpretation'
NOTE = 'A cycle-free global order rules out lock-order deadlocks for all schedules; waits on conditions and remote peers are outside the rule.'

from hz import locks, archive, prog
from hz.lib import LOCKS, MUTEX
from hz.prog import walk
from hz.terms import show

HANDOUT = {'hzruntime::CacheProvider::get_cache': 'hzruntime::CacheProvider (element)', 'hzopencl::KernelProvider::get': 'hzopencl::DeviceProvider (element)',
           'hzopencl::ProgramProvider::get': 'hzopencl::DeviceProvider (element)'}


class C(locks.LockClient):
    pass


def canon(n):
    if '_mutexes' in n and 'DeviceProvider' in n:
        return 'hzopencl::DeviceProvider (element)'
    if '_rainman_cache_mutexes' in n:
        return 'hzruntime::CacheProvider (element)'
    if 'archive_mutex' in n:
        return 'HZ_Archive::archive_mutex'
    if n.startswith('ref_get') or n.startswith('get'):
        return n
    return n


def lexical(p, fns):
    """fn id -> (own acquisitions and acquisitions under guards), by syntax."""
    acq = {}

    def lockname(f, arg, env):
        while arg.get('k') == 'cast':
            arg = arg['e']
        if arg['k'] == 'ref':
            if arg.get('id') in env:
                return env[arg['id']]
            return arg.get('q') or '%s:%s' % (f.q, arg['n'])
        if arg['k'] == 'mem':
            return arg['q']
        return '%s:%d' % (f.q, arg.get('l', 0))

    def envof(f):
        env = {}
        for n in walk(f.body):
            if n['k'] == 'decl':
                for v in n['vars']:
                    init = v.get('init')
                    if init is None:
                        continue
                    for x in walk(init):
                        if x['k'] == 'call' and x.get('q') in HANDOUT:
                            env[v.get('id')] = HANDOUT[x['q']]
                            for b in v.get('binds', []):
                                env[b['id']] = HANDOUT[x['q']]
                        if x['k'] == 'call' and 'mutex' in x['t'].n and 'pair' in x['t'].n and x.get('q') not in HANDOUT:
                            for b in v.get('binds', []):
                                env.setdefault(b['id'], 'hzruntime::CacheProvider (element)')
        return env

    def own(f):
        env = envof(f)
        r = set()
        for n in walk(f.body):
            if n['k'] == 'ctor' and n.get('q') in LOCKS and n.get('args'):
                r.add(lockname(f, n['args'][0], env))
            if n['k'] == 'call' and n.get('cq') in MUTEX and n['n'] == 'lock':
                r.add(lockname(f, n['obj'], env))
        return r
    for f in p.fns.values():
        acq[f.id] = own(f)
    ch = True
    callees = {f.id: {n.get('fn') for n in walk(f.body) if n['k'] in ('call', 'ctor') and n.get('fn')} for f in p.fns.values()}
    for f in list(callees):
        for g in list(callees[f]):
            for o in p.overriders(g) if g in p.fns and p.fns[g].d.get('virt') else []:
                callees[f].add(o.id)
    while ch:
        ch = False
        for f, cs in callees.items():
            for g in cs:
                if g in acq and not acq[g] <= acq[f]:
                    acq[f] |= acq[g]
                    ch = True
    edges = []

    def scan(f, stmts, held, env):
        held = list(held)
        for st in stmts:
            if st is None:
                continue
            if st['k'] == 'decl':
                for v in st['vars']:
                    if v['t'].q in LOCKS and v.get('init') is not None and v['init'].get('args'):
                        m = lockname(f, v['init']['args'][0], env)
                        for h in held:
                            edges.append((h, m, f, st['l'], 'guard'))
                        held.append(m)
                        continue
                    visit(f, v.get('init'), held, env)
            elif st['k'] == 'block':
                scan(f, st['b'], held, env)
            else:
                visit(f, st, held, env)

    def visit(f, n, held, env):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                visit(f, x, held, env)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') == 'block':
            scan(f, n['b'], held, env)
            return
        if n.get('k') in ('call', 'ctor') and held:
            for m in acq.get(n.get('fn'), ()):
                for h in held:
                    edges.append((h, m, f, n['l'], n.get('q')))
        for k, v in n.items():
            if k != 'tu' and isinstance(v, (dict, list)):
                visit(f, v, held, env)
    for f in fns:
        scan(f, [f.body], [], envof(f))
    return edges, sum(len(acq[f.id]) for f in fns)


def run(ctx):
    ctx.rule('acquire', 'acquisitions examined: none may take a lock that is already held', 20)
    ctx.rule('order', 'pairs of nested locks: together they must not form a cycle', 3)
    ctx.assume('locks of different objects of one class are ordered like one lock', 'the provider of a lock hands out elements that are not nested in each other')
    edges = {}
    done = set()
    for p in locks.programs(ctx):
        es, own = locks.entries(p, exclude=('src/hzip_network/api/handlers/',))
        lex = [f for f in es if f.rel.startswith('src/hzip_codec/') and f.id not in done]
        for f in es:
            if f in lex or f.id in done:
                continue
            done.add(f.id)
            ctx.analysed(f)
            c = C()
            c.inline_class = None
            c.entry = f.q
            I = locks.engine.Interp(p, c)
            outs = I.run(f, this=archive.THIS if f.cq == 'HZ_Archive' else None)
            for kind, s, v in outs:
                evs = s.events()
                for ev, _ in archive.flat(evs):
                    if ev.k == 'lock':
                        ctx.ob('acquire', '%s acquires %s' % (f.q, canon(locks.name_of(ev.m))))
                for ev, what in locks.balance(evs)[0]:
                    if 'already' in what:
                        ctx.ob('acquire', ok=False, file=ev.file, func=ev.fn, line=ev.line, msg='%s %s' % (f.q, what), path=archive.pathdesc(evs))
            for (a, b), (same, where) in c.order.items():
                a, b = canon(a), canon(b)
                if same:
                    ctx.ob('acquire', ok=False, file=f.rel, func=f.q, line=f.line, msg='%s is acquired at %s while it is held' % (a, where), detail=a)
                else:
                    edges.setdefault((a, b), where)
        e2, n = lexical(p, lex)
        for f in lex:
            done.add(f.id)
            ctx.analysed(f)
        ctx.obligations['acquire'] = ctx.obligations.get('acquire', 0) + n
        ctx.discharged += n
        for a, b, f, l, how in e2:
            a, b = canon(a), canon(b)
            if a == b:
                ctx.ob('acquire', ok=False, file=f.rel, func=f.q, line=l, msg='%s is acquired (through %s) inside a scope that holds it' % (a, how), detail=a)
            else:
                edges.setdefault((a, b), '%s:%d (%s)' % (f.rel, l, f.q))
    for (a, b), w in sorted(edges.items()):
        # is a reachable from b?
        seen, todo, par = {b}, [b], {}
        while todo:
            x = todo.pop()
            for (u, v) in edges:
                if u == x and v not in seen:
                    seen.add(v)
                    par[v] = (x, edges[(u, v)])
                    todo.append(v)
        path = ['%s held while %s is acquired at %s' % (a, b, w)]
        x = a
        while x in par:
            path.append('%s held while %s is acquired at %s' % (par[x][0], x, par[x][1]))
            x = par[x][0]
        file = w.split(':')[0]
        fn = w.split('(')[-1].rstrip(')')
        ctx.ob('order', '%s -> %s at %s' % (a, b, w), ok=a not in seen, file=file, func=fn, line=int(w.split(':')[1].split(' ')[0]),
               msg='%s and %s are nested in both orders' % (a, b), path=path, detail='%s-%s' % (a, b))
