"""The start of the program is evaluated up to the call that starts the server. Every function installed for a signal is then evaluated
on all of its paths, together with the functions of the program it calls: it has to close the archives and the listening socket and then
end the process. The functions installed for faults are followed through the call graph for locks the failing thread may hold."""
TECHNIQUE = 'path exploration of the installed signal handlers from the state in which they are installed'
NOTE = 'A signal sent to the process is delivered to the main thread, which holds no lock while it accepts connections; closing the archives itself is C24.'

from hz import prog, engine
from hz.engine import isloc
from hz.extract import AnalysisError
from hz.lib import LOCKS
from hz.prog import walk, rel
from hz.terms import *

UNITS = ['src/main.cpp', 'src/hzip_network/api/api.cpp', 'src/hzip_network/api/providers/archive_provider.cpp',
         'src/hzip_storage/archive/archive.cpp', 'src/hzip_network/api/handlers/socket_class.cpp']
SIG = {2: 'SIGINT', 15: 'SIGTERM', 6: 'SIGABRT', 11: 'SIGSEGV', 8: 'SIGFPE'}
FAULTS = (6, 8, 11)
PIPE = 13
ENDS = ('exit', '_exit', 'quick_exit', 'std::exit', 'std::_Exit', '_Exit', 'std::quick_exit', 'abort', 'std::abort')
g = lambda n: mk('glob', '#' + n)


class Handlers(engine.Client):
    max_paths = 20000
    unroll = 32

    def __init__(self):
        self.handlers = []         # (signal, value, state, place)
        self.started = []
        self.fns = set()
        self.inside = None
        self.bad = []

    def want_inline(self, fn, st):
        if fn.n in ('start', 'configure') or not fn.rel.startswith(('src/main.cpp', 'src/hzip_network/api/api.')):
            return False
        self.fns.add(fn)
        return True

    def opaque(self, I, e, name, st, obj, args, fr, out):
        return ()

    def call(self, I, e, name, st, obj, args, fr, out):
        at = (rel(fr.file), fr.name, e['l'])
        val = lambda a: I.load(st, a) if isloc(a) else a
        n = name[5:] if name.startswith('std::') else name
        if '::operator void (*)' in name or name.startswith('operator void (*)'):
            return [(st, val(obj))]
        if n == '(indirect)':
            f = val(obj) if obj is not None else None
            if f is not None and f.op in ('clo', 'fnref', 'ptr'):
                return None
            if self.inside is not None:
                self.bad.append((at, 'a function is called that is set only later'))
            return [(st, ZERO)]
        if n == 'signal' and len(args) == 2:
            return self.install(I, e, st, val(args[0]), val(args[1]), fr, out, at)
        if n == 'sigaction' and len(args) == 3:
            a = args[1].a[0] if args[1].op == 'ptr' else args[1]
            h = None
            for l, v in st.mem.items():
                x = l
                while x.op == 'fld' and x is not a:
                    x = x.a[0]
                if x is a and (v.op in ('clo', 'fnref') or l.op == 'fld' and l.a[1] in ('sa_handler', 'sa_sigaction')):
                    h = v
            if h is None:
                raise AnalysisError('%s:%s: the handler given to sigaction is not known' % (at[0], at[2]))
            return self.install(I, e, st, val(args[0]), h, fr, out, at)
        if e.get('q') in ('hzapi::Api::start', 'hzapi::ApiInstance::start'):
            if self.inside is None:
                self.started.append((st.copy(), at))
            return []
        if n in ENDS:
            if self.inside is not None:
                self.inside.append((st.copy(), n, at))
                return []
        if n == 'ArchiveProvider::close' or name == 'hzapi::ArchiveProvider::close':
            st.mem[g('archives')] = ONE
            return [(st, ZERO)]
        if n in ('shutdown', 'close') and args and (e.get('q') or n) in ('shutdown', 'close'):
            v = val(args[0])
            if v is self.sock or args[0] is self.sock:
                st.mem[g('socket')] = ONE
            return [(st, ZERO), (st.copy(), c(-1))]
        if n in ('raise', 'kill', 'pthread_kill', 'longjmp', 'siglongjmp') and self.inside is not None:
            raise AnalysisError('%s:%s: a handler uses %s' % (at[0], at[2], n))
        return None

    def install(self, I, e, st, sig, h, fr, out, at):
        if sig.op != 'c':
            raise AnalysisError('%s:%s: the signal is not a constant' % (at[0], at[2]))
        st.mem[mk('glob', '#sig:%d' % sig.a[0])] = h
        self.handlers.append((sig.a[0], h, st.copy(), at, fr, e))
        return [(st, ZERO)]


def ignored(h):
    while h.op in ('cast', 'ptr'):
        h = h.a[-1]
    return h is ONE or (h.op == 'c' and h.a[0] == 1)


def default(h):
    return h is NULL or h is ZERO


def listening(p):
    """The field of the server that holds the listening socket: what start() listens on or accepts from."""
    r = set()
    for f in p.fns.values():
        if f.cq == 'hzapi::Api' and f.body:
            for x in walk(f.body):
                if x['k'] == 'call' and (x.get('q') or x.get('n')) in ('listen', 'accept', 'accept4', 'bind') and x.get('args'):
                    for y in walk(x['args'][0]):
                        if y['k'] == 'mem':
                            r.add(y['n'])
    if not r:
        rec = p.rec('hzapi::Api')
        r = {x['n'] for x in (rec or {'fields': ()})['fields'] if x['t'].c == 'int' and x['t'].w == 32}
    return r


def takes_locks(p, roots):
    """Locks taken by anything the functions call: (file, function, line)."""
    seen, todo, r = set(), list(roots), []
    while todo:
        f = todo.pop()
        if f is None or f.id in seen:
            continue
        seen.add(f.id)
        for b in [f.body] + [x for x in (f.inits or [])]:
            for x in walk(b):
                if x['k'] == 'ctor' and (x.get('q') or '') in LOCKS or x['k'] == 'mcall' and (x.get('n') == 'lock') or x['k'] == 'call' and (x.get('n') in ('pthread_mutex_lock',)):
                    r.append((f.rel, f.q, x['l']))
                if x.get('fn') in p.fns:
                    todo.append(p.fns[x['fn']])
    return r


def run(ctx):
    ctx.rule('installed', 'handlers are installed for the termination signals before the server starts', 5)
    ctx.rule('ready', 'what a handler uses exists when the handler is installed', 5)
    ctx.rule('closes', 'a handler that ends the process closes the archives and the listening socket first', 5)
    ctx.rule('exits', 'the handler of a termination signal ends the process on every path', 5)
    ctx.rule('pipe', 'writing to a connection the peer has closed does not end the process')
    ctx.rule('locks', 'a handler that runs on the failing thread takes no lock that thread may hold')
    p = ctx.program(prog.load([(x, 'ocl') for x in UNITS]))
    f = p.one('main')
    C = Handlers()
    fields = listening(p)
    if not fields:
        raise AnalysisError('the listening socket was not found')
    C.sock = mk('sym', 'listening socket', 0)
    I = engine.Interp(p, C)
    list(I.run(f))
    if not C.started:
        raise AnalysisError('the server is started on no path')
    ctx.analysed(*C.fns)
    for st, at in C.started:
        for num, name in SIG.items():
            h = st.mem.get(mk('glob', '#sig:%d' % num))
            ctx.ob('installed', name, h is not None and not default(h) and not ignored(h), 'src/main.cpp', 'main', at[2],
                   '%s is %s when the server starts' % (name, 'ignored' if h is not None and ignored(h) else 'not handled'), None, name)
        h = st.mem.get(mk('glob', '#sig:%d' % PIPE))
        pipe = h is not None and not default(h)
        if not pipe:
            sends = [(fn, x) for fn in p.fns.values() for x in walk(fn.body) if x['k'] == 'call' and (x.get('q') or x.get('n')) in ('send', 'write', 'sendto', 'sendmsg') and fn.rel.startswith('src/hzip_network')]
            pipe = bool(sends) and all(len(x.get('args', ())) > 3 and isinstance(x['args'][3].get('cv'), int) and x['args'][3]['cv'] & 0x4000 for fn, x in sends)
        ctx.ob('pipe', 'SIGPIPE when the server starts', pipe, 'src/main.cpp', 'main', at[2], 'SIGPIPE ends the process', None, 'default')
    done = {}
    for num, h, st, at, fr, e in C.handlers:
        name = SIG.get(num, 'SIGPIPE' if num == PIPE else 'signal %d' % num)
        if ignored(h) or default(h):
            continue
        s = st.copy()
        for l, v in list(s.mem.items()):
            if l.op == 'fld' and l.a[1] in fields:
                s.mem[l] = C.sock
        C.inside, C.bad, before = [], [], set(C.fns)
        out = []
        ends = list(I.call_value(h, e, s, [c(num)], fr, out))
        C.fns = C.fns | before
        ctx.analysed(*C.fns)
        file, func, line = at
        stack = [func, 'handler of %s' % name]
        for (bf, bfn, bl), msg in C.bad:
            ctx.ob('ready', name, False, bf, bfn, bl, 'the handler of %s is installed although %s' % (name, msg), stack, name)
        if not C.bad:
            ctx.ob('ready', name, True)
        if num == PIPE:
            ctx.ob('pipe', 'handler of SIGPIPE', not C.inside and bool(ends), file, func, line, 'the handler of SIGPIPE ends the process', stack, 'ends')
            continue
        if num in SIG:
            ctx.ob('exits', name, not ends and bool(C.inside), file, func, line, 'the handler of %s returns' % name, stack, name)
        for es, how, (ef, efn, el) in C.inside:
            ctx.ob('closes', 'archives (%s)' % name, es.mem.get(g('archives')) is ONE, ef, efn, el, 'the process ends on %s without closing the archives' % name, stack, 'archives')
            ok = es.mem.get(g('socket')) is ONE or es.facts.decide(mk('ge0', C.sock)) is False
            if not ok:
                d = es.facts.decide(lt(C.sock, ONE))
                ok = d is True
            ctx.ob('closes', 'listening socket (%s)' % name, ok, ef, efn, el, 'the process ends on %s without closing the listening socket' % name, stack, 'socket')
        if num in FAULTS:
            done.setdefault(num, (name, line))
    roots = [fn for fn in C.fns if fn.n != 'main'] and [fn for fn in p.fns.values() if fn.q in ('hzapi::Api::shutdown', 'hzapi::ArchiveProvider::close')]
    lk = takes_locks(p, roots)
    for num, (name, line) in sorted(done.items()):
        closes = any(True for x in lk)
        ctx.ob('locks', name, not closes, 'src/main.cpp', 'main', line,
               'the handler of %s takes locks the failing thread may hold: %s' % (name, ', '.join(sorted({'%s (%s:%s)' % (q, fl.split('/')[-1], l) for fl, q, l in lk})[:4])), None, name)
