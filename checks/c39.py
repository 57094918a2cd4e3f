"""Every function of the sources that calls one of the C library, system or libpng functions of a table (functions whose result tells
success from failure) is analysed on every path, with the result unconstrained within what the function may return. Before the result
is used -- dereferenced, handed on, or, for a status, followed by any other work -- the facts of the path must exclude failure; a path on
which the call is known to have failed must leave by exception, by its return value, by trying again or by giving up the current round
of a loop. Functions that return such a result are analysed inside their callers."""
TECHNIQUE = 'path-sensitive abstract interpretation: obligation to refute failure of every fallible call before its result counts'
NOTE = ('All paths of all functions that call a function of the table. send() and recv() are decided by C17. Functions without a '
        'failure that matters (close, sem_post, remove, inet_ntop into a zeroed buffer) are outside the table.')

from hz import archive, prog, engine
from hz.extract import AnalysisError, VERIF, sources
from hz.prog import walk
from hz.terms import *

POINTER = set('''fopen fmemopen tmpfile fdopen freopen popen opendir malloc calloc realloc aligned_alloc strdup strndup realpath getcwd fgets
  png_create_read_struct png_create_read_struct_2 png_create_write_struct png_create_write_struct_2 png_create_info_struct
  gethostbyname dlopen dlsym localtime gmtime mmap sem_open'''.split())
OPTIONAL = {'getenv', 'secure_getenv'}
STATUS = set('''socket accept accept4 bind listen setsockopt getsockopt connect sem_wait sem_trywait sem_timedwait sem_init open openat
  creat dup dup2 pipe fork ftruncate truncate rename mkdir chmod fcntl flock lockf fseek fseeko fstat stat lstat fsync fileno ioctl
  getaddrinfo pthread_create pthread_mutex_lock pthread_mutex_init'''.split())
# Results from 0 up are no failure.
DESCRIPTOR = set('socket accept accept4 open openat creat dup dup2 fork fcntl fileno'.split())
MAY_FAIL = POINTER | OPTIONAL | STATUS
# Calls that may come while a status is still to be looked at, or after a failure, without being use of the result.
CLEANUP = set('''close fclose sem_post sem_close shutdown strerror __errno_location perror printf fprintf fputs strsignal remove
  png_destroy_read_struct png_destroy_write_struct free htons ntohs htonl ntohl'''.split())
HARMLESS = {'free', 'png_destroy_read_struct', 'png_destroy_write_struct', 'realloc'}
QUIET = ('loguru::', 'std::basic_string', 'std::operator', 'std::to_string', 'std::exception', 'std::runtime_error', 'std::allocator', 'std::char_traits',
         'std::basic_ostream', 'std::__', 'std::unique_lock', 'std::scoped_lock', 'std::lock_guard', 'std::mutex')
SMALL = 120
RESULTS, PENDING = mk('obj', 'c39:results'), mk('obj', 'c39:pending')


def held(site):
    """Place of the abstract state for the result of the last call at a site."""
    return mk('fld', RESULTS, site)


def pend(site):
    """Present while that result is still to be looked at."""
    return mk('fld', PENDING, site)


def size(f):
    return sum(1 for _ in walk(f.body))


class Sites:
    """Which functions contain a call of the table, themselves or in what they call."""

    def __init__(self, p):
        self.p = p
        self.own = [f for f in p.fns.values() if f.rel.startswith('src/') and f.body]
        self.calls = {f.id: [] for f in self.own}
        self.callees = {f.id: set() for f in self.own}
        self.over = {}
        for f in self.own:
            for o in f.d.get('over') or []:
                self.over.setdefault(o, set()).add(f.id)
        for f in self.own:
            for e in walk([f.body, f.inits]):
                if not isinstance(e, dict) or e.get('k') not in ('call', 'ctor', 'new'):
                    continue
                if fallible(e):
                    self.calls[f.id].append(e)
                t = e.get('fn')
                if t is not None:
                    self.callees[f.id].add(t)
        self.direct = {i for i, l in self.calls.items() if l}
        self.deep = set(self.direct)
        while True:
            more = {i for i, c in self.callees.items() if i not in self.deep and c & self.deep}
            if not more:
                break
            self.deep |= more

    def callers(self, f):
        return [self.p.fns[i] for i, cs in self.callees.items() if f.id in cs]


def fallible(e):
    return e.get('k') == 'call' and e.get('n') in MAY_FAIL and not e.get('cq') and (e.get('q') or '').split('::')[0] in (e.get('n'), 'std')


class Client(engine.Client):
    tracing = False
    merge = True
    max_paths = 6000

    def __init__(self, ctx, sites, root):
        self.ctx, self.sites, self.root = ctx, sites, root
        self.fns = set()

    def collects(self, I, n, st, fr):
        return any(isinstance(x, dict) and x.get('k') in ('call', 'ctor') and (fallible(x) or x.get('fn') in self.sites.deep) for x in walk(n))

    def want_inline(self, fn, st):
        r = fn.rel.startswith('src/') and (fn.id in self.sites.direct or fn.id in self.returning or
                                           size(fn) <= SMALL and not any(isinstance(x, dict) and x.get('k') in ('for', 'while', 'do', 'range') for x in walk(fn.body)))
        if r:
            self.fns.add(fn)
        return r
    returning = frozenset()

    def loop_round(self, I, n, st, fr, rng, k):
        for r in list(self.pending(st)):
            # What a round has given up does not concern the next one.
            self.before(I, st, r, 'the next round', giveup=True)
            st.mem.pop(pend(r), None)

    def pending(self, st):
        return [l.a[1] for l in list(st.mem) if l.op == 'fld' and l.a[0] is PENDING and l.a[1] != 'start']

    def results(self, st):
        return [(l.a[1], v) for l, v in list(st.mem.items()) if l.op == 'fld' and l.a[0] is RESULTS and l.a[1] != 'start']

    def failed(self, I, st, site):
        name, r = site[0], st.mem.get(held(site))
        if r is None:
            return None
        seen = {2: True, 3: False}.get(getattr(st.mem.get(pend(site)), 'a', (None,))[0])
        if seen is not None:
            return seen
        d = st.facts.decide
        if name in POINTER | OPTIONAL:
            return next((x for x in (d(eq(r, NULL)), d(eq(r, ZERO))) if x is not None), None)
        z = d(eq(r, ZERO))
        if name not in DESCRIPTOR:
            if z is not None or name in ('getaddrinfo',) or name.startswith('pthread_'):
                return None if z is None else not z
        if d(eq(r, c(-1))) is True:
            return True
        return d(lt(r, ZERO))

    def merge_key(self, st):
        self.closing(self.I, st)
        return tuple(sorted((str(x), str(st.mem.get(pend(x))), self.failed(self.I, st, x)) for x, _ in self.results(st) if x[0] not in OPTIONAL))

    def closing(self, I, st):
        for site in self.pending(st):
            f = self.failed(I, st, site)
            if f is not None:
                st.mem[pend(site)] = c(2 if f else 3)

    def judge(self, rule, site, ok, what, msg):
        name, line, file, fn = site
        self.ctx.ob(rule, '%s at %s:%d before %s' % (name, file, line, what), ok, file, fn, line, msg, detail=name)

    def before(self, I, st, site, what, giveup=False):
        """Other work follows while the result of the site is still to be looked at."""
        f, name = self.failed(I, st, site), site[0]
        if name in OPTIONAL:
            if f is not None:
                st.mem.pop(pend(site), None)
            return
        if f is None:
            if name in STATUS or name == 'sem_open' and giveup:
                self.judge('checked', site, False, what, '%s follows although %s() may have failed' % (what, name))
            elif giveup:
                self.judge('checked', site, False, what, 'the result of %s() is never looked at' % name)
            else:
                return
        elif f:
            self.judge('error', site, giveup, what, 'after %s() has failed the function goes on with %s' % (name, what))
        else:
            self.judge('checked', site, True, what, '')
        st.mem.pop(pend(site), None)

    def raw(self, I, st, v):
        return I.load(st, v) if v is not None and engine.isloc(v) else v

    def uses(self, I, st, v, what):
        for site, r in self.results(st):
            if v is r or self.mentions(I, v, r):
                if site[0] in STATUS and pend(site) not in st.mem:
                    continue
                f = self.failed(I, st, site)
                self.judge('used', site, f is False, what, '%s uses the result of %s() although the call %s' % (what, site[0], 'has failed' if f else 'may have failed'))

    def mentions(self, I, v, r):
        return isinstance(v, T) and v.op in ('ptr', 'el', 'fld', 'deref', 'cast', 'fn', 'str', 'obj', 'cstr') and I.mentions(v, lambda t: t is r)

    def on_read(self, I, st, loc, e, fr):
        if loc.op in ('el', 'fld', 'deref'):
            x = loc
            while x.op in ('el', 'fld'):
                x = x.a[0]
            if x.op == 'deref':
                self.uses(I, st, x.a[0], 'the access at line %d' % (e.get('l') or 0))

    def on_write(self, I, st, loc, v, e, fr):
        if loc.a and loc.a[0] is not RESULTS and loc.a[0] is not PENDING:
            self.on_read(I, st, loc, e or {}, fr)

    def call(self, I, e, name, st, obj, args, fr, out):
        if fallible(e):
            n = e['n']
            for r in self.pending(st):
                same = r[1:3] == (e['l'], prog.rel(fr.file))
                if same and self.failed(I, st, r):
                    st.mem.pop(pend(r))     # tried again
                    continue
                self.before(I, st, r, 'the call of %s()' % n)
            for i in range(len(args)):
                self.uses(I, st, self.raw(I, st, args[i]), 'the call of %s()' % n)
            r = I.fresh(n, e['t'])
            site = (n, e['l'], prog.rel(fr.file), fr.name)
            st.mem[held(site)] = r
            I.types_of[r] = e['t']
            if n in STATUS and not n.startswith(('getaddrinfo', 'pthread_')):
                st.facts.assume(le(c(-1), r), True)
                if n not in DESCRIPTOR:
                    st.facts.assume(le(r, ZERO), True)
            st.mem[pend(site)] = ONE
            self.ctx.ob('site', '%s at %s:%d' % (n, prog.rel(fr.file), e['l']), True)
            return [(st, r)]
        q, n = e.get('q') or name or '', e.get('n') or ''
        if q.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__uniq')):
            for site, r in self.results(st):
                if any(self.raw(I, st, a) is r for a in args):
                    st.mem.pop(pend(site), None)    # owned by an object that is asked itself
            return None
        if '(anonymous@' in q:
            return None
        if n in HARMLESS or q.startswith(('rainman::', 'loguru::')) or e.get('fn') in self.sites.calls:
            return None
        for i in range(min(len(args), len(e.get('args') or ()))):
            t = e['args'][i].get('t')
            if t is not None and t.strip().c == 'ptr':
                self.uses(I, st, self.raw(I, st, args[i]), 'the call of %s' % (q or n))
        return None

    def opaque(self, I, e, name, st, obj, args, fr, out):
        q = e.get('q') or name or ''
        n = e.get('n') or q.split('::')[-1]
        if n in CLEANUP and not e.get('cq') or q.startswith(QUIET):
            return ()
        if 'rror' in q.split('::')[-1] or 'xception' in q.split('::')[-1] or n == '(ctor)' and ('rror' in q or 'xception' in q):
            return ()
        what = 'the call of %s' % q
        for i in range(len(args)):
            if e['args'][i].get('t') is None:
                continue
            self.uses(I, st, self.raw(I, st, args[i]), what)
        for r in self.pending(st):
            self.before(I, st, r, what)
        return ()


def analyse(ctx, p, sites, f, returning):
    cl = Client(ctx, sites, f)
    cl.returning = returning
    I = cl.I = engine.Interp(p, cl)
    def setup(st):
        st.mem[held('start')] = ZERO
        st.mem[pend('start')] = ZERO
    outs = I.run(f, setup)
    up = False
    for k, s, v in outs:
        if k == 't':
            for r in cl.pending(s):
                cl.judge('error', r, True, 'the exception', '')
            continue
        ret = I.rvalue(s, v) if v is not None and hasattr(I, 'rvalue') else v
        for r in cl.pending(s):
            fail = cl.failed(I, s, r)
            x = s.mem.get(held(r))
            if ret is not None and (ret is x or isinstance(ret, T) and I.mentions(ret, lambda t: t is x)):
                up = True
                continue
            if r[0] in OPTIONAL:
                continue
            if fail is None:
                cl.judge('checked', r, False, 'the return', '%s returns although %s() may have failed' % (f.q, r[0]))
            elif fail:
                conveys = ret is not None and f.rt is not None and f.rt.n != 'void'
                cl.judge('error', r, conveys, 'the return', '%s returns as usual after %s() has failed' % (f.q, r[0]))
                up = up or conveys
            else:
                cl.judge('checked', r, True, 'the return', '')
    ctx.analysed(*sorted(cl.fns | {f}, key=lambda f: f.q))
    return up


def run(ctx):
    ctx.rule('site', 'calls that can fail', 15)
    ctx.rule('checked', 'other work follows only when failure is excluded', 6)
    ctx.rule('used', 'a result is used only when failure is excluded', 10)
    ctx.rule('error', 'a failure leaves as an error', 6)
    p = ctx.program(prog.load([(s, 'ocl') for s in sources()] + [(VERIF + '/drivers/headers.cpp', 'ocl'), (VERIF + '/drivers/jpeg.cpp', 'ocl')]))
    sites = Sites(p)
    if not sites.direct:
        raise AnalysisError('no call of a function that can fail was found')
    todo = sorted(sites.direct)
    done, returning = set(), set()
    while todo:
        i = todo.pop(0)
        if i in done:
            continue
        done.add(i)
        f = p.fns[i]
        if analyse(ctx, p, sites, f, frozenset(returning)):
            returning.add(i)
            for g in sites.callers(f):
                done.discard(g.id)
                todo.append(g.id)
