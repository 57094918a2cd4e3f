"""Lock usage of the operations that own or use a lock (shared by C01, C02, C03)."""
from . import engine, prog, archive
from .engine import Exc
from .terms import *
from .prog import rel, walk
from .lib import LOCKS, MUTEX
from .extract import AnalysisError

CPU = ['src/hzip_storage/archive/archive.cpp', 'src/hzip_core/blob/blob.cpp', 'src/hzip_network/api/providers/archive_provider.cpp',
       'src/hzip_core/runtime/cache_provider.cpp', 'src/hzip_core/utils/semaphore.cpp',
       'src/hzip_codec/sharingan/sharingan.cpp', 'src/hzip_codec/sharingan/state_transition.cpp']
OCL = ['src/hzip_core/opencl/cl_helper.cpp', 'src/hzip_core/preprocessor/color.cpp', 'src/hzip_core/models/paeth.cpp',
       'src/hzip_codec/sharingan/state_transition.cpp', 'src/hzip_codec/sharingan/sharingan.cpp']


def units():
    return [(u, 'cpu') for u in CPU] + [(u, 'ocl') for u in OCL]


def programs(ctx):
    return [ctx.program(prog.load([(u, 'cpu') for u in CPU])), ctx.program(prog.load([(u, 'ocl') for u in OCL + CPU[:5]]))]


def is_mutex(t):
    return t is not None and t.c == 'rec' and t.q in MUTEX


def is_sem(t):
    while t is not None and (t.c in ('ref', 'ptr') or t.targs):
        if t.n.endswith('sem_t') or (t.rec or '') == 'sem_t':
            return True
        t = t.p if t.c in ('ref', 'ptr') else t.targs[0] if t.targs else None
    return t is not None and ('sem_t' in t.n)


def mutex_fields(p):
    """class -> (own mutexes, element mutexes, all fields) for classes of the repository that own a mutex."""
    r = {}
    for n, rec in p.records.items():
        if not rec['relfile'].startswith('src/'):
            continue
        fs = {f['n']: f['t'] for f in rec['fields']}
        for g in p.globals.values():
            if g.get('cls') == n or g['q'].rsplit('::', 1)[0] == rec['q']:
                fs[g['n'] if 'n' in g else g['q'].split('::')[-1]] = g['t']
        own = [f for f, t in fs.items() if is_mutex(t)]
        if own:
            r[n] = (own, fs)
    return r


class LockClient(archive.ArchiveClient):
    """Keeps the stack of held locks; calls outside the analysed code may raise."""
    only = None

    def __init__(self):
        self.order = {}       # (outer, inner) -> event description
        self.qname = {}

    def want_inline(self, fn, st):
        if fn.cq == 'HZ_ArchiveTrie':
            return False
        if self.inline_class is not None:
            c = fn.cq or ''
            if c in ('HZ_Archive',) and self.inline_class != 'HZ_Archive':
                return False
            if fn.q in HEAVY and fn.q != self.entry:
                return False
        return True

    def opaque(self, I, e, name, st, obj, args, fr, out):
        if name.startswith('cl::'):
            return ('cl::Error',)
        fn = I.P.fns.get(e.get('fn'))
        if fn is not None or name in ('(indirect)', '(lambda)'):
            return ('std::runtime_error',)
        return ()

    def held(self, st):
        return st.cl.get('held', ())

    def on_lock(self, I, st, m, e, fr, kind):
        h = self.held(st)
        a = e.get('obj') if e and e.get('k') == 'call' and 'obj' in e else (e.get('args') or [None])[0] if e else None
        while a is not None and a.get('k') == 'cast':
            a = a['e']
        if a is not None and a.get('k') == 'mem' and a.get('q'):
            self.qname[m] = a['q']
        if kind == 'sem':
            self.qname[m] = 'HZ_Archive::archive_mutex'
        nm = lambda x: self.qname.get(x) or name_of(x)
        for x, k2 in h:
            key = (nm(x), nm(m))
            if key not in self.order:
                self.order[key] = (x is m, '%s:%d (%s)' % (rel(fr.file), e.get('l', 0), fr.name))
        if kind != 'sem':
            st.cl['held'] = h + ((m, kind),)

    def on_unlock(self, I, st, m, e, fr, kind):
        h = list(self.held(st))
        for i in range(len(h) - 1, -1, -1):
            if h[i][0] is m:
                del h[i]
                break
        st.cl['held'] = tuple(h)


HEAVY = {'hzmodels::LinearU16PaethDifferential::cpu_filter', 'SharinganStateTransition::cpu_dynamic_precode', 'SharinganStateTransition::static_precode',
         'hzcodec::Sharingan::apply_filter', 'SharinganStateTransition::build_context_models', 'SharinganStateTransition::dynamic_precode',
         'SharinganStateTransition::opencl_dynamic_precode'}


def name_of(m):
    """Lock identity across calls: class::field or global name."""
    if m.op == 'glob':
        return m.a[0]
    if m.op == 'fld':
        b = m.a[0]
        if b.op == 'obj' and str(b.a[0]).startswith('this:'):
            return str(b.a[0])[5:] + '::' + m.a[1]
        if b is archive.THIS:
            return 'HZ_Archive::' + m.a[1]
        return name_of(b) + '.' + m.a[1]
    if m.op in ('el', 'at'):
        return name_of(m.a[0]) + '[]'
    if m.op == 'init':
        return name_of(m.a[0])
    if m.op in ('sel',):
        return name_of(m.a[0]) + '.' + str(m.a[1])
    if m.op == 'obj':
        return str(m.a[0]).split('#')[0]
    if m.op == 'mem':
        return '*' + name_of(m.a[0])
    if m.op == 'ptr':
        return name_of(m.a[0])
    return m.op


def uses_locks(f):
    for n in walk(f.body):
        t = n.get('t')
        if n['k'] == 'ctor' and (n.get('q') in LOCKS):
            return True
        if n['k'] == 'call' and (n.get('cq') in MUTEX or n.get('q') in ('sem_wait', 'sem_post')):
            return True
    return False


def entries(p, exclude=()):
    """Public members of lock-owning classes, and every other function that itself takes a lock."""
    own = mutex_fields(p)
    r = []
    for f in p.fns.values():
        if not f.rel.startswith('src/') or f.d.get('implicit') or f.d.get('defaulted') or f.kind == 'dtor':
            continue
        if any(f.rel.startswith(x) for x in exclude):
            continue
        cls = f.cls
        if (cls in own and f.acc == 'public' and f.kind in ('method', 'ctor')) or ((cls not in own) and uses_locks(f)):
            r.append(f)
    return sorted(r, key=lambda f: (f.file, f.line)), own


def run(p, f, client=None):
    c = client or LockClient()
    c.inline_class = f.cq or ''
    c.entry = f.q
    I = engine.Interp(p, c)
    this = archive.THIS if f.cq == 'HZ_Archive' else None
    return c, I, I.run(f, this=this)


def balance(evs, start=()):
    """Yields (event, problem) for wrong releases; returns the held list at the end through the last item."""
    held = list(start)
    probs = []
    for ev in evs:
        if ev.k == 'lock' and ev.kind != 'sem':
            if ev.m in held:
                probs.append((ev, 'acquires a lock it already holds'))
            held.append(ev.m)
        elif ev.k == 'unlock' and ev.kind != 'sem':
            if ev.m in held:
                held.reverse()
                held.remove(ev.m)
                held.reverse()
            else:
                probs.append((ev, 'releases a lock it does not hold'))
        elif ev.k == 'loop':
            for kind, body, s in ev.body:
                ps, h2 = balance(body, held)
                probs += ps
                if kind == 'cont' and sorted(x.id for x in h2) != sorted(x.id for x in held):
                    d = body[-1] if body else ev
                    probs.append((d, 'a loop iteration ends with a different set of locks held than it began with'))
    return probs, held
