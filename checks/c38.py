"""The function that reads the configuration is evaluated symbolically, with every value taken from the environment kept as a term that
names its variable, for every variable set while the others are unset and unset while the others are set (thorough: for every subset of
the variables). At its end each setting must hold the value of its own variable, converted without loss, or what it held before. The
start of the program is evaluated the same way to decide that each component is given its own setting, after the environment was read."""
TECHNIQUE = 'symbolic data flow from environment variables to settings and from settings to the components they configure'
NOTE = 'Every variable set and unset; texts that are no numbers raise std::invalid_argument in the library and are not considered.'

import itertools, re
from hz import prog, engine
from hz.engine import isloc
from hz.extract import AnalysisError, REPO
from hz.prog import walk, rel
from hz.terms import *

CFG = 'hzruntime::Config::'
CONFIGURE = CFG + 'configure'
NUM = [('HZIP_API_THREADS', 'api_threads'), ('HZIP_API_PORT', 'api_port'), ('HZIP_API_TIMEOUT', 'api_timeout'),
       ('HZIP_PROCESSOR_THREADS', 'processor_threads'), ('HZIP_MAX_MEM_USAGE', 'host_max_memory')]
STR = [('HZIP_API_KEY', 'api_key')]
CLNUM = [('HZIP_OPENCL_KERNELS', 'opencl_kernels')]
CLSTR = [('HZIP_OPENCL_DEVICE_REGEX', 'opencl_device_regex')]
CACHE = [('HZIP_CACHE_FILE', 'str'), ('HZIP_CACHE_COUNT', 'num'), ('HZIP_CACHE_PAGE_SIZE', 'num')]
DEFAULTS = {'api_threads': 1, 'api_port': 1729, 'api_timeout': 100, 'api_key': 'hybridzip', 'processor_threads': 1, 'host_max_memory': 1 << 30,
            'opencl_kernels': 32, 'opencl_device_regex': '', 'HZIP_CACHE_FILE': 'hzip', 'HZIP_CACHE_COUNT': 4, 'HZIP_CACHE_PAGE_SIZE': 131072}
# conversion -> bits of the values it can deliver
CONV = {'std::stoull': 64, 'std::stoul': 64, 'std::stoll': 63, 'std::stol': 63, 'std::stoi': 31, 'strtoull': 64, 'strtoul': 64, 'strtoll': 63,
        'strtol': 63, 'atoi': 31, 'atol': 63, 'atoll': 63, 'std::stof': 24, 'std::stod': 53, 'std::stold': 64, 'strtod': 53, 'strtof': 24, 'strtoumax': 64}
CONV.update({'std::' + k: v for k, v in list(CONV.items()) if '::' not in k})


def text(I, st, v):
    for _ in range(6):
        if v is None or v.op == 'str':
            return v.a[0] if v is not None else None
        if v.op == 'ptr':
            v = v.a[0]
        elif isloc(v):
            n = I.load(st, v)
            if n is v:
                return None
            v = n
        else:
            return None
    return None


class Env(engine.Client):
    max_paths = 20000
    unroll = 64

    def __init__(self, sel):
        self.sel, self.asked, self.init = sel, {}, []

    def want_inline(self, fn, st):
        return fn.rel.startswith('src/hzip_core/runtime/config.')

    def opaque(self, I, e, name, st, obj, args, fr, out):
        return ()

    def call(self, I, e, name, st, obj, args, fr, out):
        if name in ('getenv', 'std::getenv', 'secure_getenv'):
            n = text(I, st, args[0])
            if n is None:
                raise AnalysisError('%s:%s: the name of the environment variable is not known' % (rel(fr.file), e['l']))
            self.asked[n] = (rel(fr.file), fr.name, e['l'])
            return [(st, mk('str', 'ENV:' + n) if n in self.sel else NULL)]
        q = e.get('q') or name
        if q in CONV or name in CONV:
            t = text(I, st, args[0])
            base = args[2] if len(args) > 2 and (q if q in CONV else name).split('::')[-1].startswith(('sto', 'strto')) else c(10)
            v = mk('num', mk('str', t) if t is not None else args[0], q if q in CONV else name, base)
            v.nn = True
            return [(st, v)]
        if name.endswith('DeviceProvider::load_devices'):
            st.mem[mk('glob', '#devices')] = mk('str', 'loaded')
            return [(st, ZERO)]
        if name.endswith('DeviceProvider::filter_devices'):
            st.mem[mk('glob', '#devices')] = mk('filtered', st.mem.get(mk('glob', '#devices'), NULL), mk('str', text(I, st, args[0]) or '?'))
            return [(st, ZERO)]
        if name.endswith('DeviceProvider::empty'):
            return [(st, mk('none_of', st.mem.get(mk('glob', '#devices'), NULL)))]
        if name.endswith('CacheProvider::init_cache'):
            st.mem[mk('glob', '#cache')] = mk('cache', mk('str', text(I, st, args[0]) if text(I, st, args[0]) is not None else '?'), I.load(st, args[1]) if isloc(args[1]) else args[1], I.load(st, args[2]) if isloc(args[2]) else args[2])
            return [(st, ZERO)]
        if name in ('printf', 'exit', 'loguru::log'):
            return [(st, ZERO)]
        return None


def names(t, acc=None):
    acc = set() if acc is None else acc
    if t.op == 'str':
        if isinstance(t.a[0], str) and t.a[0].startswith('ENV:'):
            acc.add(t.a[0][4:])
        return acc
    if t.op == 'lin':
        for a, _ in t.a[1]:
            names(a, acc)
        return acc
    for a in t.a:
        if isinstance(a, T):
            names(a, acc)
    return acc


def width_of(t):
    return t.w if t.c in ('int', 'enum') else 1


def judge(v, var, kind, bits):
    """None if v is the value of the variable, otherwise what is wrong with it (and which rule it breaks)."""
    if kind == 'str':
        if v.op == 'str':
            return None if v.a[0] == 'ENV:' + var else ('named', 'holds %s' % show(v))
    else:
        while v.op == 'trunc':
            if v.a[0] < bits:
                return ('width', 'is cut to %d of its %d bits' % (v.a[0], bits))
            v = v.a[2]
        while v.op in ('sext', 'zext', 'cast', 'wrap'):
            v = v.a[-1]
        if v.op == 'num':
            if v.a[0].op != 'str' or v.a[0].a[0] != 'ENV:' + var:
                return ('named', 'is the value of %s' % (', '.join(names(v)) or show(v)))
            if v.a[2] is not c(10):
                return ('width', 'is read in base %s' % show(v.a[2]))
            if CONV[v.a[1]] < min(bits, 63):
                return ('width', 'is read with %s, which cannot deliver its %d bits' % (v.a[1], bits))
            return None
        if v.op == 'lin' or v.op == 'c':
            if not names(v):
                return ('named', 'holds %s' % show(v))
            return ('named', 'is not the value of the variable but %s' % show(v))
    if names(v) - {var}:
        return ('named', 'depends on %s' % ', '.join(sorted(names(v) - {var})))
    if not names(v):
        return ('named', 'does not depend on the variable (%s)' % show(v))
    raise AnalysisError('the value of %s is not understood: %s' % (var, show(v)))


def evaluate(p, f, sel):
    C = Env(sel)
    I = engine.Interp(p, C)
    return C, I, [(s, v) for k, s, v in I.run(f) if k == 'r']


def default_of(p, n):
    g = p.globals.get(CFG + n)
    i = (g or {}).get('init')
    if i is None:
        return None
    if i.get('cv') is not None:
        return i['cv']
    for x in walk(i):
        if x['k'] == 'str':
            return x.get('v', x.get('s'))
        if x.get('cv') is not None and x['k'] in ('lit', 'cast'):
            return x['cv']
    return None


def readers(ctx, p, cfg):
    num, st, cl = NUM, STR, []
    if cfg == 'ocl':
        num, st, cl = NUM + CLNUM, STR + CLSTR, CLSTR
    settings = [(v, s, 'num') for v, s in num] + [(v, s, 'str') for v, s in st]
    variables = [v for v, s, k in settings] + [v for v, k in CACHE]
    f = p.one(CONFIGURE)
    ctx.analysed(f)
    ctx.analysed(*[x for x in p.fns.values() if x.rel.startswith('src/hzip_core/runtime/config.')])
    if ctx.tier == 'thorough':
        subsets = [frozenset(x) for n in range(len(variables) + 1) for x in itertools.combinations(variables, n)]
    else:
        subsets = [frozenset(), frozenset(variables)] + [frozenset([v]) for v in variables] + [frozenset(variables) - {v} for v in variables]
    where = lambda C, v: C.asked.get(v, (f.rel, f.q, f.line))
    for sel in subsets:
        C, I, ends = evaluate(p, f, sel)
        ctx.count('subsets of the variables evaluated')
        if not ends:
            raise AnalysisError('the configuration is read on no path')
        for s, _ in ends:
            for var, name, kind in settings:
                g = p.globals.get(CFG + name)
                if g is None:
                    raise AnalysisError('no setting %s' % name)
                l = mk('glob', CFG + name)
                v = s.mem.get(l)
                file, fn, line = where(C, var)
                if var in sel:
                    bits = g['t'].w if kind == 'num' else 0
                    r = ('named', 'is not set') if v in (None, l, mk('init', l)) else judge(v, var, kind, bits)
                    ctx.ob(r[0] if r else 'named', '%s -> %s (%s)' % (var, name, cfg), r is None, file, fn, line,
                           'with %s set, %s %s' % (var, name, r[1] if r else ''), None, name)
                    if kind == 'num' and r is None:
                        ctx.ob('width', '%s (%d bits)' % (name, bits), True)
                else:
                    ok = v is None or v is l or v is mk('init', l)
                    if not ok:
                        d = default_of(p, name)
                        ok = v.op == 'c' and v.a[0] == d or v.op == 'str' and v.a[0] == d
                    ctx.ob('default', '%s without %s (%s)' % (name, var, cfg), ok, file, fn, line,
                           'without %s, %s is changed to %s' % (var, name, show(v) if v else ''), None, name)
            k = s.mem.get(mk('glob', '#cache'))
            ctx.ob('cache', 'the caches are set up', k is not None, f.rel, f.q, f.line, 'the caches are not set up', None, 'none')
            for i, (var, kind) in enumerate(CACHE):
                if k is None:
                    continue
                v = k.a[i]
                file, fn, line = where(C, var)
                if var in sel:
                    r = judge(v, var, kind, 64)
                    ctx.ob('cache', '%s given to init_cache' % var, r is None, file, fn, line, 'with %s set, that argument of init_cache %s' % (var, r[1] if r else ''), None, var)
                else:
                    want = DEFAULTS[var]
                    ok = v is (mk('str', want) if kind == 'str' else c(want))
                    ctx.ob('cache', 'default of %s' % var, ok, file, fn, line, 'without %s, that argument of init_cache is %s instead of %s' % (var, show(v), want), None, var)
            if cfg == 'ocl':
                d = s.mem.get(mk('glob', '#devices'))
                rx = 'HZIP_OPENCL_DEVICE_REGEX'
                if rx in sel:
                    ok = d is mk('filtered', mk('str', 'loaded'), mk('str', 'ENV:' + rx))
                else:
                    ok = d is mk('str', 'loaded')
                file, fn, line = where(C, rx)
                ctx.ob('devices', 'devices used %s %s' % ('with' if rx in sel else 'without', rx), ok, file, fn, line,
                       'the devices used are %s' % (show(d) if d is not None else 'never loaded'), None, 'set')
                e = s.mem.get(mk('glob', CFG + 'opencl_support_enabled'))
                e = c(default_of(p, 'opencl_support_enabled') or 0) if e is None or e.op == 'glob' else e
                em = s.facts.decide(mk('eq0', mk('none_of', d))) if d is not None else None
                on = s.facts.decide(mk('ne0', e)) if e.op != 'c' else bool(e.a[0])
                neg = e in (mk('eq0', mk('none_of', d)), mk('not', mk('none_of', d))) if d is not None else False
                ok = neg or (on is not None and em is not None and on == em)
                ctx.ob('devices', 'OpenCL is used only with a device', ok, f.rel, f.q, f.line,
                       'OpenCL is %s although devices are %s' % ({True: 'used', False: 'not used', None: '?'}[on], {True: 'left', False: 'not left', None: 'not looked for'}[em]), None, 'enabled')
    if cfg == 'ocl':
        for n, want in DEFAULTS.items():
            if n.startswith('HZIP'):
                continue
            d = default_of(p, n)
            g = p.globals.get(CFG + n)
            ctx.ob('default', 'initial value of %s' % n, d == want, g['relfile'], CFG + n, g['l'], 'the default of %s is %r instead of %r' % (n, d, want), None, n)


class Main(engine.Client):
    max_paths = 4000

    def __init__(self):
        self.reads, self.uses, self.seen = [], [], set()

    def want_inline(self, fn, st):
        ok = (fn.rel == 'src/main.cpp' or fn.rel.startswith('src/hzip_network/api/api.')) and fn.n not in ('start', 'shutdown') and fn.n != 'configure'
        if ok:
            self.seen.add(fn)
        return ok

    def opaque(self, I, e, name, st, obj, args, fr, out):
        return ()

    def on_read(self, I, st, loc, e, fr):
        if loc.op == 'glob' and loc.a[0].startswith(CFG):
            self.reads.append((loc.a[0][len(CFG):], st.mem.get(mk('glob', '#configured')) is ONE, rel(fr.file), fr.name, e['l']))

    def call(self, I, e, name, st, obj, args, fr, out):
        val = lambda a: I.load(st, a) if isloc(a) else a
        q = e.get('q') or name
        at = (rel(fr.file), fr.name, e['l'])
        conf = st.mem.get(mk('glob', '#configured')) is ONE
        use = lambda what, v: self.uses.append((what, v, conf, at))
        if q == CONFIGURE:
            st.mem[mk('glob', '#configured')] = ONE
            return [(st, ZERO)]
        if name.endswith('timeval::operator=') and isloc(args[0]) and obj is not None:
            for l, v in list(st.mem.items()):
                if l.op == 'fld' and l.a[0] is args[0]:
                    st.mem[mk('fld', obj, l.a[1])] = v
            return [(st, obj)]
        if name.endswith('CacheProvider::init_cache') or name in ('getenv', 'std::getenv'):
            return [(st, ZERO)]
        if q == 'rainman::Allocator::peak_size' and args:
            use('memory', val(args[0]))
        cls = e.get('cls') or ''
        if name == 'rainman::ptr::(ctor)' and len(args) == 2:
            if 'Semaphore' in cls:
                use('sessions', val(args[1]))
            if 'HZ_Processor' in cls:
                use('jobs', val(args[1]))
        if q in ('hzapi::Api::start', 'hzapi::ApiInstance::start') and args:
            use('port', val(args[-1]))
            o = obj.a[0] if obj is not None and obj.op == 'ptr' else obj
            rec = I.P.rec(e.get('cls') or 'hzapi::Api')
            for fd in rec['fields'] if rec else ():
                l = mk('fld', o, fd['n'])
                t = fd['t'].n
                if 'basic_string' in t:
                    use('key', st.mem.get(l, l))
                elif 'timeval' in t:
                    use('timeout', st.mem.get(mk('fld', l, 'tv_sec'), st.mem.get(l, l)))
            return []
        return None


USES = {'memory': ('host_max_memory', 64, 'the limit on memory'), 'sessions': ('api_threads', 64, 'the number of sessions'),
        'jobs': ('processor_threads', 64, 'the number of jobs'), 'port': ('api_port', 16, 'the port'),
        'key': ('api_key', 0, 'the password of the server'), 'timeout': ('api_timeout', 32, 'the timeout of a session')}


def users(ctx):
    p = prog.load([(x, 'ocl') for x in ('src/main.cpp', 'src/hzip_network/api/api.cpp', 'src/hzip_core/runtime/config.cpp')])
    ctx.program(p)
    early(ctx, p)
    f = p.one('main')
    C = Main()
    I = engine.Interp(p, C)
    list(I.run(f))
    ctx.analysed(*C.seen)
    seen = set()
    for what, v, conf, (file, fn, line) in C.uses:
        name, bits, text_ = USES[what]
        t = v
        while t.op in ('trunc', 'sext', 'zext', 'cast'):
            if t.op == 'trunc' and t.a[0] < bits:
                break
            t = t.a[2] if t.op == 'trunc' else t.a[-1]
        ok = t is mk('init', mk('glob', CFG + name)) or t is mk('glob', CFG + name)
        seen.add(what)
        ctx.ob('used', '%s is %s' % (text_, name), ok, file, fn, line, '%s is %s instead of the setting %s' % (text_, show(v), name), None, what)
        ctx.ob('first', text_, conf, file, fn, line, '%s is set before the environment was read' % text_, None, what)
    for name, conf, file, fn, line in C.reads:
        ctx.ob('first', '%s at %s:%s' % (name, file.split('/')[-1], line), conf, file, fn, line, '%s is read before the environment was' % name, None, name)
    for w in USES:
        ctx.ob('used', USES[w][2], w in seen, f.rel, f.q, f.line, '%s is never set from %s' % (USES[w][2], USES[w][0]), None, 'missing:' + w)


def early(ctx, p):
    """Initialisers that run before main() do not read a setting."""
    for q, g in sorted(p.globals.items()):
        if not (g.get('relfile') or '').startswith('src/') or g.get('init') is None:
            continue
        bad = [x for x in walk(g['init']) if x['k'] == 'ref' and (x.get('q') or '').startswith(CFG) and not (x.get('q') or '') == q]
        ctx.ob('first', 'initialiser of %s' % q, not bad, g['relfile'], q, g['l'], '%s is initialised from %s before main() reads the environment' % (q, bad[0].get('q') if bad else ''), None, 'init')


def run(ctx):
    ctx.rule('named', 'a variable that is set determines its setting', 8)
    ctx.rule('default', 'a variable that is not set leaves the default of its setting', 8)
    ctx.rule('width', 'the value of a variable is converted without losing bits of the setting', 4)
    ctx.rule('cache', 'name, number and page size of the caches are those of their variables or the defaults', 4)
    ctx.rule('devices', 'devices are loaded, filtered by the variable if it is set, and used if any is left', 2)
    ctx.rule('used', 'each component is given its own setting', 4)
    ctx.rule('first', 'a setting is read only after the environment was', 4)
    for cfg in ('ocl', 'cpu'):
        p = prog.load([('src/hzip_core/runtime/config.cpp', cfg)])
        ctx.program(p)
        readers(ctx, p, cfg)
        early(ctx, p)
    users(ctx)
