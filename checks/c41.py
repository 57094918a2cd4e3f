"""The device, program and kernel registries are interpreted abstractly on every path, with an OpenCL error raised by every OpenCL call.
Every program carries the term of the device it was made for and whether it was built. Registration must leave the registry as it was on
every exceptional path, and on every other path enter a list that a loop over all devices filled with exactly one built program for each;
what is handed out must be the program and the lock of the same index, and the index must move to the next one; loading and filtering
must end with registry, index, count and locks that fit the devices, or change nothing."""
TECHNIQUE = 'abstract interpretation of the registries with provenance terms for devices, programs and locks'
NOTE = 'All numbers of devices; calls that are concurrent with a change of the devices are outside (their locks are C02 and C03); the OpenCL runtime is trusted.'

from hz import prog, engine
from hz.engine import isloc, root, Exc
from hz.extract import AnalysisError
from hz.prog import walk, rel
from hz.terms import *

NS = 'hzopencl::'
G = lambda n: mk('glob', NS + n)
g = lambda *a: mk('fld', mk('glob', '#'), '/'.join(str(x.id) if isinstance(x, T) else x for x in a))


def find_globals(p):
    """The shared variables of the registries by type and class."""
    r = {}
    for q, x in p.globals.items():
        if not q.startswith(NS):
            continue
        t, cls = x['t'].n, q.split('::')[-2]
        if 'unordered_map' in t or 'std::map' in t:
            r['map'] = q
        elif 'vector<cl::Device' in t:
            r['devices'] = q
        elif 'vector<std::mutex' in t:
            r['mutexes'] = q
    return r


class CL(engine.Client):
    max_paths = 20000
    keep_loops = True

    def __init__(self, names):
        self.names = names
        self.fns = set()

    def want_inline(self, fn, st):
        if fn.rel.startswith('src/hzip_core/opencl/'):
            self.fns.add(fn)
            return True
        return False

    def val(self, I, st, a):
        for _ in range(4):
            if a is None or not isloc(a):
                break
            n = I.load(st, a)
            if n is a:
                break
            a = n
        return a

    def opaque(self, I, e, name, st, obj, args, fr, out):
        return ()

    def strip(self, t):
        """A handle is the same object after it was copied or moved."""
        while t.op in ('init', 'built', 'moved', 'cast') and t.a and isinstance(t.a[-1], T):
            t = t.a[-1]
        return t

    def call(self, I, e, name, st, obj, args, fr, out):
        v = lambda a: self.strip(self.val(I, st, a))
        if name.startswith('cl::'):
            copy = e.get('copy') or name.endswith('::(ctor)') and len(args) == 1 and (e['args'][0]['t'].strip().q or '') == (e.get('cls') or '?')
            if not copy and not e.get('nothrow') and '~' not in name:
                s2 = st.copy()
                s2.mem[g('raised')] = ONE
                out.append(('t', s2, Exc('cl::Error', None, e.get('l', 0), rel(fr.file), fr.name, 'from ' + name)))
            if name == 'cl::Platform::get' or name == 'cl::Platform::getDevices':
                a = args[-1]
                loc = a.a[0] if a.op == 'ptr' else a
                I.drop_under(st, loc)
                st.mem[loc] = I.fresh('found@%s' % e['l'])
                return [(st, ZERO)]
            if name == 'cl::Context::(ctor)' and args and not copy:
                return [(st, mk('clctx', v(args[0])))]
            if name == 'cl::Program::(ctor)' and args and not copy:
                x = [v(a) for a in args]
                return [(st, mk('clprog', *x))]
            if name == 'cl::Program::build' and obj is not None:
                st.mem[g('built', v(obj))] = ONE
                return [(st, ZERO)]
            if name == 'cl::Kernel::(ctor)' and len(args) >= 2 and not copy:
                return [(st, mk('clkern', v(args[0]), v(args[1])))]
            if name == 'cl::Device::getInfo':
                return [(st, mk('devname', v(obj)))]
            return None
        if name == 'std::regex_search' or name == 'std::regex_match':
            x = [v(a) for a in args]
            x = [self.strip(self.val(I, st, a.a[0])) if a.op in ('viter', 'iter', 'begin') and isinstance(a.a[0], T) else a for a in x]
            return [(st, mk('matches', *x))]
        if name == 'std::pair::(ctor)' and len(args) == 2:
            first = v(args[0])
            I.emit(st, 'pairout', e, fr, first=first, second=self.val(I, st, args[1]))
        return None

    def on_write(self, I, st, loc, v, e, fr):
        if v is None or loc is None:
            return
        r = root(loc) if loc.op in ('el', 'fld', 'mitem') else None
        if r is not None and r is mk('glob', self.names['map']) and loc.op in ('el', 'mitem'):
            val = self.val(I, st, v) if isloc(v) else v
            I.emit(st, 'reg', e, fr, loc=loc, val=val, src=tuple(l for l, x in st.mem.items() if x is val and l.op in ('var', 'obj')))


def paths(C, p, f, setup=None):
    I = engine.Interp(p, C)
    return I, [(k, s, v) for k, s, v in (I.run(f, setup=setup) if setup else I.run(f))]


def run(ctx):
    ctx.rule('all-or-none', 'a failed registration leaves the registry as it was', 3)
    ctx.rule('complete', 'a registered program has exactly one built program for every device, in the order of the devices')
    ctx.rule('reported', 'a registration that did not succeed raises an error', 1)
    ctx.rule('same-device', 'the program and the lock handed out have the same index')
    ctx.rule('rotation', 'the index moves on to the next device with every request')
    ctx.rule('kernel', 'a kernel is made from the program of its name and handed out with the lock of that program', 2)
    ctx.rule('reload', 'after devices were loaded or filtered the registry is empty and count, index and locks fit', 2)
    ctx.rule('filter', 'filtering keeps exactly the devices whose name matches', 1)
    ctx.rule('known', 'every kernel is asked for under a name that was registered', 2)
    p = ctx.program(prog.load([('src/hzip_core/opencl/cl_helper.cpp', 'ocl')]))
    N = find_globals(p)
    if set(N) != {'map', 'devices', 'mutexes'}:
        raise AnalysisError('the registries were not found (%s)' % sorted(N))
    MAP, DEV, MTX = (mk('glob', N[n]) for n in ('map', 'devices', 'mutexes'))
    C = CL(N)
    # index and count: the integers that handing out a program reads and writes
    fget = [f for f in p.fns.values() if f.q == NS + 'ProgramProvider::get'][0]
    I, ends = paths(C, p, fget)
    outs = 0
    index = count = None
    ints = {mk('glob', q): q for q, x in p.globals.items() if q.startswith(NS) and x['t'].c == 'int'}
    for k, s, v in ends:
        if k == 't':
            continue
        po = [ev for ev in s.events() if ev.k == 'pairout']
        if not po:
            raise AnalysisError('what ProgramProvider::get returns was not understood')
        ev = po[-1]
        pi = idx_of(ev.first)
        mi = lock_of(ev.second, MTX)
        outs += 1
        ctx.ob('same-device', 'ProgramProvider::get', pi is not None and mi is pi, fget.rel, fget.q, fget.line,
               'the program of device %s is handed out with the lock of device %s' % (show(pi) if pi is not None else '?', show(mi) if mi is not None else '?'), None, 'index')
        ctx.ob('same-device', 'the program is that of the name', pi is not None and keyed(ev.first, MAP), fget.rel, fget.q, fget.line, 'the program is not looked up by its name', None, 'name')
        changed = [l for l in ints if s.mem.get(l) is not None and s.mem[l] is not l and s.mem[l] is not mk('init', l)]
        ok = False
        for l in changed:
            n = s.mem[l]
            for m in ints:
                if m is l:
                    continue
                for i0 in (l, mk('init', l)):
                    for c0 in (m, mk('init', m)):
                        nxt = add(i0, ONE)
                        D = s.facts.decide
                        if n is mk('mod', nxt, c0) or n is ZERO and (D(le(c0, nxt)) is True) or n is nxt and (D(lt(nxt, c0)) is True):
                            ok, index, count = True, l, m
                        if n is nxt and D(eq(nxt, c0)) is False:
                            ok, index, count = True, l, m
        ctx.ob('rotation', 'ProgramProvider::get', ok and len(changed) == 1, fget.rel, fget.q, fget.line,
               'after a request the index is %s' % (', '.join('%s = %s' % (ints[l].split('::')[-1], show(s.mem[l])) for l in changed) or 'unchanged'), None, 'next')
        if ok and pi is not None:
            good = pi in (index, mk('init', index)) or pi is s.mem[index]
            ctx.ob('rotation', 'the index used', good, fget.rel, fget.q, fget.line, 'the device used is %s, not that of the rotation' % show(pi), None, 'used')
    if not outs:
        raise AnalysisError('ProgramProvider::get returns on no path')

    register(ctx, p, C, MAP, DEV)
    kernels(ctx, p, C, MAP, MTX)
    reloads(ctx, p, C, MAP, DEV, MTX, index, count, ints)
    ctx.analysed(*C.fns)
    users(ctx)


def idx_of(t):
    """Index of at(at(map, name), i) or el(...)."""
    while t.op in ('init', 'built', 'rf', 'ptr'):
        t = t.a[-1]
    if t.op in ('at', 'el'):
        return t.a[1]
    return None


def lock_of(t, MTX):
    while t.op in ('init', 'rf', 'ptr') and isinstance(t.a[0], T) and t.a[0].op in ('at', 'el'):
        t = t.a[0]
    return t.a[1] if t.op in ('at', 'el') and derived(t.a[0], MTX) else None


def keyed(t, MAP):
    while t.op in ('init', 'built', 'rf', 'ptr'):
        t = t.a[-1]
    if t.op not in ('at', 'el'):
        return False
    t = t.a[0]
    ok = False
    seen = [t]
    while seen:
        x = seen.pop()
        if x is MAP:
            return True
        if x.op == 'glob':
            continue
        seen += [y for y in x.a if isinstance(y, T)]
    return ok


def changed_under(s, r):
    return [l for l, v in s.mem.items() if (l is r and v is not r and v is not mk('init', r)) or (l.op in ('el', 'mitem', 'fld') and root(l) is r and v is not l and v is not mk('init', l))]


def register(ctx, p, C, MAP, DEV):
    f = [x for x in p.fns.values() if x.q == NS + 'ProgramProvider::register_program'][0]
    I, ends = paths(C, p, f)
    n = 0
    for k, s, v in ends:
        ch = changed_under(s, MAP)
        known = [b for t, b in s.facts.truths.items() if t.op == 'contains' and (t.a[0] is MAP or t.a[0] is mk('init', MAP))]
        if k == 't':
            ctx.ob('all-or-none', str(v)[:90], not ch, v.file if hasattr(v, 'file') else f.rel, f.q, getattr(v, 'line', f.line),
                   'a failed registration (%s at line %s) leaves %s changed' % (v.type, v.line, ', '.join(show(l) for l in ch[:2])), None, 'changed')
            continue
        regs = [ev for ev in s.events() if ev.k == 'reg']
        if known and known[0] is True and not regs:
            ctx.ob('all-or-none', 'a program that is registered already', not ch, f.rel, f.q, f.line, 'registering a program again changes the registry', None, 'again')
            continue
        ctx.ob('reported', 'a registration that returns', bool(regs), f.rel, f.q, f.line, 'registration returns although the program is not registered', None, 'silent')
        if not regs:
            continue
        n += 1
        ev = regs[-1]
        loops = [l for l in s.events() if l.k == 'loop']
        why = 'the programs are not filled by a loop over the devices'
        ok = False
        for l in loops:
            pu = [[x for x in evs if x.k == 'push' and (x.c in ev.src)] for kd, evs, st2 in l.body if kd == 'cont']
            if not any(pu):
                continue
            why = None
            for (kd, evs, st2), xs in zip([b for b in l.body if b[0] == 'cont'], pu):
                if len(xs) != 1:
                    why = '%d programs are entered for a device' % len(xs)
                    break
                pr = C.strip(xs[0].val if xs[0].val is not None and not isloc(xs[0].val) else xs[0].v.get('') if isinstance(xs[0].v, dict) else xs[0].v)
                pr = unwrap(pr)
                if pr is None or pr.op != 'clprog':
                    raise AnalysisError('what is entered for a device was not understood: %s' % (show(pr) if pr is not None else None))
                d = [a for a in parts(pr) if a.op in ('at', 'el') and derived(a.a[0], DEV)]
                if not d or any(a.a[1] is not l.kvar for a in d):
                    why = 'the program entered is not made for the device of its place'
                    break
                if not any(st2.mem.get(g('built', q)) is ONE for q in {pr}):
                    why = 'a program that was not built is entered'
                    break
            if why is None:
                t = l.trips
                good = t.op == 'len' and derived(t.a[0], DEV)
                if not good:
                    why = 'the programs are made for %s devices' % show(t)
            ok = why is None
            if any(kd in ('b', 'r') for kd, evs, st2 in l.body):
                ok, why = False, 'the loop over the devices can be left before its end'
            break
        ctx.ob('complete', 'the list that is registered', ok, f.rel, f.q, ev.line if 'line' in ev.d else f.line, 'a program is registered although %s' % why, None, 'list')
    if not n:
        ctx.ob('complete', 'registration', False, f.rel, f.q, f.line, 'a program is never registered', None, 'never')


def unwrap(t):
    while t is not None and t.op in ('init', 'built', 'moved') and isinstance(t.a[-1], T):
        t = t.a[-1]
    return t


def parts(t, acc=None):
    acc = [] if acc is None else acc
    acc.append(t)
    for a in t.a:
        if isinstance(a, T):
            parts(a, acc)
    return acc


def derived(t, loc):
    return t is loc or t is mk('init', loc) or t.op in ('init', 'built', 'copy') and any(derived(x, loc) for x in t.a if isinstance(x, T))


def kernels(ctx, p, C, MAP, MTX):
    for f in sorted((x for x in p.fns.values() if x.q == NS + 'KernelProvider::get'), key=lambda x: x.line):
        I, ends = paths(C, p, f)
        for k, s, v in ends:
            if k != 'r':
                continue
            po = [ev for ev in s.events() if ev.k == 'pairout' and ev.first.op == 'clkern']
            if not po:
                raise AnalysisError('what KernelProvider::get returns was not understood')
            ev = po[-1]
            pr = ev.first.a[0]
            pi = idx_of(pr)
            sec = ev.second
            mi = lock_of(sec, MTX)
            ctx.ob('kernel', f.id, pi is not None and keyed(pr, MAP), f.rel, f.q, f.line, 'the kernel is not made from the registered program (%s)' % show(pr), None, 'program')
            ctx.ob('kernel', 'lock of ' + f.id, mi is not None and mi is pi, f.rel, f.q, f.line, 'the kernel is handed out with the lock %s' % show(sec), None, 'lock')
            if len(f.params) == 2:
                nm = ev.first.a[1]
                okn = any(f.params[1]['n'] in show(x) for x in parts(nm))
                ctx.ob('kernel', 'name of ' + f.id, okn, f.rel, f.q, f.line, 'the kernel made is %s, not the one asked for' % show(nm), None, 'name')


def reloads(ctx, p, C, MAP, DEV, MTX, index, count, ints):
    for name in ('load_devices', 'filter_devices'):
        f = [x for x in p.fns.values() if x.q == NS + 'DeviceProvider::' + name][0]
        I, ends = paths(C, p, f)
        for k, s, v in ends:
            dch = changed_under(s, DEV)
            if k == 't':
                other = changed_under(s, MTX) + changed_under(s, MAP)
                ctx.ob('reload', '%s: %s' % (name, str(v)[:70]), not dch and not changed_under(s, MTX), f.rel, f.q, getattr(v, 'line', f.line),
                       'when %s fails (%s at line %s) it leaves %s changed' % (name, v.type, v.line, show((dch or other or [DEV])[0])), None, name + ':error')
                continue
            dv = s.mem.get(DEV, DEV)
            mp = s.mem.get(MAP)
            ctx.ob('reload', name + ': programs', mp is not None and mp.op == 'zero', f.rel, f.q, f.line, '%s leaves programs of the old devices registered' % name, None, name + ':programs')
            evs = s.events()
            if count is not None:
                cv, iv = s.mem.get(count), s.mem.get(index)
                okc = cv is not None and (cv is mk_len(dv) or s.facts.decide(eq(cv, mk_len(dv))) is True)
                ctx.ob('reload', name + ': count', okc, f.rel, f.q, f.line, 'after %s the number of devices is %s' % (name, show(cv) if cv is not None else 'unchanged'), None, name + ':count')
                ctx.ob('reload', name + ': index', iv is ZERO, f.rel, f.q, f.line, 'after %s the index is %s' % (name, show(iv) if iv is not None else 'unchanged'), None, name + ':index')
            mv = s.mem.get(MTX)
            if mv is not None and mv.op == 'ofsize':
                okm = mv.a[0] is mk_len(dv) or s.facts.decide(le(mk_len(dv), mv.a[0])) is True
            elif mv is None or mv is MTX or mv is mk('init', MTX):
                okm = subset(s, DEV, dv)
            else:
                okm = False
            ctx.ob('reload', name + ': locks', okm, f.rel, f.q, f.line, 'after %s there may be fewer locks than devices' % name, None, name + ':locks')
            if name == 'filter_devices':
                filt(ctx, C, f, s, DEV)


def pushes(s, DEV):
    """Loops over the old devices, with for each path of a round the number of devices kept."""
    for l in s.events():
        if l.k == 'loop' and l.trips.op == 'len' and derived(l.trips.a[0], DEV):
            yield l, [(st2, [x for x in evs if x.k == 'push' and 'Device' in str(x.d.get('t', 'Device'))]) for kd, evs, st2 in l.body if kd == 'cont']


def subset(s, DEV, dv):
    if dv is DEV or dv is mk('init', DEV):
        return True
    ls = list(pushes(s, DEV))
    return any(all(len(x) <= 1 for st2, x in alts) and any(x for st2, x in alts) for l, alts in ls)


def filt(ctx, C, f, s, DEV):
    ls = [(l, a) for l, a in pushes(s, DEV) if any(x for _, x in a)]
    if not ls:
        raise AnalysisError('the filter is not a loop over the devices')
    l, alts = ls[0]
    for st2, xs in alts:
        t = [(t, b) for t, b in st2.facts.truths.items() if t.op == 'matches']
        t += [(y, not b) for t_, b in st2.facts.truths.items() if t_.op == 'eq0' for y in t_.a if isinstance(y, T) and y.op == 'matches']
        if not t:
            ctx.ob('filter', 'one device', False, f.rel, f.q, f.line, 'devices are %s whatever their name' % ('kept' if xs else 'dropped'), None, 'decided')
            continue
        m, b = t[-1]
        ok = b is bool(xs)
        own = any(x.op == 'devname' and any(y.op in ('at', 'el') and y.a[1] is l.kvar for y in parts(x)) for x in parts(m))
        if xs:
            pv = xs[0].val if xs[0].val is not None and not isloc(xs[0].val) else xs[0].v.get('') if isinstance(xs[0].v, dict) else xs[0].v
            ok = ok and pv is not None and any(y.op in ('at', 'el') and y.a[1] is l.kvar and derived(y.a[0], DEV) for y in parts(pv))
        ctx.ob('filter', 'one device, %s' % ('kept' if xs else 'dropped'), ok, f.rel, f.q, f.line, 'a device is %s although its name %s' % ('kept' if xs else 'dropped', 'matches' if b else 'does not match'), None, 'kept')
    if any(kd in ('b', 'r') for kd, evs, st2 in l.body):
        ctx.ob('filter', 'all devices', False, f.rel, f.q, f.line, 'the filter can stop before the last device', None, 'all')


def users(ctx):
    p = ctx.program(prog.load([(x, 'ocl') for x in ('src/hzip_core/models/paeth.cpp', 'src/hzip_core/preprocessor/color.cpp', 'src/hzip_codec/sharingan/state_transition.cpp')]))
    reg, ask = {}, []
    for f in p.fns.values():
        if not f.rel.startswith('src/'):
            continue
        for x in walk(f.body):
            if x['k'] != 'call' or not x.get('args'):
                continue
            q = x.get('q') or ''
            if q not in (NS + 'ProgramProvider::register_program', NS + 'KernelProvider::get', NS + 'ProgramProvider::get'):
                continue
            lit = [y.get('v', y.get('s')) for y in walk(x['args'][0]) if y['k'] == 'str']
            if not lit:
                continue
            if q.endswith('register_program'):
                reg.setdefault(lit[0], f)
            else:
                ask.append((lit[0], f, x['l']))
            ctx.analysed(f)
    for n, f, l in ask:
        ctx.ob('known', '%s in %s' % (n, f.q), n in reg, f.rel, f.q, l, 'the program %s is asked for but never registered' % n, None, n)
