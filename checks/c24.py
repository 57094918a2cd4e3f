"""Every path of the archive provider is explored, with failures of opening and loading an archive. The state remembers which archive
object was opened for which key, whether it was loaded and whether the map of open archives was consulted for the key; the map may
receive only a loaded archive, under the key it was asked for and under which none was found, and the mutex is held without interruption
from the question to the entry. What is returned is the entry of the map. Closing takes each entry of the map, closes it once and leaves
none behind that could be closed again."""
TECHNIQUE = 'typestate exploration of every path, with exceptions at opening and loading'
NOTE = 'All paths and histories: the map may hold anything at the start. Two spellings of a path are one key if std::filesystem says so.'

from hz import engine, prog
from hz.extract import AnalysisError
from hz.engine import Exc, isloc
from hz.prog import rel, walk
from hz.terms import *

UNITS = [('src/hzip_network/api/providers/archive_provider.cpp', 'cpu')]
CLS = 'hzapi::ArchiveProvider'
STDEXC = 'std::exception'
ARG = mk('obj', 'path')
NORMAL = ('weakly_canonical', 'canonical', 'absolute', 'lexically_normal', 'relative')


class C(engine.Client):
    def __init__(self):
        self.fns = set()

    def want_inline(self, fn, st):
        r = fn.rel.startswith('src/hzip_network/api/providers/')
        if r:
            self.fns.add(fn)
        return r

    def throw(self, st, e, fr, out, what):
        out.append(('t', st.copy(), Exc(STDEXC, None, e.get('l', 0), rel(fr.file), fr.name, what)))

    def call(self, I, e, name, st, obj, args, fr, out):
        if e.get('cq') == 'HZ_Archive' and obj is not None and e.get('n'):
            self.throw(st, e, fr, out, e['n'])
            I.emit(st, 'op', e, fr, n=e['n'], o=obj)
            return [(st, I.result(e, name, st) if e.get('t') is not None and e['t'].c != 'void' else ZERO)]
        return None

    def on_read(self, I, st, loc, e, fr):
        if e.get('n') in ('contains', 'count', 'find', 'at') and any(x == e.get('cq') for x in ('std::unordered_map', 'std::map')):
            I.emit(st, 'mapq', e, fr, m=loc)


def norm(t):
    """The string or path a key was made from, and whether it went through a normalisation."""
    n = False
    while True:
        if t.op == 'fn' and str(t.a[0]).split('::')[-1] in NORMAL:
            n = True
            t = t.a[1]
        elif t.op in ('path', 'strof', 'cstr', 'some', 'box', 'init') and t.a and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.op == 'fn' and str(t.a[0]).split('::')[-1] in ('string', 'c_str', 'native', 'path', 'generic_string', 'str') and len(t.a) > 1:
            t = t.a[1]
        else:
            return t, n


def run(ctx):
    ctx.rule('asked', 'the map is asked for the path before an archive is opened', 1)
    ctx.rule('spelling', 'the key is a normal form of the path', 1)
    ctx.rule('same-key', 'an archive is entered under the key that was asked for, and opened by that path', 1)
    ctx.rule('loaded', 'only loaded archives are in the map, also when opening or loading fails', 2)
    ctx.rule('uninterrupted', 'the mutex is held from the question to the entry', 1)
    ctx.rule('returned', 'what is returned is the archive in the map', 2)
    ctx.rule('closed-once', 'shutting down closes each archive in the map once and removes it', 2)
    p = prog.load(UNITS)
    ctx.program(p)
    cl = C()
    I = engine.Interp(p, cl)
    provide(ctx, p, I)
    close(ctx, p, I)
    ctx.analysed(*sorted(cl.fns | {p.one(CLS + '::provide'), p.one(CLS + '::close')}, key=lambda f: f.q))
    ctx.assume('an archive constructed with a path opens that path, and load() brings it into use or raises (C05, C11)')


def path_of(evs):
    return ['%s:%s %s' % (e.file, e.line, e.k) for e in evs]


def provide(ctx, p, I):
    f = p.one(CLS + '::provide')
    outs = I.run(f, None, mk('obj', 'provider'))
    arg = mk('obj', 'arg:' + f.params[0]['n'])
    for kind, s, v in outs:
        evs = s.events()
        at = dict(file=f.rel, func=f.q, line=f.line)
        pt = path_of(evs)
        held = 0
        opened, loaded, entered = {}, {}, {}
        asked = []
        spell = None
        for e in evs:
            where = dict(file=e.file, func=e.fn, line=e.line)
            if e.k in ('lock', 'unlock') and (e.get('kind') or '') in ('mutex', 'scoped', 'unique', 'recursive', None, ''):
                held += 1 if e.k == 'lock' else -1
                if e.k == 'unlock':
                    asked = []
                    if kind == 'r' and entered:
                        early = [k for k in entered if not any(base_obj(x) in loaded for x in opened)]
                        ctx.ob('loaded', 'entry when the mutex is given up', not early, msg='the map holds an archive that is not loaded when the mutex is given up', path=pt, detail='early', **where)
            elif e.k == 'mapq':
                asked.append(e.m)
            elif e.k == 'construct' and 'HZ_Archive' in str(e.get('cls')):
                opened[e.obj] = (e.args[0] if e.get('args') else None, e)
            elif e.k == 'op' and e.n == 'load':
                loaded[base(e.o)] = e
            elif e.k in ('mapins', 'mapw'):
                v0 = e.get('new') if e.k == 'mapw' else e.get('val')
                entered[e.key] = (e, v0)
                ctx.ob('uninterrupted', 'entry of %s' % show(e.key)[:60], held > 0, msg='an archive is entered into the map without the mutex', path=pt, detail='held', **where)
                known = e.get('known')
                ctx.ob('asked', 'entry', known is False and e.m in asked, msg='an archive is entered although the map may already have one for the path, or the mutex was released since the map was asked', path=pt, **where)
                k, n = norm(e.key)
                ctx.ob('spelling', 'key', n and mentions(k, arg), msg='the key %s is not a normal form of the path: two spellings of one path give two archives' % show(e.key), path=pt, **where)
        # what the map holds at the end
        for key, (e, v0) in entered.items():
            val = stored(I, s, e.m, key)
            o = base(val) if val is not None else None
            where = dict(file=e.file, func=e.fn, line=e.line)
            fresh = o in {base_obj(x) for x in opened}
            ok = fresh and o in loaded
            ctx.ob('loaded', 'entry of the map%s' % (' after %s was raised' % (v.what or v.type) if kind == 't' else ''), ok, msg='the map holds an archive that was not loaded%s' % (' (%s failed)' % v.what if kind == 't' else ''), path=pt, detail='loaded', **where)
            if fresh:
                a = next(x[0] for y, x in opened.items() if base_obj(y) is o)
                ok = a is not None and (a is key or norm(a)[0] is norm(key)[0])
                ctx.ob('same-key', 'entry', ok, msg='the archive opened with %s is entered under %s' % (show(a) if a is not None else '?', show(key)), path=pt, **where)
        if kind == 't':
            ctx.ob('loaded', 'failure', True, **at)
            continue
        mp = None
        o = base(v)
        news = {base_obj(x) for x in opened}
        if o in news:
            ok = any(base(stored(I, s, e.m, k)) is o for k, (e, _) in entered.items() if stored(I, s, e.m, k) is not None)
            msg = 'an archive is returned that is not in the map: the next request opens it again'
        else:
            ok = not news and from_map(v, arg)
            msg = 'what is returned is not the archive the map has for the path'
        ctx.ob('returned', 'archive', ok, msg=msg, path=pt, detail='map' if o in news else 'found', **at)


def base(v):
    if v is None:
        return None
    v = v.a[0] if v.op in ('ptr', 'some') and v.a else v
    while v.op in ('el', 'fld') and v.op == 'el':
        v = v.a[0]
    return v


base_obj = base


def mentions(t, x):
    return t is x or isinstance(t, T) and any(mentions(y, x) for y in t.a if isinstance(y, (T,)))


def stored(I, s, m, key):
    """Value of the map's entry."""
    m = m if isinstance(m, T) else None
    for l in (mk('mitem', m, key), mk('el', m, key)):
        if l in s.mem:
            return s.mem[l]
    for l, v in s.mem.items():
        if l.op in ('mitem', 'el') and len(l.a) > 1 and l.a[1] is key and v.op == 'ptr':
            return v
    return None


def from_map(v, arg):
    return mentions(v, arg) and any(x.op in ('mitem', 'at', 'init', 'fn') for x in [v] + [y for y in v.a if isinstance(y, T)])


def entry(t):
    """Map and key of the entry a location lies in."""
    while isinstance(t, T):
        if t.op in ('el', 'at', 'mitem') and len(t.a) > 1 and t.a[1].op in ('keyat', 'key', 'nextkey'):
            return t.a[0], t.a[1]
        t = t.a[0] if t.a else None
    return None, None


def closes(evs):
    return [e for e in evs if e.k == 'op' and e.n == 'close']


def close(ctx, p, I):
    MAP = the_map(p)
    f = p.one(CLS + '::close')
    outs = I.run(f, None, mk('obj', 'provider'))
    for kind, s, v in outs:
        if kind == 't':
            continue
        evs = s.events()
        pt = path_of(evs)
        at = dict(file=f.rel, func=f.q, line=f.line)
        held, gap = 0, False
        walked = []
        emptied = []
        for e in evs:
            where = dict(file=e.file, func=e.fn, line=e.line)
            if e.k in ('lock', 'unlock'):
                held += 1 if e.k == 'lock' else -1
                if not held and walked and not emptied:
                    gap = True
            elif e.k == 'op' and e.n == 'close':
                ctx.ob('closed-once', 'close', False, msg='an archive is closed outside a walk through the map', path=pt, detail='outside', **where)
            elif e.k in ('mapclear', 'maperase'):
                emptied.append(e)
            elif e.k == 'loop':
                bodies = [(k, x) for k, x, _ in e.body]
                if not any(closes(x) for k, x in bodies) and not any(y.k == 'loop' for k, x in bodies for y in x):
                    continue
                for k, x in bodies:
                    cl = closes(x)
                    if k == 't':
                        continue
                    ms = [entry(y.o) for y in cl]
                    ctx.ob('closed-once', 'step of the walk', len(cl) == 1 and k == 'cont' and ms[0][0] is not None, msg='%s in one step of the walk through the open archives' % ('an archive is passed over' if not cl else 'an archive is closed twice' if len(cl) > 1 else 'something that is not the entry is closed' if k == 'cont' else 'the walk is given up'), path=pt, detail='step:' + k, **where)
                    inner = [y for y in x if y.k == 'maperase']
                    if inner and ms and ms[0][1] is not None:
                        ctx.ob('closed-once', 'entry taken out', all(y.key is ms[0][1] for y in inner), msg='the entry taken out is not the one that was closed', path=pt, detail='erased', **where)
                        emptied.extend(inner)
                ctx.ob('closed-once', 'walk', bool(held), msg='the walk runs without the mutex', path=pt, detail='held', **where)
                ctx.ob('closed-once', 'end of the walk', e.get('exact') or empty(s, I, MAP), msg='the walk need not reach every open archive', path=pt, detail='all', **where)
                walked.append(e)
        gap = gap and bool(emptied)
        none = len(walked) == 0 and untouched_empty(s, MAP)
        ctx.ob('closed-once', 'every archive', len(walked) == 1 or none, msg='%d walks through the open archives' % len(walked), path=pt, detail='walks', **at)
        ctx.ob('closed-once', 'entries afterwards', empty(s, I, MAP) and not gap, msg='closed archives stay in the map: the next request gets a closed archive, and shutting down again closes them twice', path=pt, detail='emptied', **at)


def the_map(p):
    """Location of the provider's map of archives."""
    fs = [x for x in p.rec(CLS)['fields'] if 'map' in x['t'].n and 'HZ_Archive' in x['t'].n]
    if len(fs) != 1:
        raise AnalysisError('%d maps of archives in the provider' % len(fs))
    return mk('fld', mk('obj', 'provider'), fs[0]['n'])


def empty(s, I, MAP):
    """Nothing is in the map."""
    v = s.mem.get(MAP)
    if v is None:
        return s.facts.decide(eq(mk_len(MAP), ZERO)) is True
    return v.op == 'zero' or s.facts.decide(eq(mk_len(v), ZERO)) is True


def untouched_empty(s, MAP):
    return s.facts.decide(eq(mk_len(MAP), ZERO)) is True
