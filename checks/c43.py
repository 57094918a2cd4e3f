"""Every function of the JPEG interface that uses libjpeg is analysed on all its paths with its helpers analysed inside it. Each library
object carries its phase (fresh, created, source attached, header read, coefficients read, finished, destroyed; for writing: created,
defaults set, destination attached, coefficients given, finished, destroyed); each library call and each access to a field of the object,
or to what its fields point to, is checked against the phase it needs. Block memory taken from an object is requested, realised, used
and still alive when the coefficients that refer to it are compressed. The loops that move coefficients are checked as an index map: the
block at row by, column bx of component ci -- for all three over their whole ranges -- is moved to or from entry by*width+bx of
component ci, and coefficient 8r+c is entry [r][c]."""
TECHNIQUE = 'typestate of the library objects over all paths, and an index map of the coefficient loops'
NOTE = 'That libjpeg itself behaves as documented is assumed; its default error manager ends the process on a malformed file.'

from hz import prog, engine
from hz.extract import AnalysisError, VERIF
from hz.prog import walk
from hz.terms import *

PH, OWN, TODO = mk('obj', 'c43:phase'), mk('obj', 'c43:memory'), mk('obj', 'c43:unfinished')
DEC = ['created', 'source', 'header', 'coefficients', 'finished', 'destroyed']
# call -> (phases it may be made in, phase after it)
CALLS = {
    'jpeg_read_header': ({'source'}, 'header'),
    'jpeg_read_coefficients': ({'header'}, 'coefficients'),
    'jpeg_finish_decompress': ({'coefficients', 'started'}, 'finished'),
    'jpeg_start_decompress': ({'header'}, 'started'),
    'jpeg_read_scanlines': ({'started'}, 'started'),
    'jpeg_abort_decompress': ({'created', 'source', 'header', 'coefficients', 'started', 'finished'}, 'created'),
    'jpeg_destroy_decompress': ({'created', 'source', 'header', 'coefficients', 'started', 'finished'}, 'destroyed'),
    'jpeg_set_defaults': ({'created', 'dest'}, 'defaults'),
    'jpeg_set_colorspace': ({'defaults', 'ready'}, None),
    'jpeg_write_coefficients': ({'ready'}, 'written'),
    'jpeg_start_compress': ({'ready'}, 'written'),
    'jpeg_finish_compress': ({'written'}, 'finished'),
    'jpeg_abort_compress': ({'created', 'defaults', 'dest', 'ready', 'written', 'finished'}, 'created'),
    'jpeg_destroy_compress': ({'created', 'defaults', 'dest', 'ready', 'written', 'finished'}, 'destroyed'),
}
NEEDED = ('image_width', 'image_height', 'input_components', 'in_color_space')    # before jpeg_set_defaults
FREE_FIELDS = {'err', 'mem', 'client_data', 'is_decompressor', 'progress', 'src', 'dest'}


def member(e):
    x = e.get('ce') or {}
    while x and isinstance(x, dict) and x.get('k') != 'mem':
        x = x.get('e') or x.get('a') or {}
    return x.get('n') if x else None


def libcall(e):
    n = e.get('n') or member(e)
    return n if n and not e.get('cls') and (str(n).startswith('jpeg_') or str(n).endswith(('virt_barray', 'virt_arrays'))) else None


class Client(engine.Client):
    tracing = True
    merge = True
    max_paths = 3000

    def __init__(self, ctx, T_):
        self.ctx, self.T = ctx, T_
        self.fns = set()

    def want_inline(self, fn, st):
        r = fn.id in self.T and fn.body is not None
        if r:
            self.fns.add(fn)
        return r

    def phase(self, st, l):
        v = st.mem.get(mk('fld', PH, l))
        return v.a[0] if v is not None else None

    def objects(self, st):
        return [(l.a[1], v.a[0]) for l, v in st.mem.items() if l.op == 'fld' and l.a[0] is PH and v.op == 'str']

    def merge_key(self, st):
        return tuple(sorted((str(l), str(v)) for l, v in st.mem.items() if l.op == 'fld' and l.a[0] in (PH, OWN, TODO))) + \
            tuple((x.k, x.line) for x in st.events() if x.k in ('push', 'store'))

    def bad(self, rule, what, ok, e, fr, msg):
        self.ctx.ob(rule, what, ok, prog.rel(fr.file), fr.name, (e or {}).get('l', 0), msg)

    def opaque(self, I, e, name, st, obj, args, fr, out):
        return ()

    def call(self, I, e, name, st, obj, args, fr, out):
        n = libcall(e)
        if n is None:
            return None
        I.emit(st, 'lib', e, fr, name=n, args=args)
        if n == 'jpeg_std_error':
            return [(st, args[0])]
        if not args:
            return None
        v = args[0]
        for _ in range(3):
            if engine.isloc(v):
                v = I.load(st, v)
        l = I.deref(v)
        ph = self.phase(st, l)
        r = mk('lib', n, e['l'], *args)
        where = '%s at line %d' % (n, e['l'])
        if n in ('jpeg_CreateDecompress', 'jpeg_CreateCompress'):
            err = st.mem.get(mk('fld', l, 'err'))
            self.bad('created', where, err is not None and err is not NULL and err is not ZERO and not (err.op == 'uninit'), e, fr,
                     '%s before the error manager of the object is set' % n)
            self.bad('created', where, ph in (None, 'destroyed'), e, fr, '%s on an object that exists already' % n)
            early = sorted(x.a[1] for x in st.mem if x.op == 'fld' and x.a[0] is l and x.a[1] not in ('err', 'client_data', '#n'))
            self.bad('created', where, not early, e, fr, '%s clears the fields set before it: %s' % (n, ', '.join(map(str, early))))
            self.clear(I, st, l)
            st.mem[mk('fld', PH, l)] = mk('str', 'created')
            if n == 'jpeg_CreateCompress':
                st.mem[mk('fld', TODO, l)] = ONE
            return [(st, ZERO)]
        if n.endswith('_src'):
            self.phases(n, e, fr, ph, {'created', 'source', 'finished'})
            st.mem[mk('fld', PH, l)] = mk('str', 'source')
            return [(st, ZERO)]
        if n.endswith('_dest'):
            self.phases(n, e, fr, ph, {'created', 'defaults', 'finished'})
            st.mem[mk('fld', PH, l)] = mk('str', 'ready' if ph == 'defaults' else 'dest')
            return [(st, ZERO)]
        if n in CALLS:
            may, after = CALLS[n]
            self.phases(n, e, fr, ph, may)
            if n == 'jpeg_set_defaults':
                miss = [f for f in NEEDED if mk('fld', l, f) not in st.mem]
                self.bad('order', where, not miss, e, fr, '%s before %s' % (n, ', '.join(miss)))
                if ph == 'dest':
                    after = 'ready'
            if n == 'jpeg_write_coefficients':
                for o, w in self.memory(st):
                    self.bad('memory', where, w == 'realised', e, fr, 'the coefficients are handed over before their memory is realised')
            if n == 'jpeg_finish_compress':
                for o, w in self.memory(st):
                    self.bad('memory', where, self.phase(st, o) not in ('destroyed', 'finished', None), e, fr,
                             'the object that holds the coefficients is gone when they are compressed')
            st.mem[mk('fld', PH, l)] = mk('str', after or ph or 'created')
            if n in ('jpeg_finish_compress', 'jpeg_abort_compress'):
                st.mem[mk('fld', TODO, l)] = ZERO
            return [(st, r)]
        if n in ('request_virt_barray', 'realize_virt_arrays', 'access_virt_barray'):
            self.bad('memory', where, ph is not None and ph != 'destroyed', e, fr, '%s on an object that %s' % (n, 'was destroyed' if ph else 'was not created'))
            w = dict(self.memory(st)).get(l)
            if n == 'request_virt_barray':
                self.bad('memory', where, w != 'realised', e, fr, 'memory is requested after the requests were realised')
                st.mem[mk('fld', OWN, l)] = mk('str', 'requested')
            elif n == 'realize_virt_arrays':
                st.mem[mk('fld', OWN, l)] = mk('str', 'realised')
            else:
                self.bad('memory', where, w == 'realised' or ph == 'coefficients', e, fr, 'blocks are accessed before their memory is realised')
                done = [o for o, x in self.objects(st) if x == 'finished' and w is not None]
                self.bad('memory', where, not done, e, fr, 'blocks are accessed after the image was finished')
            return [(st, r)]
        if ph is not None:
            self.bad('order', where, ph != 'destroyed', e, fr, '%s on an object that was destroyed' % n)
        return [(st, r)]

    def phases(self, n, e, fr, ph, may):
        self.bad('order', '%s at line %d' % (n, e['l']), ph in may, e, fr,
                 '%s on an object that %s' % (n, 'was not created' if ph is None else 'is in phase "%s" (needed: %s)' % (ph, ' or '.join(sorted(may)))))

    def memory(self, st):
        return [(l.a[1], v.a[0]) for l, v in st.mem.items() if l.op == 'fld' and l.a[0] is OWN]

    def clear(self, I, st, l):
        keep = {x: v for x, v in st.mem.items() if x.op == 'fld' and x.a[0] is l and x.a[1] in ('err', 'client_data')}
        I.drop_under(st, l)
        st.mem[l] = mk('init', mk('obj', 'jpeg:' + str(l)))
        I.load(st, mk('fld', l, 'num_components')).nn = True
        st.mem.update(keep)

    def on_read(self, I, st, loc, e, fr):
        if loc.op == 'el' and loc.a[0].op == 'obj':
            I.emit(st, 'row', e or {'l': 0}, fr, loc=loc)
        if loc.op == 'fld' and loc.a[0] in (PH, OWN, TODO):
            return
        for o, ph in self.objects(st):
            if loc.op == 'fld' and loc.a[0] is o:
                what = 'field %s at line %d' % (loc.a[1], (e or {}).get('l', 0))
                self.bad('read', what, ph != 'destroyed', e, fr, 'field %s is read after the object was destroyed' % loc.a[1])
                self.bad('read', what, ph not in ('created', 'source') or loc.a[1] in FREE_FIELDS or mk('fld', o, loc.a[1]) in st.mem, e, fr,
                         'field %s is read before the header' % loc.a[1])
            elif ph in ('finished', 'destroyed'):
                base = mk('obj', 'jpeg:' + str(o))
                if I.mentions(loc, lambda t: t is base) and (ph == 'destroyed' or I.mentions(loc, lambda t: t.op in ('sel', 'fld') and t.a[1] == 'comp_info')):
                    self.bad('read', 'line %d' % (e or {}).get('l', 0), False, e, fr, 'what the object refers to is used after the object was %s' % ph)

    def on_write(self, I, st, loc, v, e, fr):
        r = root(loc)
        if r.op != 'var' and not (loc.op == 'fld' and loc.a[0] in (PH, OWN, TODO)):
            I.emit(st, 'store', e or {'l': 0}, fr, loc=loc, val=v)


# -- index map ------------------------------------------------------------------
def peel(t):
    while t is not None and t.op in ('trunc', 'init', 'mem', 'ptr', 'rf'):
        t = t.a[2] if t.op == 'trunc' else t.a[0]
    return t


def path(t):
    """Base and indices of an element."""
    idx = []
    t = peel(t)
    while t.op in ('at', 'el'):
        idx.insert(0, t.a[1])
        t = peel(t.a[0])
    while len(idx) > 0 and t.op == 'lib' and False:
        pass
    return t, idx


def fromlib(t, name):
    return t.op == 'lib' and t.a[0] == name


def bare(t):
    while t.op == 'trunc':
        t = t.a[2]
    return t


def field_of(t):
    """(pointer, field) of a field read through a pointer."""
    t = bare(t)
    return (t.a[0], t.a[1]) if t.op in ('sel', 'fld') else (None, None)


def moves(evs, loops=(), row=None):
    """Stores that move a coefficient to or from the memory of the library, with the loops around them."""
    for i, ev in enumerate(evs):
        if ev.k == 'loop':
            for kind, b, s in ev.body:
                yield from moves(b, loops + ((ev, kind, b),), row)
        elif ev.k == 'row':
            row = ev
        elif ev.k == 'store' and ev.val is not None:
            (lb, li), (vb, vi) = path(ev.loc), path(ev.val)
            if fromlib(vb, 'access_virt_barray'):
                yield 'read', ev, vb, vi, lb, li, loops, row
            elif fromlib(lb, 'access_virt_barray'):
                yield 'write', ev, lb, li, vb, vi, loops, row


def nests(evs, depth=0):
    for ev in evs:
        yield ev, depth
        if ev.k == 'loop':
            for kind, b, s in ev.body:
                yield from nests(b, depth + 1)


def lit8(r, cc):
    """8*r + c, as one index."""
    if r.op == 'div' and cc.op == 'mod' and r.a[0] is cc.a[0] and isc(r.a[1]) and r.a[1].a[0] == 8 and isc(cc.a[1]) and cc.a[1].a[0] == 8:
        return r.a[0]
    if r.op == 'shr' and cc.op == 'and' and isc(r.a[1]) and r.a[1].a[0] == 3 and r.a[0] in cc.a and any(isc(x) and x.a[0] == 7 for x in cc.a):
        return r.a[0]
    return add(scale(r, 8), cc)


def full(ev, kinds=('cont',)):
    return ev.get('exact') and all(k in kinds for k, b, s in ev.body)


def lockstep(ev, I, ptr):
    """Is this the component of this round: comp_info[k], or a pointer that starts at comp_info and advances once per round?"""
    t = peel(ptr)
    b, ix = t, []
    if t.op in ('el', 'at'):
        b, ix = peel(t.a[0]), [t.a[1]]
    def info(x):
        return I.mentions(x, lambda y: y.op in ('sel', 'fld') and y.a[1] == 'comp_info')
    if info(b) or any(v is b and info(l) for s in ev.starts for l, v in s.mem.items()):
        return I.mentions(ptr, lambda y: y is ev.kvar)
    for l, pre in ev.pre.items():
        hs = {s.mem.get(l) for s in ev.starts}
        h = hs.pop() if len(hs) == 1 else None
        if h is None or h.op != 'sym' or not I.mentions(ptr, lambda y: y is h):
            continue
        return pre is not None and info(pre) and not is_moved(pre) and all(s.mem.get(l) is not None and step1(s.mem[l], h) for k, b_, s in ev.body)
    return False


def is_moved(p_):
    return p_.op == 'lin' and p_.a[0] != 0 or p_.op == 'ptr' and p_.a[0].op == 'el' and p_.a[0].a[1] is not ZERO


def step1(v, h):
    if v.op == 'ptr' and v.a[0].op == 'el':
        i = v.a[0].a[1]
        return isc(i) and i.a[0] == 1
    d = sub(v, h)
    return isc(d) and d.a[0] == 1


def index_map(ctx, I, f, evs):
    got = set()
    for how, ev, lib, li, other, oi, loops, row in moves(evs):
        got.add(how)
        where = '%s at line %d' % (how, ev.line)

        def ob(ok, msg, what=where):
            ctx.ob('index', what, bool(ok), prog.rel(ev.file), ev.fn, ev.line, msg)
        ks = {x.kvar: x for x, k, b in loops}
        if len(li) != 3 or len(loops) < 4:
            ob(False, 'the coefficients are not moved block by block')
            continue
        arr, by, n = lib.a[3], lib.a[4], lib.a[5]
        ab, ai = path(arr)
        ob(isc(li[0]) and li[0].a[0] == 0 and isc(n) and n.a[0] == 1, 'one row of blocks is accessed, and its first row is used')
        ci, bx = ai[-1] if ai else None, li[1]
        L = [ks.get(bare(x)) if x is not None else None for x in (ci, by, bx)]
        ob(all(L), 'component, row and column of the block are not those of the loops')
        if not all(L):
            continue
        order = [x for x, k, b in loops]
        ob(order.index(L[0]) < order.index(L[1]) < order.index(L[2]), 'the blocks are not moved component by component, row by row')
        for lp, what in zip(L, ('component', 'row', 'column')):
            ob(full(lp), 'the loop at line %d does not go through every %s' % (lp.line, what), where + ': every ' + what)
        ptrs = []
        for lp, want in zip(L[1:], ('height_in_blocks', 'width_in_blocks')):
            p_, fld = field_of(lp.trips)
            ob(fld == want and p_ is not None and lockstep(L[0], I, p_), 'the loop at line %d is not bounded by %s of the component' % (lp.line, want), where + ': ' + want)
            ptrs.append(p_)
        ob(ptrs[0] is ptrs[1], 'the loops are bounded by different components')
        ob(I.mentions(L[0].trips, lambda y: y.op in ('sel', 'fld') and y.a[1] == 'num_components'), 'the loop at line %d does not go through the components' % L[0].line, where + ': components')
        # coefficients
        inner = [x for x in order[order.index(L[2]) + 1:]]
        tot = 1
        for x in inner:
            ok = full(x) and isc(x.trips)
            ob(ok, 'the loop at line %d does not go through the 64 coefficients' % x.line)
            tot = tot * x.trips.a[0] if ok else 0
        r, cc = None, oi[-1] if oi else None
        if len(oi) >= 2:
            r = oi[-2]
        if how == 'read' and row is not None and other.op == 'obj' and len(oi) == 1:
            r = row.loc.a[1]
        ob(tot == 64 and r is not None and cc is not None, 'the block has no row and column of coefficients')
        if r is not None and cc is not None:
            s = lit8(bare(r), bare(cc))
            ob(s is li[2] or eq(s, li[2]) is ONE or sub(s, li[2]) is ZERO, 'coefficient %s of the library is entry [%s][%s]' % (show(li[2]), show(r), show(cc)), where + ': coefficient')
        W = bare(L[2].trips)
        if how == 'write':
            if len(oi) < 4:
                ob(False, 'the block is not an entry of the list of its component')
                continue
            ob(bare(oi[-4]) is L[0].kvar, 'the blocks of another component are written')
            want = add(mul(L[1].kvar, W), L[2].kvar)
            d = sub(bare(oi[-3]), want)
            ob(d is ZERO or isc(d) and d.a[0] == 0 or same(bare(oi[-3]), want), 'the block is entry %s of its list, not row*width+column' % show(oi[-3]), where + ': block')
        else:
            body = [b for x, k, b in loops if x is L[2]][0]
            ps = [x for x in body if x.k == 'push']
            ob(len(ps) == 1, 'each block is appended once to a list (here: %d times)' % len(ps), where + ': appended')
            for x in ps:
                _, pi = path(x.c)
                ob(pi and bare(pi[-1]) is L[0].kvar, 'the block is appended to the list of another component', where + ': list')
    return got


def same(a, b):
    return strip_trunc(a) is strip_trunc(b)


def strip_trunc(t):
    if not isinstance(t, T):
        return t
    if t.op == 'trunc':
        return strip_trunc(t.a[2])
    if t.op == 'lin':
        r = c(t.a[0])
        for a, n in t.a[1]:
            r = add(r, scale(strip_trunc(a), n))
        return r
    if t.op == 'mul':
        r = ONE
        for a in t.a:
            r = mul(r, strip_trunc(a))
        return r
    return t


def sizes(ctx, I, evs):
    """Sizes in blocks computed for writing, and the memory requested for them."""
    for ev, depth in nests(evs):
        if ev.k == 'store' and ev.loc.op == 'fld' and ev.loc.a[1] in ('width_in_blocks', 'height_in_blocks') and ev.val is not None:
            w = ev.loc.a[1] == 'width_in_blocks'
            dims = ('image_width', 'h_samp_factor', 'image_height', 'v_samp_factor')
            names = {y for y in dims if I.mentions(ev.val, lambda t: t.op in ('sel', 'fld') and t.a[1] == y)}
            ctx.ob('size', '%s at line %d' % (ev.loc.a[1], ev.line), names == set(dims[:2] if w else dims[2:]) and ceils(ev.val), prog.rel(ev.file), ev.fn, ev.line,
                   '%s is not the number of blocks that cover the %s of the component' % (ev.loc.a[1], 'width' if w else 'height'))
        if ev.k == 'lib' and ev.name == 'request_virt_barray':
            for i, want, other in ((3, 'image_width', 'image_height'), (4, 'image_height', 'image_width')):
                a = ev.args[i]
                has = lambda n: I.mentions(a, lambda t: t.op in ('sel', 'fld') and t.a[1] in (n, n.replace('image_width', 'width_in_blocks').replace('image_height', 'height_in_blocks')))
                ctx.ob('size', 'argument %d of the request at line %d' % (i, ev.line), has(want) and not has(other), prog.rel(ev.file), ev.fn, ev.line,
                       'the memory of a component is not sized by its %s' % ('width' if i == 3 else 'height'))


def ceils(v):
    """(x + b - 1) / b, rounded down first or not."""
    t = bare(v)
    if t.op != 'div':
        return False
    b = t.a[1]
    k = lin(t.a[0])
    x = t.a[0]
    for a, n in (k[1].items() if isinstance(k[1], dict) else k[1]):
        if n == -1 and a.op == 'mod' and a.a[1] is b:
            x = add(x, a)       # x - x mod b
            if x is not a.a[0]:
                return False
    d = sub(x, sub(b, ONE))     # what is rounded up: a product, nothing else
    d = bare(d)
    k, items = lin(d)
    items = list(items.items() if isinstance(items, dict) else items)
    return k == 0 and len(items) == 1 and items[0][1] > 0


def run(ctx):
    ctx.rule('created', 'objects created with their error manager in place, once, before their fields are set', 6)
    ctx.rule('order', 'library calls made in the phase they need', 8)
    ctx.rule('memory', 'block memory requested, realised, used and alive until it is compressed', 6)
    ctx.rule('read', 'fields read while they are valid', 15)
    ctx.rule('index', 'coefficients moved to and from their own place', 20)
    ctx.rule('size', 'sizes of the components and of the memory requested for them', 4)
    ctx.rule('finished', 'images that are written are finished', 1)
    p = ctx.program(prog.load([(VERIF + '/drivers/jpeg.cpp', 'cpu')]))
    own = {f.id: f for f in p.fns.values() if f.rel.startswith('src/') and f.body is not None and '/errors/' not in f.rel}
    calls = {i: {x.get('fn') for x in walk([f.body, f.inits]) if isinstance(x, dict) and x.get('fn')} for i, f in own.items()}
    users = {i for i, f in own.items() if any(isinstance(x, dict) and x.get('k') == 'call' and libcall(x) for x in walk(f.body))}
    roots = [own[i] for i in sorted(users) if not any(i in calls[j] for j in own if j != i)]
    # helpers of a user are roots only through it
    more = set(users)
    while True:
        m = {i for i in own if i not in more and calls[i] & more}
        if not m:
            break
        more |= m
    roots = [own[i] for i in sorted(more) if not any(i in calls[j] for j in more if j != i)]
    got = set()
    for f in roots:
        cl = Client(ctx, own)
        I = engine.Interp(p, cl)
        n = 0
        for k, s, v in I.run(f):
            n += 1
            evs = s.events()
            got |= index_map(ctx, I, f, evs)
            sizes(ctx, I, evs)
            if k == 'r':
                for l, v in s.mem.items():
                    if l.op == 'fld' and l.a[0] is TODO:
                        ctx.ob('finished', 'outcome %d of %s' % (n, f.q), v is ZERO, f.rel, f.q, f.line, 'an image is begun and not finished')
        ctx.analysed(*sorted(cl.fns | {f}, key=lambda f: f.q))
    for how in ('read', 'write'):
        if how not in got:
            raise AnalysisError('no loop that %ss coefficients was recognised' % how)
