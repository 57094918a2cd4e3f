"""The functions that read an image through libpng are analysed on every path with the library's answers as unknowns. (1) The callback
given to the library as source of bytes, and every other use of the source buffer, reads within the buffer on every path, given and
keeping position <= size, and stores exactly the bytes asked for. (2) At png_read_image every row points to at least as many bytes as a
row of the transformed image has, in memory that is still owned. (3) Every later access to a row, to the plane buffer and to the palette
is inside its allocation: the largest index over all enclosing loops, a polynomial of width, height, channels and row size, is compared
with the allocation size using only what the library guarantees for the transformations requested on that path. (4) The error callback
never returns; questions are asked in an order in which the answers describe the rows."""
TECHNIQUE = 'abstract interpretation of the reader with symbolic library answers; polynomial bounds over nested loops; class invariant for the source'
NOTE = ('Library guarantees used: rows after png_read_update_info have at least width*channels samples of one byte (two at depth 16) when '
        'samples are unpacked; the palette has as many entries as reported. Memory safety of libpng itself is not analysed. '
        'The unused write side is outside.')

from hz import prog, engine
from hz.extract import AnalysisError
from hz.prog import walk
from hz.terms import *

PHASE = mk('obj', 'c44:phase')
GETTERS = {'png_get_image_width': 'width', 'png_get_image_height': 'height', 'png_get_bit_depth': 'depth', 'png_get_channels': 'channels',
           'png_get_rowbytes': 'rowbytes', 'png_get_color_type': 'color', 'png_get_interlace_type': 'interlace',
           'png_get_compression_type': 'compression', 'png_get_filter_type': 'filter'}
# Requests after which the numbers of samples and bytes in a row are what they were.
NEUTRAL = set('''png_set_read_fn png_set_sig_bytes png_set_interlace_handling png_set_packswap png_set_swap png_set_bgr png_set_swap_alpha
  png_set_invert_mono png_set_invert_alpha png_set_error_fn png_set_crc_action png_set_user_limits png_set_mem_fn png_set_read_status_fn
  png_set_keep_unknown_chunks png_set_chunk_malloc_max png_set_chunk_cache_max png_set_benign_errors png_set_option png_set_gamma
  png_set_shift png_set_check_for_invalid_index'''.split())
READERS = ('png_read_image', 'png_read_row', 'png_read_rows')
LIMIT = 2 ** 62


def flag(n):
    return mk('fld', PHASE, n)


class Client(engine.Client):
    keep_loops = True

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.fns = set()
        self.getters = {}       # term -> (what, before/after the transformations took effect)
        self.callbacks = {}
        self.decls = {}

    def want_inline(self, fn, st):
        r = fn.rel.startswith('src/')
        if r:
            self.fns.add(fn)
        return r

    def on_decl(self, I, st, v, loc, fr):
        t = v.get('t')
        self.decls[loc] = t
        if t is not None and t.c == 'arr' and t.len is not None:
            st.mem[mk('fld', loc, '#n')] = c(t.len)

    def acc(self, I, st, loc, e, fr, w):
        if loc.op == 'el' and loc.a[0] is not PHASE:
            I.emit(st, 'acc', e or {}, fr, loc=loc, w=w, state=st.copy())

    def on_read(self, I, st, loc, e, fr):
        self.acc(I, st, loc, e, fr, 0)
        if loc.op == 'fld' and loc.a[0] is not PHASE:
            self.invariant(I, st, loc.a[0])

    def on_write(self, I, st, loc, v, e, fr):
        self.acc(I, st, loc, e, fr, 1)

    # -- class invariant: position <= size ------------------------------------
    def invariant(self, I, st, o):
        pair = self.sources.get(o.a[1]) if o.op == 'fld' else None
        if pair is None and o.op == 'deref':
            t = self.typeof(I, o.a[0])
            pair = self.bytype.get(t)
        if pair is None:
            return
        b, k = mk('fld', o, pair[0]), mk('fld', o, pair[1])
        if mk('fld', PHASE, ('known', o)) in st.mem:
            return
        st.mem[mk('fld', PHASE, ('known', o))] = ONE
        bv, kv = I.load(st, b), I.load(st, k)
        n = I.lib.plen(st, bv)
        st.facts.assume(le(kv, n), True)
        st.facts.assume(le(n, c(LIMIT)), True)

    def moved(self, I, st):
        """The library has called back for bytes: the position is another one, still within the buffer."""
        for l in [l for l in st.mem if l.op == 'fld' and l.a[0] is PHASE and isinstance(l.a[1], tuple)]:
            o = l.a[1][1]
            pair = self.sources.get(o.a[1]) if o.op == 'fld' else None
            if pair is not None:
                del st.mem[l]
                kept = st.facts.decide(le(I.load(st, mk('fld', o, pair[1])), I.lib.plen(st, I.load(st, mk('fld', o, pair[0])))))
                v = I.fresh('position')
                v.nn = True
                st.mem[mk('fld', o, pair[1])] = v
                if kept is True:
                    self.invariant(I, st, o)

    def typeof(self, I, v):
        t = I.types_of.get(v)
        if t is None:
            return None
        t = t.p if t.c in ('ptr', 'ref') and t.p is not None else t
        return (t.rec or t.q or t.s or '').split('::')[-1]

    def call(self, I, e, name, st, obj, args, fr, out):
        n = e.get('n') or ''
        if e.get('cq') or not n.startswith(('png_', 'mem')):
            return None
        raw = [I.val(st, a) if a is not None else None for a in args]
        get = lambda k: st.mem.get(flag(k)) is not None
        put = lambda k: st.mem.__setitem__(flag(k), ONE)
        if n in GETTERS:
            self.order(e, fr, get('info'), '%s is asked before the header has been read' % n)
            return [(st, self.answer(I, st, GETTERS[n], e['t']))]
        if n == 'png_get_IHDR':
            self.order(e, fr, get('info'), '%s is asked before the header has been read' % n)
            for i, what in enumerate(('width', 'height', 'depth', 'color', 'interlace', 'compression', 'filter')):
                a = raw[i + 2] if i + 2 < len(raw) else None
                if a is not None and a is not NULL and a is not ZERO:
                    I.store(st, I.deref(a), self.answer(I, st, what, None), e, fr, quiet=True)
            return [(st, ONE)]
        if n == 'png_get_PLTE':
            self.order(e, fr, get('info'), '%s is asked before the header has been read' % n)
            s2 = st.copy()
            o, m = I.newobj('palette'), I.fresh('entries')
            m.nn = True
            s2.mem[mk('fld', o, '#n')] = m
            s2.facts.assume(le(m, c(256)), True)
            s2.facts.assume(le(ZERO, m), True)
            I.store(s2, I.deref(raw[2]), mk('ptr', mk('el', o, ZERO)), e, fr, quiet=True)
            I.store(s2, I.deref(raw[3]), m, e, fr, quiet=True)
            return [(s2, c(8)), (st, ZERO)]
        if n == 'png_get_io_ptr':
            v = mk('fn', 'io')
            v.nn = True
            I.types_of[v] = e['t']
            return [(st, v)]
        if n in ('png_create_read_struct', 'png_create_read_struct_2', 'png_set_error_fn'):
            self.callback('error', e, fr, 2)
        if n == 'png_set_read_fn':
            self.callback('read', e, fr, 2)
            return [(st, ZERO)]
        if n == 'png_sig_cmp':
            I.emit(st, 'span', e, fr, ptr=raw[0], n=add(raw[1], raw[2]), w=0, state=st.copy())
        if n in ('memcpy', 'memmove') and len(raw) == 3:
            I.emit(st, 'span', e, fr, ptr=raw[0], n=raw[2], w=1, state=st.copy())
            I.emit(st, 'span', e, fr, ptr=raw[1], n=raw[2], w=0, state=st.copy())
            return None
        if n.startswith('png_read') or n == 'png_start_read_image':
            self.moved(I, st)
        if n == 'png_read_info':
            put('info')
        elif n in ('png_read_update_info', 'png_start_read_image'):
            self.order(e, fr, get('info'), '%s comes before the header has been read' % n)
            put('update')
        elif n == 'png_set_packing' or n == 'png_set_expand':
            self.late(e, fr, get('update'), n)
            put('unpacked')
            if n != 'png_set_packing':
                put('shape')
        elif n.startswith('png_set_') and n not in NEUTRAL:
            self.late(e, fr, get('update'), n)
            put('shape')
        elif n == 'png_set_interlace_handling':
            self.late(e, fr, get('update'), n)
            put('interlace')
        elif n in READERS:
            self.ctx.ob('order', '%s at line %d' % (n, e['l']), get('update'), prog.rel(fr.file), fr.name, e['l'],
                        'rows are read although the transformations have not taken effect (png_read_update_info)')
            I.emit(st, 'rows', e, fr, n=n, args=raw, state=st.copy())
            return [(st, ZERO)]
        return None

    def order(self, e, fr, ok, msg):
        self.ctx.ob('order', '%s at line %d' % (e['n'], e['l']), ok, prog.rel(fr.file), fr.name, e['l'], msg)

    def late(self, e, fr, late, n):
        self.order(e, fr, not late, '%s is requested after the row size was fixed by png_read_update_info' % n)

    def answer(self, I, st, what, ty):
        after = 'post' if flag('update') in st.mem else 'pre'
        v = mk('fn', what, after)
        v.nn = True
        if ty is not None:
            I.types_of[v] = ty
        self.getters[v] = (what, after)
        st.facts.assume(le(v, c(2 ** 32 if what != 'rowbytes' else 2 ** 36)), True)
        return v

    def callback(self, kind, e, fr, i):
        a = e['args'][i] if i < len(e['args']) else None
        fn = [x for x in walk(a) if isinstance(x, dict) and x.get('k') == 'ref' and x.get('fn')]
        lam = [x for x in walk(a) if isinstance(x, dict) and x.get('k') == 'lambda']
        fid = fn[0]['fn'] if fn else None
        self.callbacks.setdefault(kind, []).append((fid, lam[0] if lam else None, e, prog.rel(fr.file), fr.name))

    def opaque(self, I, e, name, st, obj, args, fr, out):
        if (e.get('n') or '') == 'operator=' and obj is not None and engine.isloc(obj):
            self.acc(I, st, obj, e, fr, 1)
            if args and args[0] is not None and engine.isloc(args[0]):
                self.acc(I, st, args[0], e, fr, 0)
        return ()


# ---- polynomials --------------------------------------------------------------
def poly(t):
    """term -> {tuple of factors: coefficient}"""
    k, its = lin(t)
    d = {(): k} if k else {}
    for a, n in its:
        m = tuple(sorted(a.a, key=lambda x: x.id)) if a.op == 'mul' else (a,)
        d[m] = d.get(m, 0) + n
    return d


def padd(a, b, k=1):
    d = dict(a)
    for m, n in b.items():
        d[m] = d.get(m, 0) + k * n
    return {m: n for m, n in d.items() if n}


def pmul(a, b):
    d = {}
    for m, x in a.items():
        for n, y in b.items():
            q = tuple(sorted(m + n, key=lambda z: z.id))
            d[q] = d.get(q, 0) + x * y
    return {m: n for m, n in d.items() if n}


def psub(a, v, r):
    """a with r for the factor v"""
    d = {}
    for m, n in a.items():
        q = {tuple(x for x in m if x is not v): n}
        for _ in range(sum(1 for x in m if x is v)):
            q = pmul(q, r)
        d = padd(d, q)
    return d


def pshow(a):
    return ' + '.join(sorted('%s%s' % ('' if n == 1 and m else n, ''.join('*' + show(x) for x in m) if n != 1 else '*'.join(show(x) for x in m)) for m, n in a.items())) or '0'


def extreme(a, loops, sign):
    """Largest (sign=1) or smallest value of a over the loop variables, or None when a variable has terms of both signs."""
    for k, trips in reversed(loops):
        signs = {n > 0 for m, n in a.items() if k in m}
        if len(signs) > 1:
            return None
        if signs and any(sum(1 for x in m if x is k) > 1 for m in a):
            return None
        if signs:
            up = signs.pop() == (sign > 0)
            a = psub(a, k, padd(poly(trips), {(): -1}) if up else {})
    return a


class Judge:
    def __init__(self, ctx, I, cl, f):
        self.ctx, self.I, self.cl, self.f = ctx, I, cl, f
        self.last, self.made = {}, {}
        self.sets = {}      # value of a container -> (count, length of what its elements point to, note)

    def lower(self, a, st):
        """a with the row size replaced by what it is at least; only where it counts positively."""
        for v, (what, after) in list(self.cl.getters.items()):
            if what != 'rowbytes' or not any(v in m for m in a):
                continue
            if any(v in m and n < 0 for m, n in a.items()):
                continue
            b = self.rowmin(v, after, st)
            if b is not None:
                a = psub(a, v, b)
        return a

    def rowmin(self, v, after, st):
        has = lambda k: flag(k) in st.mem
        if has('update') and after == 'pre' and (has('unpacked') or has('shape')):
            return None
        # before a change of shape the header's numbers do not describe the rows
        src = 'post' if has('shape') else None
        for W in self.get('width'):
            for C in self.get('channels', src):
                for D in self.get('depth', src) or [None]:
                    k = 1
                    if D is not None and st.facts.decide(eq(D, c(16))) is True:
                        k = 2
                    elif not has('unpacked') and (D is None or st.facts.decide(le(c(8), D)) is not True):
                        continue
                    return pmul({(): k}, pmul(poly(W), poly(C)))
        return None

    def get(self, what, after=None):
        return [v for v, (w, a) in self.cl.getters.items() if w == what and (after is None or a == after)]

    def nonneg(self, a, loops, st):
        """Is a >= 0 wherever all loops run?"""
        if a is None:
            return False
        for b in (a, self.lower(a, st)):
            # a loop that runs has at least one round
            for _, t in loops:
                tp = poly(t)
                if len(tp) == 1:
                    (m, n), = tp.items()
                    if len(m) == 1 and n == 1:
                        b = psub(b, m[0], {m: 1, (): 1})
            if all(n >= 0 and all(x.nn for x in m) for m, n in b.items()):
                return True
        return False

    def size(self, st, base):
        """Number of elements at a base location."""
        n = st.mem.get(mk('fld', base, '#n'))
        if n is not None:
            return n
        if base.op == 'deref' or base.op == 'mem':
            v = base.a[0]
            x = self.element(v)
            if x is not None:
                return x
            return self.I.lib.plen(st, v)
        if base in self.made:
            return self.made[base]
        v = self.I.load(st, base)
        if v in self.sets:
            return self.sets[v][0]
        return mk_len(v)

    def element(self, v):
        """Length of what an element of a known set of pointers points to."""
        if v.op == 'at' and v.a[0] in self.sets:
            return self.sets[v.a[0]][1]
        return None

    def inside(self, st, n, lo, hi, loops):
        """0 <= lo and hi <= n"""
        d = st.facts.decide
        low = lo.nn or d(le(ZERO, lo)) is True or self.nonneg(extreme(poly(lo), loops, -1), loops, st)
        if not low:
            return False
        if d(le(hi, n)) is True:
            return True
        m = extreme(poly(hi), loops, 1)
        if m is None:
            return False
        nn = extreme(poly(n), loops, -1)
        return nn is not None and self.nonneg(padd(nn, m, -1), loops, st)

    def access(self, e, st, base, lo, hi, loops, w):
        n = self.size(st, base)
        ok = self.inside(st, n, lo, hi, loops)
        what = '%s of element %s of %s at line %d, size %s' % ('write' if w else 'read', show(lo), show(base), e.line, show(n))
        src = any('.%s' % x in show(base) for x in self.cl.sourcekeys)
        self.ctx.ob('source' if src else 'index', what, ok, prog.rel(e.file), e.fn, e.line, what + ': not shown to be inside')

    def events(self, evs, loops):
        for e in evs:
            if e.k == 'acc':
                base, i = e.loc.a
                self.access(e, e.state, base, i, add(i, ONE), loops, e.w)
            elif e.k == 'span':
                self.span(e, e.ptr, e.get('n'), loops)
            elif e.k == 'rows':
                self.rows(e, loops)
            elif e.k == 'loop':
                known = e.trips is not None and not self.I.mentions(e.trips, lambda t: t is e.kvar)
                ls = loops + [(e.kvar, e.trips)] if known else loops
                self.entered(e)
                for kind, evs2, s in e.body:
                    self.events(evs2, ls)
                if known:
                    self.filled(e, ls)

    def entered(self, e):
        """Containers a loop stores to without changing their size."""
        for loc, pre in e.pre.items():
            if pre is None or loc.op not in ('var', 'obj', 'fld'):
                continue
            olds = {s0.mem.get(loc) for s0 in e.starts}
            if len(olds) == 1 and None not in olds and all(same(s.mem.get(loc), next(iter(olds))) for _, _, s in e.body):
                old = olds.pop()
                n = e.pre.get(mk('fld', loc, '#n'))
                n = n if n is not None else self.sets[pre][0] if pre in self.sets else mk_len(pre)
                if old not in self.sets and n.op != 'len':
                    self.sets[old] = (n, None, None, ZERO)

    def span(self, e, ptr, n, loops):
        if ptr is None or ptr is NULL:
            return
        if ptr.op == 'lin':
            for x, k in ptr.a[1]:
                if k == 1 and (x.op == 'at' or x.op == 'sel' and x.a[1] in self.cl.sourcekeys):
                    i = sub(ptr, x)
                    self.access(e, e.state, mk('deref', x), i, add(i, n), loops, e.w)
                    return
        l = self.I.deref(ptr)
        base, i = l.a if l.op == 'el' else (l, ZERO)
        self.access(e, e.state, base, i, add(i, n), loops, e.w)

    def filled(self, e, loops):
        """Containers of pointers filled by a loop: by one push per round or by storing element k in round k."""
        I, outer = self.I, loops[:-1]
        conts = [(s, s0) for (kind, _, s), s0 in zip(e.body, e.starts) if kind == 'cont']
        if not conts or any(kind not in ('cont',) for kind, _, s in e.body if kind == 'break'):
            return
        for loc in {l for s, _ in conts for l in s.mem if l.op in ('var', 'obj', 'fld')}:
            got = []
            for s, s0 in conts:
                old, new = s0.mem.get(loc), s.mem.get(loc)
                if old is not None and new is not None and new.op == 'push' and new.a[0] is old:
                    got.append((old, new.a[1], s, 'push'))
                    continue
                el = s.mem.get(mk('el', loc, e.kvar))
                if el is not None and old is not None:
                    got.append((old, el, s, 'store'))
            if len(got) != len(conts) or len({(g[0], g[3]) for g in got}) != 1:
                continue
            lens = {self.pointed(s, v, loops, loc) for _, v, s, _ in got}
            owner = None
            for _, v, s, _ in got:
                owner = self.owner(v, s, e, loc) or owner
            if len(lens) != 1 or None in lens:
                continue
            pre = e.pre.get(loc) if e.get('pre') is not None else None
            n0 = e.pre.get(mk('fld', loc, '#n')) if e.get('pre') is not None else None
            n0 = n0 if n0 is not None else mk_len(pre) if pre is not None else None
            if n0 is None:
                continue
            key, trips = got[0][0], e.trips
            if trips.op == 'len' and trips.a[0] in self.sets:
                trips = self.sets[trips.a[0]][0]
            if got[0][3] == 'push':
                self.sets[key] = (add(n0, trips), lens.pop(), owner, ZERO if n0 is not ZERO else trips)
            else:
                self.sets[key] = (n0, lens.pop(), owner, trips)
            self.last[loc] = self.sets[key]
            for _, v, _, _ in got:
                if v.op == 'ptr' and v.a[0].op == 'el' and v.a[0].a[1] is ZERO:
                    self.made[v.a[0].a[0]] = self.sets[key][1]

    def owner(self, v, s, e, loc):
        """Who keeps the memory that is made in a round and pointed to by v: a container that outlives the loop, None if none is needed."""
        if v.op == 'at' and v.a[0] in self.sets:
            return next((l for l in e.pre if s.mem.get(l) is v.a[0]), None) or self.sets[v.a[0]][2]
        if v.op != 'ptr' or v.a[0].op != 'el' or v.a[0].a[0].op != 'obj':
            return None
        o = v.a[0].a[0]
        if any(x.mem.get(o) is not None for x in e.starts):
            return None     # made before the loop
        if not str(o.a[0]).startswith('ptr'):
            return None     # no counted memory
        owns = lambda l: any(x in str(getattr(self.cl.decls.get(l), 'n', '')) for x in ('rainman::ptr', '_ptr<'))
        if owns(loc):
            return loc
        for l in e.pre:
            x = s.mem.get(l)
            if owns(l) and x is not None and (x.op == 'push' and x.a[1] is v or s.mem.get(mk('el', l, e.kvar)) is v):
                return l
        return 'lost'

    def pointed(self, st, v, loops, loc):
        """Number of elements from a pointer on, in memory that outlives the round; smallest over the rounds."""
        if v.op == 'at' and v.a[0] in self.sets:
            return self.sets[v.a[0]][1]
        if v.op in ('var', 'obj', 'sym') and v in self.sets:
            return self.sets[v][1]
        if v.op == 'ptr' and v.a[0].op == 'el':
            o, off = v.a[0].a
            n = st.mem.get(mk('fld', o, '#n'))
            if n is None:
                return None
            rest = extreme(poly(sub(n, off)), loops[-1:], -1)
            if rest is None:
                return None
            t = ZERO
            for m, k in rest.items():
                x = c(k)
                for y in m:
                    x = mul(x, y)
                t = add(t, x)
            return t
        return None

    def rows(self, e, loops):
        I, st = self.I, e.state
        where = (prog.rel(e.file), e.fn, e.line)
        n, args = e.get('n'), e.args
        if n == 'png_read_row':
            for a in args[1:3]:
                if a is not None and a not in (NULL, ZERO):
                    self.rowlen(e, st, self.pointed(st, a, [], None) if a.op == 'ptr' else self.element(a), loops)
            return
        a = args[1]
        if a is None or a.op != 'ptr':
            self.ctx.ob('rows', 'rows at line %d' % e.line, False, *where, 'what the row pointers point to is not known')
            return
        base = a.a[0].a[0] if a.a[0].op == 'el' else a.a[0]
        val = I.load(st, base)
        s = self.sets.get(val) or (self.last.get(base) if val.op == 'fill' else None)
        if s is None:
            self.ctx.ob('rows', 'rows at line %d' % e.line, False, *where, 'no loop was found that makes each row pointer point to memory of its own')
            return
        count, length, owner, set_ = s
        self.ctx.ob('rows', 'owner of the rows at line %d' % e.line, owner is None or owner != 'lost' and owner in st.mem, *where,
                    'the memory of the rows is released before the library writes to it')
        need = args[2] if n == 'png_read_rows' else None
        hs = [need] if need is not None and n == 'png_read_rows' and len(args) > 3 else self.get('height')
        for what, x in (('row pointers', count), ('row pointers that were set', set_)):
            ok = any(st.facts.decide(le(h, x)) is True or x is h for h in hs)
            self.ctx.ob('rows', '%d: %s: %s' % (e.line, what, show(x)), ok, *where, 'there are %s %s for the %s rows the library writes' % (show(x), what, ' / '.join(show(h) for h in hs)))
        self.rowlen(e, st, length, loops)

    def rowlen(self, e, st, length, loops):
        where = (prog.rel(e.file), e.fn, e.line)
        post = self.get('rowbytes', 'post')
        same = not (flag('unpacked') in st.mem or flag('shape') in st.mem)
        if same:
            post = self.get('rowbytes')
        ok = length is not None and any(length is r or st.facts.decide(le(r, length)) is True or
                                        all(k >= 0 and all(x.nn for x in m) for m, k in padd(poly(length), poly(r), -1).items()) for r in post)
        self.ctx.ob('rows', 'row of %s bytes at line %d' % (show(length) if length is not None else '?', e.line), ok, *where,
                    'the library writes png_get_rowbytes() bytes of the transformed image to each row, but a row has room for %s'
                    % (show(length) if length is not None else 'an unknown number'))


def buffers(p, fns):
    """Records of the sources with one buffer and one position, as {field that holds one: pair}, {record: pair}."""
    byf, byt = {}, {}
    for q, r in p.records.items():
        fs = r.get('fields') or []
        b = [f['n'] for f in fs if (f['t'].q or f['t'].s or '').startswith(('rainman::ptr', 'std::vector', 'class rainman', 'class std::vector'))]
        k = [f['n'] for f in fs if f['t'].isint]
        if len(b) == 1 and len(k) == 1 and len(fs) == 2:
            byt[q.split('::')[-1]] = (b[0], k[0])
    for q, r in p.records.items():
        for f in r.get('fields') or []:
            t = f['t']
            n = (t.rec or t.q or t.s or '').split('::')[-1]
            if n in byt:
                byf[f['n']] = byt[n]
    return byf, byt


def run(ctx):
    ctx.rule('source', 'reads of the supplied bytes', 1)
    ctx.rule('kept', 'paths on which the position stays within the supplied bytes', 1)
    ctx.rule('exact', 'paths on which the source callback supplies all bytes asked for', 1)
    ctx.rule('rows', 'memory the library writes rows to', 2)
    ctx.rule('index', 'accesses to rows, planes, palette and local buffers', 6)
    ctx.rule('order', 'library calls in an order in which their answers describe the rows', 6)
    ctx.rule('raise', 'outcomes of the error callback', 1)
    ctx.assume('libpng writes exactly png_get_rowbytes() bytes per row after png_read_update_info, and does not modify other memory of the program',
               'rows have at least width*channels samples; one byte each once unpacked, two at bit depth 16',
               'a request for bytes from the library is for an existing buffer (less than 2^62 bytes)')
    p = ctx.program(prog.load([('src/hzip_core/preprocessor/png_bundle.cpp', 'cpu')]))
    calls = lambda f, names: any(isinstance(x, dict) and x.get('k') == 'call' and x.get('n') in names for x in walk([f.body, f.inits]))
    own = [f for f in p.fns.values() if f.rel.startswith('src/') and f.body]
    deep = {f.id for f in own if calls(f, READERS)}
    if not deep:
        raise AnalysisError('no function reads rows of an image')
    while True:
        more = {f.id for f in own if f.id not in deep and any(isinstance(x, dict) and x.get('fn') in deep for x in walk([f.body, f.inits]))}
        if not more:
            break
        deep |= more
    roots = [f for f in own if f.id in deep and not any(isinstance(x, dict) and x.get('fn') == f.id for g in own for x in walk([g.body, g.inits]))]
    cl = Client(ctx, p)
    cl.sources, cl.bytype = buffers(p, own)
    cl.sourcekeys = {b for b, _ in cl.bytype.values()}
    todo = [(f, False) for f in roots]
    done = set()
    readers = errors = 0
    while todo:
        f, cb = todo.pop(0)
        if (f.id, cb) in done:
            continue
        done.add((f.id, cb))
        I = engine.Interp(p, cl)

        def setup(st):
            if cb and len(f.params) > 2:
                o = I.newobj('asked')
                n = mk('fn', 'length')
                n.nn = True
                st.facts.assume(le(n, c(LIMIT)), True)
                st.mem[mk('fld', o, '#n')] = n
        args = None
        if cb == 'read':
            o, n = mk('obj', 'asked'), mk('fn', 'length')
            n.nn = True
            args = [I.fresh('png', f.params[0]['t']), mk('ptr', mk('el', o, ZERO)), n]

            def setup(st):
                st.mem[mk('fld', o, '#n')] = n
                st.facts.assume(le(n, c(LIMIT)), True)
                cl.invariant(I, st, mk('deref', mk('fn', 'io')))
        outs = I.run(f, setup, None, args) if args else I.run(f, setup)
        for k, s, v in outs:
            j = Judge(ctx, I, cl, f)
            j.events(s.events(), [])
            if cb == 'error':
                errors += 1
                ctx.ob('raise', '%s: %s' % (f.q, v.type if k == 't' else 'return'), k == 't' and raisable(p, v.type), f.rel, f.q, f.line,
                       'the error callback returns: the library goes on into undefined behaviour' if k != 't' else 'the error callback throws something that is no error')
            if k != 'r':
                continue
            for l in [l for l in s.mem if l.op == 'fld' and l.a[0] is PHASE and isinstance(l.a[1], tuple)]:
                rec = l.a[1][1]
                pair = cl.sources.get(rec.a[1]) if rec.op == 'fld' else next((x for x in cl.bytype.values()), None)
                kv, n = I.load(s, mk('fld', rec, pair[1])), I.lib.plen(s, I.load(s, mk('fld', rec, pair[0])))
                ctx.ob('kept', '%s: position %s of %s' % (f.q, show(kv), show(n)), s.facts.decide(le(kv, n)) is True, f.rel, f.q, f.line,
                       'after %s the position %s may lie beyond the supplied bytes' % (f.q, show(kv)))
            if cb == 'read':
                readers += 1
                full = supplies(s, o, n)
                ctx.ob('exact', '%s' % f.q, full, f.rel, f.q, f.line, 'on a path that returns the callback does not store exactly the bytes the library asked for')
        for kind, l in list(cl.callbacks.items()):
            for fid, lam, e, file, fn in l:
                if fid in p.fns:
                    todo.append((p.fns[fid], kind))
                elif kind == 'error' and lam is None:
                    ctx.ob('raise', 'error callback at line %d' % e['l'], False, file, fn, e['l'], 'no error callback: the default one does not return by exception')
    if not readers or not errors:
        raise AnalysisError('the callbacks given to libpng were not found')
    ctx.analysed(*sorted(cl.fns | {f for f in roots}, key=lambda f: f.q))


def same(v, old):
    while v is not None and v.op in ('updp', 'upd'):
        v = v.a[0]
    return v is old


def raisable(p, n):
    return n in engine.STD_EXC or any(b in engine.STD_EXC and pub is not False for b, pub in p.bases(n).items())


def supplies(s, o, n):
    if s.facts.decide(eq(n, ZERO)) is True:
        return True
    for e in s.events():
        if e.k == 'span' and e.w and e.ptr.op == 'ptr' and e.ptr.a[0] is mk('el', o, ZERO) and (e.get('n') is n or s.facts.decide(eq(e.get('n'), n)) is True):
            return True
        if e.k == 'loop' and e.trips is not None and (e.trips is n or s.facts.decide(eq(e.trips, n)) is True):
            cs = [b for kind, b, _ in e.body if kind in ('cont', 'break', 'ret')]
            if cs and all(any(x.k == 'acc' and x.w and x.loc is mk('el', o, e.kvar) for x in b) for b in cs):
                return True
    return False
