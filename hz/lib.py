"""Models of the C++ standard library and of the third-party classes the repository uses."""
from .terms import *
from .prog import rel

LIBNS = ('std::', 'rainman::', 'bitio::', 'cl::', 'argparse::', 'loguru::', '__gnu_cxx::')
PTRS = ('rainman::ptr', 'std::shared_ptr', 'std::unique_ptr')
PTRB = PTRS + ('std::__shared_ptr', 'std::__shared_ptr_access', 'std::__uniq_ptr_impl')
ASSOC = ('std::unordered_map', 'std::map', 'std::multimap', 'std::unordered_multimap')
SETS = ('std::unordered_set', 'std::set')
SEQS = ('std::vector', 'std::list', 'std::deque', 'std::queue', 'std::stack', 'std::array', 'std::initializer_list')
LOCKS = ('std::unique_lock', 'std::scoped_lock', 'std::lock_guard', 'std::shared_lock')
MUTEX = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::shared_timed_mutex', 'std::recursive_timed_mutex')
OPTS = ('rainman::option', 'std::optional')
STRS = ('std::basic_string', 'std::basic_string_view')
PURE = {'abs', 'labs', 'strlen', 'log2', 'pow', 'sqrt', 'floor', 'ceil', 'to_string', 'tolower', 'toupper', 'isdigit', 'isspace', 'strcmp', 'strncmp', 'memcmp',
        'htons', 'htonl', 'ntohs', 'ntohl', 'be64toh', 'htobe64', 'strerror', 'popcount', 'countl_zero', 'countr_zero', 'bit_width', 'byteswap', '__builtin_bswap64', '__builtin_bswap32',
        '__builtin_clzll', '__builtin_clz', '__builtin_ctzll', 'absolute', 'canonical', 'weakly_canonical', 'lexically_normal', 'getenv'}
THROWS = {
    'std::stoi': ('std::invalid_argument', 'std::out_of_range'), 'std::stol': ('std::invalid_argument', 'std::out_of_range'),
    'std::stoul': ('std::invalid_argument', 'std::out_of_range'), 'std::stoull': ('std::invalid_argument', 'std::out_of_range'),
    'std::filesystem::absolute': ('std::filesystem::filesystem_error',), 'std::filesystem::exists': ('std::filesystem::filesystem_error',),
    'std::filesystem::is_directory': ('std::filesystem::filesystem_error',), 'std::filesystem::file_size': ('std::filesystem::filesystem_error',),
    'std::filesystem::canonical': ('std::filesystem::filesystem_error',), 'std::filesystem::weakly_canonical': ('std::filesystem::filesystem_error',),
}
NORETURN = {'abort', 'exit', '_exit', 'quick_exit', 'std::abort', 'std::exit', 'std::terminate', '__assert_fail', 'std::quick_exit', 'std::_Exit', '_Exit'}


class Lib:
    def __init__(self, I):
        self.I = I

    # ---- classes ---------------------------------------------------------
    def handles_rec(self, q):
        return q is not None and q.startswith(LIBNS)

    def handles_class(self, ty):
        return ty is not None and ty.c == 'rec' and self.handles_rec(ty.q)

    def is_value_class(self, ty):
        return self.handles_class(ty) and ty.q not in ('std::pair',)

    def is_assoc(self, q):
        return q in ASSOC

    def is_set(self, q):
        return q in SETS

    def is_string(self, q):
        return q in STRS

    def default_value(self, ty):
        q = ty.q
        if q in OPTS:
            return mk('none')
        return mk('zero')

    def unwrap(self, st, v):
        """Pointer held by a smart pointer value or location."""
        if isloc(v) or v.op == 'mitem':
            v = self.I.load(st, v)
        return v

    # ---- iterators -------------------------------------------------------
    def cmp_iter(self, op, a, b, s):
        t = None
        if a.op == 'mend' or b.op == 'mend':
            it = b if a.op == 'mend' else a
            if it.op == 'mend':
                t = ONE
            elif it.op == 'miter':
                v = self.I.load(s, it.a[0])
                k = it.a[1]
                if k.op == 'keyat' and k.a[0] is v:
                    t = eq(k.a[1], mk_len(v))
                    if s.facts.decide(t) is None:
                        r = s.facts.decide(mk('contains', v, k))
                        t = t if r is None else ZERO if r else ONE
                else:
                    t = neg(self.contains(s, v, k))
        elif a.op == 'miter' and b.op == 'miter':
            t = eq(a.a[1], b.a[1])
        if t is None:
            t = eq(a, b)
        return t if op == '==' else neg(t)

    def contains(self, s, v, k):
        f = s.facts
        while True:
            if v.op in ('zero', 'uninit'):
                return ZERO
            if v.op in ('ins', 'del'):
                r = f.decide(eq(v.a[1], k))
                if r is True:
                    return ONE if v.op == 'ins' else ZERO
                if r is False:
                    v = v.a[0]
                    continue
            return mk('contains', v, k)

    # ---- full expressions, scopes ---------------------------------------
    def temps_mark(self, st):
        return None

    def end_full_expr(self, s, n, fr, mark, v):
        if v is not None and v.op == 'guard':
            for m in reversed(v.a):
                self.unlock(s, m, n, fr)

    def destroy(self, v, loc, s, fr):
        ty = v['t']
        q = ty.q or ''
        if q in LOCKS:
            g = s.mem.get(loc)
            if g is not None and g.op == 'guard':
                for m in reversed(g.a):
                    self.unlock(s, m, {'l': v['l']}, fr)
            return
        if ty.c == 'rec' and not self.handles_rec(q):
            I = self.I
            d = I.P.fns.get(ty.rec + '::(dtor)()') if ty.rec else None
            if d is not None and not d.d.get('implicit') and d.id not in I.callstack and I.C.want_inline(d, s):
                out = []
                res = I.call_fn(d, s, loc, [], {'k': 'call', 'l': v['l'], 'args': []}, fr, out)
                # destructors are kept to one continuation
                if res:
                    r = res[0][0]
                    s.mem, s.facts, s.trace, s.cl = r.mem, r.facts, r.trace, r.cl
            elif d is not None and d.d.get('implicit'):
                self.destroy_fields(ty.rec, loc, s, fr, v)

    def destroy_fields(self, rec, loc, s, fr, v):
        I = self.I
        r = I.P.records.get(rec)
        if not r:
            return
        for f in reversed(r['fields']):
            if f['t'].c == 'rec' and (f['t'].q in LOCKS or not self.handles_rec(f['t'].q)):
                if f['t'].q in LOCKS:
                    g = s.mem.get(I.fld(loc, f['n']))
                    if g is not None and g.op == 'guard':
                        for m in reversed(g.a):
                            self.unlock(s, m, {'l': v['l']}, fr)

    def bound(self, s, v, loc, fr):
        pass

    # ---- locks -----------------------------------------------------------
    def lock(self, s, m, e, fr, kind='mutex'):
        self.I.emit(s, 'lock', e, fr, m=m, kind=kind)
        h = getattr(self.I.C, 'on_lock', None)
        if h:
            h(self.I, s, m, e, fr, kind)

    def unlock(self, s, m, e, fr, kind='mutex'):
        self.I.emit(s, 'unlock', e, fr, m=m, kind=kind)
        h = getattr(self.I.C, 'on_unlock', None)
        if h:
            h(self.I, s, m, e, fr, kind)

    # ---- construction ----------------------------------------------------
    def construct(self, e, st, fr, out):
        I = self.I
        q = e['q']
        if not self.handles_rec(q):
            return None
        r = []
        for s, av in I.args(e, st, fr, out):
            h = I.C.call(I, e, q + '::(ctor)', s, None, av, fr, out)
            if h is not None:
                r += h
                continue
            v = self.ctor_value(e, q, s, av, fr)
            if q == 'rainman::ptr' and len(av) >= 2 and v.op == 'ptr' and e['t'] is not None:
                f = self.element_ctor(e, len(av) - 1)
                if f is not None and f.id not in I.callstack and I.C.want_inline(f, s):
                    dst = v.a[0]
                    I.drop_under(s, dst)
                    s.mem[dst] = mk('uninit', dst)
                    e2 = dict(e)
                    e2['args'] = e['args'][1:]
                    for s2, _ in I.call_fn(f, s, dst, av[1:], e2, fr, out):
                        r.append((s2, v))
                    continue
            r.append((s, v))
        return r

    def element_ctor(self, e, n):
        """Constructor of the repository that ptr<T>(count, args...) runs for its elements."""
        t = e['t'].strip()
        t0 = e['args'][0]['t']
        if not t.targs or t.targs[0] is None or not t.targs[0].rec or t0 is None or not t0.strip().isint:
            return None
        rec = t.targs[0].rec
        c = [f for f in self.I.P.fns.values() if f.kind == 'ctor' and f.cls == rec and len(f.params) == n and not f.d.get('implicit')
             and not (n == 1 and f.params[0]['t'].strip().rec == rec)]
        return c[0] if len(c) == 1 else None

    def ctor_value(self, e, q, s, av, fr):
        I = self.I
        A = lambda i: I.argval(s, e, i, av)
        n = len(av)
        if q in LOCKS:
            ms, mode = [], 'lock'
            for i, a in enumerate(e['args']):
                tn = a['t'].n if a.get('t') is not None else ''
                if 'defer_lock' in tn:
                    mode = 'defer'
                elif 'adopt_lock' in tn:
                    mode = 'adopt'
                elif 'try_to_lock' in tn:
                    mode = 'lock'
                elif isloc(av[i]):
                    ms.append(av[i])
            if e.get('copy'):
                v = A(0)
                if isloc(av[0]):
                    s.mem[av[0]] = mk('unguard', *v.a) if v.op == 'guard' else v
                return v
            if mode == 'lock':
                for m in ms:
                    self.lock(s, m, e, fr)
            return mk('guard' if mode != 'defer' else 'unguard', *ms) if ms else mk('unguard')
        if e.get('copy') and n >= 1:
            v = A(0)
            return v
        if q == 'std::filesystem::path' and n >= 1:
            return self.strval(A(0))
        if q in PTRS:
            if n == 0:
                if q == 'rainman::ptr':
                    o = I.newobj('ptr', None)
                    s.mem[o] = mk('zero')
                    s.mem[mk('fld', o, '#n')] = ONE
                    return mk('ptr', mk('el', o, ZERO))
                return NULL
            a0 = A(0)
            t0 = e['args'][0]['t']
            if n == 1 and q == 'rainman::ptr' and t0 is not None and t0.strip().isint:
                o = I.newobj('ptr', None)
                s.mem[o] = mk('zero')
                s.mem[mk('fld', o, '#n')] = a0
                if getattr(I.C, 'track_alloc', False):
                    I.emit(s, 'alloc', e, fr, obj=o, n=a0, type=e['t'].n)
                return mk('ptr', mk('el', o, ZERO))
            if n >= 2 and q == 'rainman::ptr':
                if t0 is not None and t0.strip().isint:
                    o = I.newobj('ptr', None)
                    s.mem[o] = mk('built', e['cls'], *[A(i) for i in range(1, n)])
                    s.mem[mk('fld', o, '#n')] = a0
                    I.emit(s, 'construct', e, fr, cls=e['cls'], obj=o, args=tuple(A(i) for i in range(1, n)))
                    v1 = av[1]
                    if isloc(v1) and n == 2:
                        I.copy_rec(s, v1, mk('el', o, ZERO))
                    return mk('ptr', mk('el', o, ZERO))
                p = a0
                if p.op == 'ptr':
                    l = p.a[0]
                    if l.op == 'el' and l.a[1] is ZERO and l.a[0].op == 'obj':
                        if mk('fld', l.a[0], '#n') not in s.mem:
                            s.mem[mk('fld', l.a[0], '#n')] = A(1)
                            return p
                return mk('pv', p, A(1))
            return a0
        if q in OPTS:
            if n == 0 or (e['args'][0].get('t') is not None and 'nullopt' in e['args'][0]['t'].n):
                return mk('none')
            x = av[0]
            if isloc(x):
                o = I.newobj('some')
                I.copy_rec(s, x, o)
                ty = e['args'][0]['t']
                if ty is not None and ty.strip().c not in ('rec', 'arr'):
                    return mk('some', A(0))
                return mk('some', o)
            return mk('some', A(0))
        if q in STRS:
            if n == 0:
                return mk('str', '')
            a0 = A(0)
            t0 = e['args'][0]['t']
            if n == 1 or (n == 2 and self.is_alloc(e, 1)):
                return self.strval(a0)
            if n == 2:
                return mk('strn', a0, A(1))
            if n == 3 and self.is_alloc(e, 2):
                return mk('strn', a0, A(1))
            return mk('built', q, *[A(i) for i in range(n)])
        if q == 'std::function':
            return A(0) if n else mk('zero')
        if q in SEQS or q in ASSOC or q in SETS:
            if n == 0:
                return mk('zero')
            t0 = e['args'][0]['t']
            a0 = av[0]
            if t0 is not None and t0.strip().isint and q == 'std::vector':
                if n >= 2 and not self.is_alloc(e, 1):
                    return mk('ofsize', A(0), A(1))
                return mk('ofsize', A(0), mk('zero'))
            if isloc(a0):
                # initializer list of elements
                o = a0
                return I.load(s, o) if t0.q in SEQS + ASSOC + SETS and not t0.q == 'std::initializer_list' else mk('built', q, *[I.load(s, o)])
            return mk('built', q, *[A(i) for i in range(n)])
        if q == 'std::pair':
            o = I.newobj('pair')
            s.mem[o] = mk('zero')
            for i, f in enumerate(('first', 'second')):
                if i < n:
                    I.store(s, mk('fld', o, f), av[i])
                    if isloc(av[i]) and e['args'][i]['t'].strip().c not in ('rec', 'arr'):
                        s.mem[mk('fld', o, f)] = A(i)
            return o
        if q == 'std::thread':
            if n:
                I.emit(s, 'spawn', e, fr, f=A(0), args=tuple(A(i) for i in range(1, n)))
            return mk('thread', *[A(i) for i in range(n)])
        if q in MUTEX:
            return mk('zero')
        if n == 0:
            return mk('zero')
        vs = [A(i) for i in range(n)]
        I.emit(s, 'construct', e, fr, cls=q, obj=None, args=tuple(vs)) if getattr(I.C, 'track_construct', False) else None
        return mk('built', q, *vs)

    def is_alloc(self, e, i):
        t = e['args'][i].get('t')
        return t is not None and 'allocator' in t.n

    def strval(self, v):
        if v.op == 'cstr':
            return v.a[0]
        if v.op == 'ptr' and (v.a[0] in self.I.lits or v.a[0].op == 'el' and v.a[0].a[1] is ZERO and v.a[0].a[0] in self.I.lits):
            return self.I.lits[v.a[0] if v.a[0] in self.I.lits else v.a[0].a[0]]
        return v

    # ---- calls -----------------------------------------------------------
    def call(self, e, name, st, obj, av, fr, out):
        I = self.I
        cq = e.get('cq')
        if cq is not None and (self.handles_rec(cq)):
            m = e['n']
            r = self.method(e, cq, m, st, obj, av, fr, out)
            if r is not None:
                return r
            return None
        if cq is not None and e.get('op') == '()' and '(anonymous@' in cq or (cq is not None and e.get('op') == '()' and obj is not None and I.load(st, obj).op == 'clo'):
            return I.call_value(I.load(st, obj), e, st, av, fr, out)
        if cq is not None:
            return None
        r = self.free(e, name, st, av, fr, out)
        return r

    def ret(self, st, v):
        return [(st, v)]

    def method(self, e, cq, m, st, obj, av, fr, out):
        I = self.I
        A = lambda i: I.argval(st, e, i, av)
        n = len(av)
        V = lambda: I.load(st, obj)
        op = e.get('op')
        if m == 'operator=':
            # assignment of a library value
            if cq in LOCKS:
                return None
            v = av[0]
            val = A(0)
            if cq in PTRS and val.op == 'null':
                val = NULL
            if cq in STRS:
                val = self.strval(val)
            if cq == 'std::pair' and isloc(v):
                I.store(st, obj, v, e, fr)
                return self.ret(st, obj)
            if cq in SEQS + ASSOC + SETS and isloc(v):
                I.store(st, obj, v, e, fr)
                return self.ret(st, obj)
            if cq in OPTS and val.op not in ('some', 'none'):
                t0 = e['args'][0]['t']
                if t0 is not None and t0.strip().q not in OPTS:
                    val = mk('some', val)
            I.store(st, obj, val, e, fr)
            return self.ret(st, obj)
        if cq == 'std::filesystem::path' and n == 0 and (m.startswith('operator basic_string') or m in ('string', 'native', 'generic_string', 'c_str')):
            v = V()
            return self.ret(st, mk('cstr', v) if m == 'c_str' else v)
        if cq in MUTEX:
            if m in ('lock', 'lock_shared', 'unlock', 'unlock_shared'):
                (self.lock if m.startswith('lock') else self.unlock)(st, obj, e, fr)
                return self.ret(st, ZERO)
            if m.startswith('try_lock'):
                s2 = st.copy()
                self.lock(st, obj, e, fr)
                return [(st, ONE), (s2, ZERO)]
        if cq in LOCKS:
            v = V()
            if m == 'lock':
                for x in v.a:
                    self.lock(st, x, e, fr)
                st.mem[obj] = mk('guard', *v.a)
                return self.ret(st, ZERO)
            if m == 'unlock':
                for x in v.a:
                    self.unlock(st, x, e, fr)
                st.mem[obj] = mk('unguard', *v.a)
                return self.ret(st, ZERO)
            if m == 'release':
                st.mem[obj] = mk('unguard')
                return self.ret(st, mk('ptr', v.a[0]) if v.a else NULL)
            if m in ('owns_lock', 'operator bool'):
                return self.ret(st, ONE if v.op == 'guard' else ZERO)
        if cq == 'std::condition_variable' or cq == 'std::condition_variable_any':
            if m in ('wait', 'wait_for', 'wait_until'):
                ns = [(st, ZERO)]
                I.emit(st, 'cvwait', e, fr, cv=obj, lock=av[0], pred=I.val(st, av[1]) if n > 1 else None, m=m)
                h = getattr(I.C, 'on_cvwait', None)
                if h:
                    r = h(I, e, st, obj, av, fr, out)
                    if r is not None:
                        return r
                return ns
            if m in ('notify_one', 'notify_all'):
                I.emit(st, 'notify', e, fr, cv=obj, m=m)
                return self.ret(st, ZERO)
        if cq in PTRB:
            v = V()
            return self.ptr_method(e, cq, m, op, st, obj, v, av, A, fr, out)
        if cq in OPTS or cq.startswith('std::_Optional'):
            v = V()
            if m in ('is_some', 'has_value', 'operator bool'):
                return self.ret(st, ONE if v.op == 'some' else ZERO if v.op in ('none', 'zero') else mk('is_some', v))
            if m == 'is_none':
                return self.ret(st, ZERO if v.op == 'some' else ONE if v.op in ('none', 'zero') else neg(mk('is_some', v)))
            if m in ('inner', 'value', 'operator*', 'operator->'):
                h = getattr(I.C, 'on_inner', None)
                if h:
                    h(I, st, obj, v, e, fr)
                if v.op == 'some':
                    x = v.a[0]
                    if isloc(x):
                        return self.ret(st, x if m != 'operator->' else mk('ptr', x))
                    return self.ret(st, x)
                t = e['t'].strip() if e['t'] is not None else None
                if t is not None and t.c == 'rec' and not self.is_value_class(t):
                    o = mk('el', mk('mem', v), ZERO)
                    return self.ret(st, o)
                r = mk('inner', v)
                I.typed(r, t)
                return self.ret(st, r)
            if m == 'value_or':
                return [(s, self.inner(v) if b else A(0)) for s, b in I.split(st, ONE if v.op == 'some' else ZERO if v.op in ('none', 'zero') else mk('is_some', v))]
            if m == 'reset':
                I.store(st, obj, mk('none'), e, fr)
                return self.ret(st, ZERO)
            if m == 'emplace':
                I.store(st, obj, mk('some', A(0)), e, fr)
                return self.ret(st, obj)
        if cq == 'std::function' or (op == '()' and cq == 'std::function'):
            if m == 'operator()':
                return I.call_value(V(), e, st, av, fr, out)
            if m == 'operator bool':
                v = V()
                return self.ret(st, ONE if v.op in ('clo', 'fnref') else ZERO if v.op == 'zero' else neg(eq(v, NULL)))
        if m == 'swap' and len(av) == 1 and isloc(av[0]) and obj is not None:
            return self.swap(st, obj, av[0], e, fr)
        if cq in ASSOC or cq in SETS:
            r = self.assoc(e, cq, m, st, obj, av, A, fr, out)
            if r is not None:
                return r
        if cq.startswith(('std::__detail::_Node', 'std::_Rb_tree_', '__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::__detail::_Insert', 'std::_List_const', 'std::_Deque_iter')):
            v = V()
            if m == 'operator->':
                return self.ret(st, mk('ptr', I.deref(v)))
            if m == 'operator*':
                return self.ret(st, I.deref(v))
            if m in ('operator++', 'operator--'):
                if v.op in ('viter', 'ptr'):
                    nv = I.arith('+', v, ONE if m == 'operator++' else c(-1), None, st, e, fr)
                    I.store(st, obj, nv, e, fr)
                    return self.ret(st, v if n else obj)
                if v.op == 'miter':
                    m0 = I.load(st, v.a[0])
                    j = ONE if m == 'operator++' else c(-1)
                    nv = mk('miter', v.a[0], mk('keyat', m0, add(v.a[1].a[1], j)) if v.a[1].op == 'keyat' and v.a[1].a[0] is m0 else mk('nextkey' if j is ONE else 'prevkey', m0, v.a[1]))
                    I.store(st, obj, nv, e, fr)
                    return self.ret(st, v if n else obj)
            if m in ('operator+', 'operator-'):
                return self.ret(st, I.arith(m[-1], v, A(0), None, st, e, fr))
            if m in ('operator+=', 'operator-='):
                I.store(st, obj, I.arith(m[-2], v, A(0), None, st, e, fr), e, fr)
                return self.ret(st, obj)
            if m == 'operator[]':
                return self.ret(st, I.elem(I.deref(v), A(0)))
            if m == 'base':
                return self.ret(st, v)
        if cq in STRS:
            r = self.string(e, m, st, obj, av, A, fr, out)
            if r is not None:
                return r
        if cq in SEQS or cq.startswith('std::_Vector_base'):
            r = self.seq(e, cq, m, st, obj, av, A, fr, out)
            if r is not None:
                return r
        if cq == 'bitio::stream':
            return self.stream(e, m, st, obj, av, A, fr)
        if cq in ('rainman::Allocator', 'rainman::memmgr'):
            if m in ('rnew', 'rmalloc'):
                o = I.newobj(m, None)
                s = st
                et = e['t'].p if e['t'] is not None else None
                s.mem[o] = mk('zero') if m == 'rnew' else mk('uninit', o)
                s.mem[mk('fld', o, '#n')] = A(0)
                I.types_of[o] = et
                I.emit(s, 'alloc', e, fr, obj=o, n=A(0), type=et.n if et else '')
                if m == 'rnew' and et is not None and et.c == 'rec':
                    d = I.P.fns.get(et.rec + '::(ctor)()')
                    if d is not None and n == 1 and not d.d.get('implicit') is None:
                        res = I.call_fn(d, s, mk('el', o, ZERO), [], e, fr, out) if d.id not in I.callstack else [(s, None)]
                        return [(x, mk('ptr', mk('el', o, ZERO))) for x, _ in res]
                    if n > 1 and A(0) is ONE:
                        cs = [f for f in I.P.fns.values() if f.kind == 'ctor' and f.cls == et.rec and len(f.params) == n - 1 and not f.d.get('implicit')]
                        if len(cs) == 1 and cs[0].id not in I.callstack:
                            s.mem[mk('el', o, ZERO)] = mk('uninit', mk('el', o, ZERO))
                            res = I.call_fn(cs[0], s, mk('el', o, ZERO), list(av[1:]), e, fr, out)
                            return [(x, mk('ptr', mk('el', o, ZERO))) for x, _ in res]
                return self.ret(s, mk('ptr', mk('el', o, ZERO)))
            if m == 'rfree':
                I.emit(st, 'free', e, fr, val=A(0))
                return self.ret(st, ZERO)
        if cq.startswith('rainman::ptr2d') or cq.startswith('rainman::ptr3d'):
            if m in ('rows', 'cols'):
                t = mk('fn', m, V())
                t.nn = True
                return self.ret(st, t)
            if m == 'operator[]':
                v = mk('row', V(), A(0))
                return self.ret(st, v)
        if cq == 'rainman::virtual_array':
            if m == 'set':
                I.store(st, mk('el', obj, A(1)), av[0] if isloc(av[0]) and e['args'][0]['t'].c == 'rec' else A(0), e, fr)
                return self.ret(st, ZERO)
            if m == 'operator[]':
                return self.ret(st, mk('el', obj, A(0)))
            if m == 'size':
                return self.ret(st, mk_len(V()))
        if cq == 'std::thread':
            I.emit(st, 'thread.' + m, e, fr, t=V())
            return self.ret(st, ZERO)
        if cq.startswith(('std::basic_stringstream', 'std::basic_ostream', 'std::basic_istringstream', 'std::basic_ios', 'std::basic_istream', 'std::basic_iostream', 'std::basic_ostringstream')):
            if m in ('operator<<',):
                return self.ret(st, obj)
            if m == 'operator bool':
                v = V()
                if v.op == 'c':
                    return self.ret(st, v)
        if cq == 'std::atomic' or cq.startswith('std::__atomic_base'):
            if m in ('load',) or m.startswith('operator '):
                return self.ret(st, I.typed(V(), e['t']))
            if m == 'store' or m == 'operator=':
                I.store(st, obj, A(0), e, fr)
                return self.ret(st, A(0))
            if m in ('operator++', 'operator--', 'fetch_add', 'fetch_sub', 'operator+=', 'operator-='):
                d = A(0) if m in ('fetch_add', 'fetch_sub', 'operator+=', 'operator-=') else ONE
                sgn = '+' if '+' in m or 'add' in m else '-'
                old = I.typed(V(), e['t'])
                new = I.arith(sgn, old, d, e['t'], st, e, fr)
                I.store(st, obj, new, e, fr)
                return self.ret(st, old if m.startswith('fetch') or n else new)
        if e.get('smeth'):
            return None
        # constant methods of value classes are functions of the value
        if e.get('cmeth') and obj is not None and e['t'] is not None and e['t'].c != 'void' and not e.get('lv') and e['t'].c != 'rec':
            vs = [V()] + [A(i) for i in range(n)]
            t = mk('fn', cq + '::' + m, *vs)
            I.typed(t, e['t'])
            if e['t'].nonneg:
                t.nn = True
            I.types_of.setdefault(t, e['t'])
            if e['t'].c == 'bool':
                t = mk('opred', cq + '::' + m, *vs)
            return self.ret(st, t)
        return None

    def inner(self, v):
        return v.a[0] if v.op == 'some' else mk('inner', v)

    def ptr_method(self, e, cq, m, op, st, obj, v, av, A, fr, out):
        I = self.I
        if m == 'operator->':
            return self.ret(st, v if v.op == 'ptr' else mk('ptr', I.deref(v)))
        if m == 'operator*':
            return self.ret(st, I.deref(v))
        if m == 'operator[]':
            i = A(0)
            h = getattr(I.C, 'on_index', None)
            if h:
                h(I, st, v, i, e, fr)
            return self.ret(st, I.elem(I.deref(v), i))
        if m in ('pointer', 'get'):
            return self.ret(st, v if v.op != 'pv' else v.a[0])
        if m == 'size':
            return self.ret(st, self.plen(st, v))
        if m == 'operator bool':
            return self.ret(st, neg(eq(v, NULL)))
        if m == 'operator==':
            return self.ret(st, eq(v, A(0)))
        if m == 'reset':
            I.store(st, obj, A(0) if av else NULL, e, fr)
            return self.ret(st, ZERO)
        if m == 'release':
            I.store(st, obj, NULL, e, fr)
            return self.ret(st, v)
        if m == 'operator++':
            nv = I.arith('+', v, ONE, None, st, e, fr)
            I.store(st, obj, nv, e, fr)
            return self.ret(st, obj)
        return None

    def plen(self, st, v):
        I = self.I
        if v.op == 'ptr':
            l = v.a[0]
            if l.op == 'el':
                n = st.mem.get(mk('fld', l.a[0], '#n'))
                if n is not None:
                    return sub(n, l.a[1])
        if v.op == 'pv':
            return v.a[1]
        t = mk('plen', v)
        t.nn = True
        return t

    # ---- containers ------------------------------------------------------
    def swap(self, st, x, y, e, fr):
        I = self.I
        o = I.newobj('swap')
        I.copy_rec(st, x, o)
        for d, z in ((x, y), (y, o)):
            if I.load(st, z).op in ('zero', 'uninit') or self.is_assoc(e.get('cq') or ''):
                I.C.on_write(I, st, d, None, e, fr)
                I.copy_rec(st, z, d)
            else:
                I.store(st, d, z, e, fr)
        return self.ret(st, ZERO)

    def assoc(self, e, cq, m, st, obj, av, A, fr, out):
        I = self.I
        v = I.load(st, obj)
        rd = lambda: I.C.on_read(I, st, obj, e, fr)
        setm = cq in SETS
        if m in ('contains', 'count'):
            rd()
            return self.ret(st, self.contains(st, v, A(0)))
        if m == 'operator[]':
            k = A(0)
            rd()
            t = self.contains(st, v, k)
            d = st.facts.decide(t)
            if d is not True:
                I.C.on_write(I, st, obj, None, e, fr)
                I.emit(st, 'mapins', e, fr, m=obj, key=k, how='[]', known=d)
                if d is False:
                    st.mem[obj] = mk('ins', v, k)
                    st.mem[mk('el', obj, k)] = mk('zero')
                    tt = e['t'].strip() if e['t'] is not None else None
                    if tt is not None:
                        st.mem[mk('el', obj, k)] = I.typed(mk('zero'), tt)
                else:
                    st.mem[obj] = mk('ins', v, k)
            return self.ret(st, mk('el', obj, k))
        if m == 'at':
            k = A(0)
            rd()
            r = []
            for s, b in I.split(st, self.contains(st, v, k)):
                if b:
                    r.append((s, mk('el', obj, k)))
                else:
                    from .engine import Exc
                    out.append(('t', s, Exc('std::out_of_range', None, e['l'], rel(fr.file), fr.name, 'at()')))
            return r
        if m == 'find':
            rd()
            return self.ret(st, mk('miter', obj, A(0)))
        if m in ('end', 'cend'):
            return self.ret(st, mk('mend', obj))
        if m in ('begin', 'cbegin'):
            rd()
            return self.ret(st, mk('miter', obj, mk('keyat', v, ZERO)))
        if m in ('size',):
            rd()
            return self.ret(st, mk_len(v))
        if m == 'empty':
            rd()
            return self.ret(st, eq(mk_len(v), ZERO))
        if m == 'erase':
            a = A(0)
            k = a.a[1] if a.op == 'miter' else a
            I.C.on_write(I, st, obj, None, e, fr)
            I.emit(st, 'maperase', e, fr, m=obj, key=k, known=st.facts.decide(self.contains(st, v, k)))
            for l in list(st.mem):
                x = l
                while x.op in ('fld', 'el') and not (x.op == 'el' and x.a[0] is obj):
                    x = x.a[0]
                if x.op == 'el' and x.a[0] is obj and st.facts.decide(eq(x.a[1], k)) is not False:
                    del st.mem[l]
            st.mem[obj] = mk('del', v, k)
            return self.ret(st, ONE if a.op != 'miter' else mk('miter', obj, mk('nextkey', v, k)))
        if m == 'clear':
            I.C.on_write(I, st, obj, None, e, fr)
            I.emit(st, 'mapclear', e, fr, m=obj)
            I.drop_under(st, obj)
            st.mem[obj] = mk('zero')
            return self.ret(st, ZERO)
        if m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            I.C.on_write(I, st, obj, None, e, fr)
            if setm:
                k = A(0)
                x = None
            elif m == 'insert' and len(av) == 1:
                p = av[0]
                if isloc(p):
                    k = I.load(st, mk('fld', p, 'first'))
                    x = mk('fld', p, 'second')
                    if x not in st.mem and not any(I._under(l, x) for l in st.mem):
                        x = I.load(st, x)
                else:
                    k, x = mk('sel', p, 'first'), mk('sel', p, 'second')
            elif len(av) >= 2:
                k = A(0)
                x = av[1] if isloc(av[1]) and e['args'][1]['t'].strip().c == 'rec' else A(1)
            elif len(av) == 1:
                k, x = A(0), mk('zero')
            else:
                return None
            t = self.contains(st, v, k)
            r = []
            for s, b in I.split(st, t):
                if b and m != 'insert_or_assign':
                    o = I.newobj('pair')
                    s.mem[mk('fld', o, 'first')] = mk('miter', obj, k)
                    s.mem[mk('fld', o, 'second')] = ZERO
                    r.append((s, o))
                    continue
                I.emit(s, 'mapins', e, fr, m=obj, key=k, how=m, known=b)
                s.mem[obj] = mk('ins', v, k)
                if x is not None:
                    I.store(s, mk('el', obj, k), x, e, fr)
                o = I.newobj('pair')
                s.mem[mk('fld', o, 'first')] = mk('miter', obj, k)
                s.mem[mk('fld', o, 'second')] = ONE
                r.append((s, o))
            return r
        if m in ('reserve', 'rehash', 'max_load_factor'):
            return self.ret(st, ZERO)
        return None

    def seq(self, e, cq, m, st, obj, av, A, fr, out):
        I = self.I
        v = I.load(st, obj)
        n = len(av)
        isq = cq in ('std::queue',)
        if m in ('push_back', 'emplace_back', 'push', 'emplace'):
            I.C.on_write(I, st, obj, None, e, fr)
            idx = mk_len(v)
            el = mk('el', obj, idx)
            x = None
            if n == 1:
                x = av[0]
                if isloc(x) and e['args'][0]['t'].strip().c not in ('rec', 'arr'):
                    x = A(0)
                if m.startswith('emplace') and e['args'][0].get('t') is not None and e['args'][0]['t'].strip().isint and \
                        str(e.get('cls') or '').partition('<')[2].startswith(('rainman::ptr<', 'class rainman::ptr<')):
                    x = self.ctor_value(dict(e, cls='rainman::ptr'), 'rainman::ptr', st, av, fr)
            elif n == 0:
                x = mk('zero')
            else:
                x = mk('built', 'elem', *[A(i) for i in range(n)])
            I.emit(st, 'push', e, fr, c=obj, val=x if not isloc(x) else None, el=el, v=self.snapshot(st, x))
            if isloc(x):
                st.mem[obj] = mk('push', v, I.load(st, x))
                sub_ = [(l, y) for l, y in st.mem.items() if l is not x and I._under(l, x)]
                for l, y in sub_:
                    st.mem[I.rebase(l, x, el)] = y
                st.mem[el] = I.load(st, x)
            else:
                st.mem[obj] = mk('push', v, x)
                st.mem[el] = x
            return self.ret(st, el)
        if m == 'size':
            I.C.on_read(I, st, obj, e, fr)
            if cq == 'std::array' and e.get('cv') is not None:
                return self.ret(st, c(e['cv']))
            if cq == 'std::initializer_list' and mk('fld', obj, '#n') in st.mem:
                return self.ret(st, st.mem[mk('fld', obj, '#n')])
            return self.ret(st, mk_len(v))
        if m == 'empty':
            I.C.on_read(I, st, obj, e, fr)
            return self.ret(st, eq(mk_len(v), ZERO))
        if m in ('operator[]', 'at'):
            I.C.on_read(I, st, obj, e, fr)
            h = getattr(I.C, 'on_index', None)
            if h:
                h(I, st, v, A(0), e, fr)
            return self.ret(st, mk('el', obj, A(0)))
        if m == 'back':
            I.C.on_read(I, st, obj, e, fr)
            return self.ret(st, mk('el', obj, sub(mk_len(v), ONE)))
        if m in ('front',):
            I.C.on_read(I, st, obj, e, fr)
            return self.ret(st, mk('el', obj, ZERO))
        if m in ('begin', 'cbegin'):
            return self.ret(st, mk('viter', obj, ZERO))
        if m in ('end', 'cend'):
            return self.ret(st, mk('viter', obj, mk_len(v)))
        if m == 'data':
            return self.ret(st, mk('ptr', mk('el', obj, ZERO)))
        if m == 'erase' and n >= 1:
            a = A(0)
            I.C.on_write(I, st, obj, None, e, fr)
            while a.op == 'built' and 'iterator' in str(a.a[0]) and len(a.a) == 2:
                a = a.a[1]
            idx = a.a[1] if a.op == 'viter' else mk('idxof', a)
            I.emit(st, 'verase', e, fr, c=obj, idx=idx, range=n > 1)
            el = mk('el', obj, idx)
            cur = v
            I.drop_under(st, obj)
            nv = mk('verase', cur, idx, fresh('ver'))
            st.mem[obj] = nv
            return self.ret(st, mk('viter', obj, idx))
        if m in ('pop_back', 'pop', 'pop_front'):
            I.C.on_write(I, st, obj, None, e, fr)
            I.emit(st, 'pop', e, fr, c=obj)
            ln = mk_len(v)
            I.drop_under(st, obj)
            st.mem[obj] = v.a[0] if v.op == 'push' and m != 'pop_front' and not isq else mk('popped', v, fresh('ver'))
            return self.ret(st, ZERO)
        if m == 'clear':
            I.C.on_write(I, st, obj, None, e, fr)
            I.emit(st, 'vclear', e, fr, c=obj)
            I.drop_under(st, obj)
            st.mem[obj] = mk('zero')
            return self.ret(st, ZERO)
        if m in ('resize', 'assign'):
            I.C.on_write(I, st, obj, None, e, fr)
            I.drop_under(st, obj)
            st.mem[obj] = mk('ofsize', A(0), mk('resized', v))
            return self.ret(st, ZERO)
        if m in ('reserve', 'shrink_to_fit'):
            return self.ret(st, ZERO)
        if m in ('insert', 'emplace', 'swap', 'splice', 'merge', 'sort', 'reverse', 'unique', 'remove', 'remove_if', 'push_front', 'emplace_front', 'assign_range', 'append_range', 'insert_range'):
            src = [a for a in av if isloc(a) or a.op == 'viter']
            src = [I.load(st, a.a[0] if a.op == 'viter' else a) for a in src]
            for o in [obj] + ([a for a in av if isloc(a)] if m in ('swap', 'splice', 'merge') else []):
                I.C.on_write(I, st, o, None, e, fr)
                I.emit(st, 'vedit', e, fr, c=o, how=m)
                I.drop_under(st, o)
                st.mem[o] = mk('vedit', m, v if o is obj else src[0], tuple(src), fresh('ver'))
            return self.ret(st, mk('viter', obj, fresh('pos', True)))
        return None

    def snapshot(self, st, x):
        """Fields of a record about to be stored, as {name: value}."""
        I = self.I
        if x is None or not isloc(x):
            return x
        r = {}
        for l, v in st.mem.items():
            if l.op == 'fld' and l.a[0] is x:
                r[l.a[1]] = v
        r[''] = I.load(st, x)
        return r

    def string(self, e, m, st, obj, av, A, fr, out):
        I = self.I
        v = I.load(st, obj)
        if v.op == 'zero':
            v = mk('str', '')
        rd = lambda: I.C.on_read(I, st, obj, e, fr)
        if m in ('length', 'size'):
            rd()
            return self.ret(st, mk_len(v))
        if m == 'empty':
            rd()
            return self.ret(st, eq(mk_len(v), ZERO))
        if m in ('c_str', 'data'):
            rd()
            return self.ret(st, mk('cstr', v))
        if m in ('operator[]', 'at'):
            rd()
            i = A(0)
            if m == 'at' and False:
                pass
            h = getattr(I.C, 'on_index', None)
            if h:
                h(I, st, v, i, e, fr)
            if e['t'] is not None and e['t'].const or 'const' in (e.get('fn') or '')[-6:]:
                r = I.at(st, v, i)
                I.typed(r, e['t'])
                return self.ret(st, r)
            return self.ret(st, mk('el', obj, i))
        if m in ('back', 'front'):
            rd()
            i = sub(mk_len(v), ONE) if m == 'back' else ZERO
            h = getattr(I.C, 'on_index', None)
            if h:
                h(I, st, v, i, e, fr)
            r = I.at(st, v, i)
            I.typed(r, e['t'])
            return self.ret(st, r)
        if m in ('operator+=', 'append', 'push_back'):
            x = A(0)
            t0 = e['args'][0]['t']
            if len(av) == 1:
                x = mk('chr', x) if t0 is not None and t0.strip().isint else self.strval(x)
                if x.op == 'chr' and x.a[0].op == 'c' and 0 < x.a[0].a[0] < 128:
                    x = mk('str', chr(x.a[0].a[0]))
            else:
                x = mk('strn', *[A(i) for i in range(len(av))])
            I.store(st, obj, self.cat(v, x), e, fr)
            return self.ret(st, obj)
        if m == 'operator=' :
            I.store(st, obj, self.strval(A(0)), e, fr)
            return self.ret(st, obj)
        if m in ('begin', 'cbegin'):
            return self.ret(st, mk('viter', obj, ZERO))
        if m in ('end', 'cend'):
            return self.ret(st, mk('viter', obj, mk_len(v)))
        if m == 'clear':
            I.store(st, obj, mk('str', ''), e, fr)
            return self.ret(st, ZERO)
        if m in ('reserve', 'shrink_to_fit'):
            return self.ret(st, ZERO)
        if m == 'assign' and len(av) == 1:
            I.store(st, obj, self.strval(A(0)), e, fr)
            return self.ret(st, obj)
        if m == 'starts_with':
            rd()
            x = A(0)
            return self.ret(st, mk('starts', v, x))
        if e.get('cmeth') and e['t'] is not None and (e['t'].c == 'rec' or m in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of', 'compare', 'ends_with', 'contains', 'capacity')):
            rd()
            t = mk('fn', 'string::' + m, v, *[A(i) for i in range(len(av))])
            return self.ret(st, t)
        return None

    def cat(self, a, b):
        xs = (list(a.a) if a.op == 'cat' else [a]) + (list(b.a) if b.op == 'cat' else [b])
        r = []
        for x in xs:
            if x.op == 'str' and x.a[0] == '':
                continue
            if x.op == 'str' and r and r[-1].op == 'str':
                r[-1] = mk('str', r[-1].a[0] + x.a[0])
            else:
                r.append(x)
        if not r:
            return mk('str', '')
        if len(r) == 1:
            return r[0]
        return mk('cat', *r)

    def stream(self, e, m, st, obj, av, A, fr):
        I = self.I
        pl = mk('fld', obj, '#pos')
        pos = I.load(st, pl)
        I.C.on_read(I, st, obj, e, fr)
        if m == 'read':
            n = A(0)
            w = n.a[0] if n.op == 'c' else 64
            r = mk('rd', w, fresh('rd'))
            r.nn = True
            I.types_of[r] = e['t']
            I.emit(st, 'sread', e, fr, s=obj, pos=pos, bits=n, val=r)
            st.mem[pl] = add(pos, n)
            return self.ret(st, r)
        if m == 'write':
            n = A(1)
            I.C.on_write(I, st, obj, None, e, fr)
            I.emit(st, 'swrite', e, fr, s=obj, pos=pos, bits=n, val=A(0))
            st.mem[pl] = add(pos, n)
            return self.ret(st, ZERO)
        if m == 'seek':
            n = A(0)
            I.emit(st, 'sseek', e, fr, s=obj, pos=pos, n=n)
            st.mem[pl] = add(pos, n)
            return self.ret(st, ZERO)
        if m == 'seek_to':
            I.emit(st, 'sseekto', e, fr, s=obj, pos=A(0))
            st.mem[pl] = A(0)
            return self.ret(st, ZERO)
        if m == 'flush':
            I.emit(st, 'sflush', e, fr, s=obj, pos=pos)
            return self.ret(st, ZERO)
        return None

    # ---- free functions --------------------------------------------------
    def free(self, e, name, st, av, fr, out):
        I = self.I
        n = len(av)
        A = lambda i: I.argval(st, e, i, av)
        short = name.split('::')[-1]
        if name in I.P.byq and not name.startswith(LIBNS):
            return None
        if e.get('op') and n >= 1 and short.startswith('operator'):
            return self.oper(e, short[8:].strip(), st, av, A, fr, out)
        if name.startswith('loguru::'):
            if short == 'current_verbosity_cutoff':
                return self.ret(st, c(100))
            if short in ('log', 'vlog', 'raw_log'):
                if n and A(0).op == 'c' and A(0).a[0] <= -3:
                    return []
                return self.ret(st, ZERO)
            if short == 'log_and_abort':
                return []
            return self.ret(st, I.result(e, name, st))
        if name in NORETURN or e.get('noret'):
            I.emit(st, 'exit', e, fr, q=name)
            h = getattr(I.C, 'on_exit', None)
            if h:
                h(I, st, e, fr)
            return []
        if name in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', '__builtin_addressof', 'std::launder', 'std::move_if_noexcept'):
            x = av[0]
            if short in ('addressof', '__builtin_addressof'):
                return self.ret(st, mk('ptr', x) if isloc(x) else x)
            return self.ret(st, x)
        if name in ('std::min', 'std::max') and n >= 2:
            a, b = A(0), A(1)
            t = le(a, b)
            r = []
            for s, y in I.split(st, t):
                r.append((s, (a if y else b) if short == 'min' else (b if y else a)))
            return r
        if name == 'std::swap' and n == 2 and isloc(av[0]) and isloc(av[1]):
            return self.swap(st, av[0], av[1], e, fr)
        if name in ('std::make_shared', 'std::make_unique', 'rainman::make_ptr'):
            o = I.newobj('shared')
            st.mem[o] = mk('zero')
            st.mem[mk('fld', o, '#n')] = ONE
            t = e['t'].targs[0] if e['t'] is not None and e['t'].targs else None
            I.emit(st, 'construct', e, fr, cls=t.n if t else '', obj=o, args=tuple(A(i) for i in range(n)))
            p = mk('ptr', mk('el', o, ZERO))
            if t is not None and t.c == 'rec':
                # run the repository constructor if it can be matched by arity
                cands = [f for f in I.P.fns.values() if f.kind == 'ctor' and f.cls == t.rec and len(f.params) == n]
                if n == 1:
                    cands = [f for f in cands if not (f.params[0]['t'].c == 'ref' and f.params[0]['t'].p.rec == t.rec)]
                if len(cands) == 1 and I.C.want_inline(cands[0], st) and cands[0].id not in I.callstack:
                    st.mem[o] = mk('uninit', o)
                    return [(s, p) for s, _ in I.call_fn(cands[0], st, mk('el', o, ZERO), av, e, fr, out)]
            return self.ret(st, p)
        if name == 'std::make_pair' and n == 2:
            o = I.newobj('pair')
            st.mem[o] = mk('zero')
            for i, f in enumerate(('first', 'second')):
                v = av[i]
                if isloc(v) and e['args'][i]['t'].strip().c not in ('rec', 'arr'):
                    v = A(i)
                I.store(st, mk('fld', o, f), v)
            return self.ret(st, o)
        if name in ('std::lock',):
            for x in av:
                if isloc(x):
                    self.lock(st, x, e, fr)
            return self.ret(st, ZERO)
        if short in ('memcpy', '__builtin_memcpy', 'memmove') and n == 3:
            I.emit(st, 'memcpy', e, fr, dst=A(0), src=A(1), n=A(2))
            d = A(0)
            if d.op == 'ptr':
                l = d.a[0]
                b = l.a[0] if l.op == 'el' and l.a[1] is ZERO else l
                I.C.on_write(I, st, b, None, e, fr)
                nn = mk('fld', b, '#n')
                keep = st.mem.get(nn)
                I.drop_under(st, b)
                st.mem[b] = mk('copied', A(1), A(2), fresh('cp'))
                if keep is not None:
                    st.mem[nn] = keep
            else:
                I.havoc(st, I.deref(d), short)
            return self.ret(st, d)
        if short in PURE and n <= 4:
            vs = []
            for i in range(n):
                v = A(i)
                vs.append(v)
            ths = THROWS.get(name, ())
            from .engine import Exc
            for t in ths:
                out.append(('t', st.copy(), Exc(t, None, e['l'], rel(fr.file), fr.name, name)))
            t = mk('fn', short, *vs)
            ty = e['t']
            if ty is not None:
                I.types_of.setdefault(t, ty)
                if ty.nonneg:
                    t.nn = True
            return self.ret(st, t)
        if name in ('sem_wait', 'sem_post', 'sem_trywait', 'sem_open', 'sem_close'):
            return self.sem(e, name, st, av, A, fr)
        if name in THROWS:
            from .engine import Exc
            for t in THROWS[name]:
                out.append(('t', st.copy(), Exc(t, None, e['l'], rel(fr.file), fr.name, name)))
        if name in ('std::get',) and n == 1:
            return None
        if name in ('std::find', 'std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::for_each', 'std::count_if') and n >= 3:
            r = self.algo(e, short, st, av, A, fr, out)
            if r is not None:
                return r
        return None

    def algo(self, e, short, st, av, A, fr, out):
        return None

    def sem(self, e, name, st, av, A, fr):
        I = self.I
        p = A(0)
        if name == 'sem_open':
            I.emit(st, 'semopen', e, fr, args=tuple(A(i) for i in range(len(av))))
            return self.ret(st, I.fresh('sem_open', e['t']))
        if name == 'sem_wait':
            m = I.deref(p)
            r = fresh('sem_wait')
            I.types_of[r] = e['t']
            s2 = st.copy()
            self.lock(st, m, e, fr, 'sem')
            res = [(st, ZERO)]
            if getattr(I.C, 'sem_fail', False):
                I.emit(s2, 'semfail', e, fr, m=m)
                res.append((s2, c(-1)))
            return res
        if name == 'sem_post':
            self.unlock(st, I.deref(p), e, fr, 'sem')
            return self.ret(st, ZERO)
        return None

    def oper(self, e, op, st, av, A, fr, out):
        I = self.I
        n = len(av)
        t0 = e['args'][0]['t'].strip() if e['args'][0].get('t') is not None else None
        if op in ('==', '!=', '<', '>', '<=', '>=') and n == 2:
            a, b = A(0), A(1)
            a, b = self.strval(a), self.strval(b)
            if op in ('==', '!='):
                if a.op in ('miter', 'mend') or b.op in ('miter', 'mend'):
                    return self.ret(st, self.cmp_iter(op, a, b, st))
                if a.op == 'str' and a.a[0] == '' or b.op == 'str' and b.a[0] == '':
                    o = b if a.op == 'str' and a.a[0] == '' else a
                    t = eq(mk_len(o), ZERO)
                    return self.ret(st, t if op == '==' else neg(t))
                return self.ret(st, I.compare(op, a, b, st))
            if a.op in ('viter', 'ptr', 'lin', 'c'):
                return self.ret(st, I.compare(op, a, b, st))
            t = mk('opred', op, a, b)
            return self.ret(st, t)
        if op == '+' and n == 2:
            a, b = A(0), A(1)
            if t0 is not None and (t0.q in STRS or t0.c == 'ptr' or t0.c == 'arr' or t0.isint):
                t1 = e['args'][1]['t'].strip()
                x = mk('chr', a) if t0.isint else self.strval(a)
                y = mk('chr', b) if t1.isint else self.strval(b)
                if x.op == 'zero':
                    x = mk('str', '')
                return self.ret(st, self.cat(x, y))
            return self.ret(st, I.arith('+', a, b, None, st, e, fr))
        if op == '-' and n == 2:
            return self.ret(st, I.arith('-', A(0), A(1), None, st, e, fr))
        if op == '<<' and n == 2:
            return self.ret(st, av[0])
        return None
