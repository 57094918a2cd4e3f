"""What a network session does, command by command: the set of abstract states at the head of every loop, explored as a fixpoint.

Root: hzapi::ApiInstance::start.  Code of src/hzip_network is analysed in context; the five transfer
primitives of SocketInterface (which C17 checks), the archive, the path validator, the job processor and
the archive provider are replaced by what they promise.  Properties are decided by monitors, which look at
every primitive operation in the abstract state it is reached in.
"""
from . import engine, prog
from .engine import Exc
from .terms import *
from .prog import rel, walk
from .extract import AnalysisError

NET = 'src/hzip_network/'
UNITS = [(NET + 'api/api.cpp', 'cpu'), (NET + 'api/handlers/streamer.cpp', 'cpu'), (NET + 'api/handlers/query.cpp', 'cpu'),
         (NET + 'api/handlers/socket_class.cpp', 'cpu')]
SOCK = 'hzapi::SocketInterface'
PRIMS = ('t_send', 't_recv', 't_recv_sync', 'success', 'error')
FIRST = {'hzapi::ApiInstance': 'API', 'hzapi::Streamer': 'STREAM', 'hzapi::Query': 'QUERY'}
SUB = {0: 'ENCODE', 1: 'DECODE', 2: 'WRITE_MSTATE', 3: 'READ_MSTATE'}
PIGGY = {'ENCODE': 5, 'DECODE': 5, 'READ_MSTATE': 3, 'QUERY': 3}
G = mk('glob', '#net')
STDEXC = 'std::exception'
CONN = 'ApiErrors::ConnectionError'
# operations of an archive: position of the path, does it change what the path names
PATHOPS = {'create_file_entry': (0, True), 'read_file_entry': (0, False), 'remove_file': (0, True), 'check_file_exists': (0, False),
           'list_file_system': (0, False), 'list_mstate_system': (0, False), 'install_mstate': (0, True), 'uninstall_mstate': (0, True),
           'read_mstate': (0, False), 'check_mstate_exists': (0, False), 'inject_mstate': (0, False)}
PURE_OPS = ()


def g(name):
    return mk('fld', G, name)


def ghost(loc, name):
    return mk('fld', loc, '#' + name)


class Monitor:
    """Hooks called at primitive operations; `bad(what, e, fr, msg)` reports."""

    def recv(self, c, s, obj, L, n, size, e, fr):
        """Before a transfer of n bytes to L (c.sync: announced by a status byte)."""

    def got(self, c, s, obj, v, n, e, fr):
        """A value of fixed size that was received."""

    def after(self, c, s, name, obj, args, r, e, fr):
        """After a call that left the network code."""

    def send(self, c, s, obj, v, L, n, size, e, fr):
        pass

    def word(self, c, s, obj, group, e, fr):
        pass

    def success(self, c, s, obj, e, fr):
        pass

    def error(self, c, s, obj, e, fr):
        pass

    def op(self, c, s, name, obj, args, e, fr):
        """A call that leaves the network code."""

    def inner(self, c, s, v, e, fr):
        """Content of an option that is not known to have one."""

    def opened(self, c, s, v, e, fr):
        """Content of an option that is known to have one."""

    def string(self, c, s, v, e, fr):
        """Characters used as a string."""

    def run(self, c, s, job, codec, stub, e, fr):
        pass

    def recorded(self, c, s0, s, x, e, fr):
        """The callback that is told the id of a stored block has run."""

    def ready(self, c, s, fr):
        """The session is ready for the next request."""

    def head(self, c, s, n, fr):
        pass

    def closing(self, c, s):
        """Before facts about values that are out of reach are dropped."""

    def write(self, c, s, loc, v, e, fr):
        pass

    def done(self, c, outs):
        pass


class Net(engine.Client):
    tracing = False
    track_alloc = False
    max_paths = 20000

    def __init__(self, monitors):
        self.mon = monitors
        self.tags = {}
        self.coll = {}
        self.seen = {}
        self.fns = set()
        self.sync = True

    # ---- reporting -----------------------------------------------------
    def ob(self, ctx, rule, what, ok, e, fr, msg='', detail=''):
        """One obligation per rule and construct; it is discharged if it holds in every state the construct is reached in."""
        key = (rule, what, rel(fr.file), fr.name, e.get('l'), detail)
        o = self.seen.get(key)
        if o is None or o[0] and not ok:
            self.seen[key] = (bool(ok), msg, fr.stack())

    def report(self, ctx):
        for (rule, what, file, fn, line, detail), (ok, msg, stack) in sorted(self.seen.items(), key=lambda x: str(x[0])):
            ctx.ob(rule, '%s:%s %s' % (file.split('/')[-1], line, what), ok, file, fn, line or 0, msg, stack, detail)

    # ---- engine hooks --------------------------------------------------
    def want_inline(self, fn, st):
        r = fn.rel.startswith(NET) and fn.cq != 'hzapi::ArchiveProvider'
        if r:
            self.fns.add(fn)
        return r

    def collects(self, I, n, st, fr):
        """Loops that transfer something, or wait for a job."""
        r = self.coll.get(id(n))
        if r is None:
            r = False
            for x in walk(n):
                if x.get('k') == 'call' and (x.get('cq') in (SOCK, 'HZ_Processor', 'std::mutex') or x.get('fn') in I.P.fns and I.P.fns[x['fn']].rel.startswith(NET)):
                    r = True
                    break
            self.coll[id(n)] = r
        return r

    def settles(self, I, fr):
        return rel(fr.file).startswith(NET)

    def settled(self, I, st, fr):
        if fr.this is THIS:
            for m in self.mon:
                m.ready(self, st, fr)
            for n in ('told', 'failed', 'job', 'stub', 'grp', 'w', 'pb'):
                st.mem.pop(g(n), None)
            st.mem.pop(ghost(THIS, 'w'), None)

    def closing(self, I, st):
        grp = st.mem.get(g('grp'))
        if grp is not None and PIGGY.get(grp.a[0]) is not None and g('pb') not in st.mem and st.facts.decide(eq(st.mem[g('w')], c(PIGGY[grp.a[0]]))) is True:
            st.mem[g('pb')] = ONE

        for m in self.mon:
            m.closing(self, st)

    def loop_round(self, I, n, st, fr, rng, k):
        for m in self.mon:
            m.head(self, st, n, fr)

    def name_of(self, I, t):
        return self.tags.get(t)

    def forgets(self, I, t):
        return str(self.tags.get(t, '')).startswith('word:')

    def renamed(self, I, old, new):
        if old in self.tags:
            self.tags[new] = self.tags[old]

    def widened(self, I, loc, vals, new):
        ts = {self.tags.get(v) for v in vals}
        if len(ts) == 1 and None not in ts:
            self.tags[new] = ts.pop()

    def on_write(self, I, st, loc, v, e, fr):
        if loc.op == 'el':
            B = loc.a[0]
            st.mem.pop(ghost(B, 'ok'), None)
            if ghost(B, 'rx') in st.mem:
                if v is not None and (v is ZERO or v.op == 'zero') and self.within(st, B, loc.a[1]):
                    st.mem[ghost(B, 'z')] = ONE
                elif v is not ZERO:
                    st.mem.pop(ghost(B, 'z'), None)
        for m in self.mon:
            m.write(self, st, loc, v, e, fr)

    def within(self, st, B, i):
        N = st.mem.get(ghost(B, 'n'))
        return N is not None and st.facts.decide(le(add(i, ONE), N)) is True and st.facts.decide(le(ZERO, i)) is True

    def opaque(self, I, e, name, st, obj, args, fr, out):
        if name is not None and not name.startswith('(') and not e.get('noexc'):
            fn = I.P.fns.get(e.get('fn')) if e.get('fn') else None
            if fn is not None:
                return (STDEXC,)
        return ()

    # ---- models --------------------------------------------------------
    def throw(self, s, ty, e, fr, out, what):
        s2 = s.copy()
        out.append(('t', s2, Exc(ty, None, e.get('l', 0), rel(fr.file), fr.name, what)))

    def call(self, I, e, name, st, obj, args, fr, out):
        self.I = I
        cq, n = e.get('cq'), e.get('n')
        if name is None:
            return None
        if name.startswith('loguru::') or cq is not None and cq.startswith('loguru::'):
            t = e.get('t')
            for i in range(len(args)):
                self.used_as_string(I, st, I.argval(st, e, i, args), e, fr)
            if n == 'current_verbosity_cutoff':
                return [(st, c(-100))]
            return [(st, ZERO if t is None or t.c == 'void' else I.result(e, name, st))]
        if cq == SOCK and n in PRIMS:
            return getattr(self, 'p_' + n)(I, e, st, obj, [I.argval(st, e, i, args) for i in range(len(args))], args, fr, out)
        if cq in ('std::mutex', 'std::recursive_mutex') and n in ('lock', 'unlock'):
            return self.mutex(I, e, st, obj, n, fr, out)
        if cq in ('rainman::option', 'std::optional') and n in ('inner', 'value', 'operator*', 'operator->'):
            v = I.load(st, obj) if isloc(obj) else obj
            if v.op == 'some' or st.facts.decide(mk('is_some', v)) is True:
                for m in self.mon:
                    m.opened(self, st, v, e, fr)
            else:
                for m in self.mon:
                    m.inner(self, st, v, e, fr)
                if v.op in ('none', 'zero'):
                    return []
            return None
        if n is not None and n.startswith('(ctor') or name.endswith('::(ctor)'):
            if name.startswith('std::basic_string::') and len(args) >= 1:
                return self.string_ctor(I, e, name, st, args, fr)
            return None
        if cq == 'HZ_Processor' and n == 'run':
            return self.p_run(I, e, st, args, fr, out)
        fn = I.P.fns.get(e.get('fn')) if e.get('fn') else None
        if cq == 'HZ_Archive' or cq == 'hzapi::ArchiveProvider' or n == 'hz_validate_path' or cq == 'hzcodec::CodecProvider' or cq in ('HZ_Processor', 'Semaphore') \
                or name in ('close', '::close', 'shutdown', '::shutdown', 'hz_rand64', 'hz_enc_token'):
            return self.outside(I, e, name, st, obj, args, fr, out)
        return None

    def string_ctor(self, I, e, name, st, args, fr):
        v = I.argval(st, e, 0, args)
        if v.op == 'ptr' and len(args) <= 2 and e['args'][0].get('t') is not None and e['args'][0]['t'].c == 'ptr':
            L = self.buffer(v)
            if L is not None and ghost(L, 'rx') in st.mem:
                for m in self.mon:
                    m.string(self, st, v, e, fr)
        return None

    def buffer(self, v):
        """Object a pointer points to the beginning of."""
        v = self.I.lib.unwrap(None, v) if False else v
        if v.op != 'ptr':
            return None
        l = v.a[0]
        if l.op == 'el' and l.a[1] is ZERO:
            return l.a[0]
        return None

    def path_tag(self, st, v):
        """(tag, validated) of the received characters that v (a pointer or a string made from it) consists of."""
        v2 = v
        while isinstance(v2, T) and v2.op in ('strof', 'cstr', 'strn', 'built', 'some', 'pv', 'chars', 'path'):
            v2 = next((x for x in v2.a if isinstance(x, T)), None)
            if v2 is None:
                return None, False
        if isloc(v2) and not (v2.op == 'el'):
            v2 = self.I.load(st, v2)
        L = self.buffer(v2) if v2.op == 'ptr' else None
        if L is None and v2.op == 'el':
            L = v2.a[0]
        if L is None:
            return self.tags.get(v2), False
        t = st.mem.get(ghost(L, 'rx'))
        return (t.a[0] if t is not None else None), st.mem.get(ghost(L, 'ok')) is ONE

    def size_of(self, e, v, st):
        """Bytes of the object that the pointer expression refers to, by its type."""
        x = e
        while x is not None and x.get('k') in ('cast', 'upcast', 'paren'):
            x = x.get('e') or x.get('a')
        if x is not None and x.get('k') == 'un' and x.get('op') == '&':
            t = x['e'].get('t') if 'e' in x else x['a'].get('t')
            if t is not None:
                t = t.strip()
                if t.w:
                    return t.w // 8 if t.c != 'bool' else 1
        if x is not None and x.get('t') is not None and x['t'].c == 'ptr' and x['t'].p is not None and x['t'].p.w and x['t'].p.c in ('int', 'enum', 'bool'):
            return max(1, x['t'].p.w // 8)
        return None

    def p_t_recv(self, I, e, st, obj, av, raw, fr, out):
        self.sync = len(av) < 3 or st.facts.decide(eq(av[2], ZERO)) is not True
        if self.sync:
            self.p_t_recv_sync(I, e, st, obj, av, raw, fr, out)
        buf, n = av[0], av[1]
        L = I.deref(buf)
        size = self.size_of(e['args'][0], buf, st)
        for m in self.mon:
            m.recv(self, st, obj, L, n, size, e, fr)
        self.throw(st, CONN, e, fr, out, 'receive failed')
        B = L.a[0] if L.op == 'el' else None
        if B is not None:
            idx = L.a[1]
            tag = self.command_tag(st)
            end = add(idx, n)
            for l in list(st.mem):
                if l.op == 'el' and l.a[0] is B and st.facts.decide(le(end, l.a[1])) is not True:
                    del st.mem[l]
            I.drop_contents(st, B) if False else None
            st.mem[B] = I.fresh('received')
            st.mem[ghost(B, 'rx')] = mk('str', tag)
            st.mem[ghost(B, 'rn')] = end
            st.mem.pop(ghost(B, 'ok'), None)
            st.mem.pop(ghost(B, 'z'), None)
            for l, x in list(st.mem.items()):
                if l.op == 'el' and l.a[0] is B and (x is ZERO or x.op == 'zero') and self.within(st, B, l.a[1]):
                    st.mem[ghost(B, 'z')] = ONE
            return [(st, ZERO)]
        v = self.received(I, st, L, e, n, size)
        if n is ONE:
            self.new_word(I, st, obj, v, e, fr)
        else:
            self.tags[v] = self.command_tag(st)
        I.store(st, L, v, e, fr)
        for m in self.mon:
            m.got(self, st, obj, v, n, e, fr)
        return [(st, ZERO)]

    def received(self, I, st, L, e, n, size):
        old = st.mem.get(L)
        ty = None
        x = e['args'][0]
        while x is not None and x.get('k') in ('cast', 'upcast', 'paren'):
            x = x.get('e') or x.get('a')
        if x is not None and x.get('k') == 'un' and x.get('op') == '&':
            ty = x.get('e', x.get('a')).get('t')
        if ty is not None:
            return I.fresh('rx', ty)
        return I.fresh('rx')

    def group_of(self, st, obj, fr):
        """Command group the next word received by this object belongs to."""
        cur = st.mem.get(ghost(obj, 'grp'))
        if cur is None:
            cls = self.class_of(obj, fr)
            return FIRST.get(cls, '?' + str(cls))
        gname = cur.a[0]
        if gname == 'STREAM':
            w = st.mem.get(ghost(obj, 'w'))
            vs = self.values(st, w, range(256))
            if len(vs) == 1:
                return SUB.get(vs[0], 'STREAM?')
            return 'STREAM?'
        return gname

    def class_of(self, obj, fr):
        """Class of the object whose code is running."""
        r = None
        while fr is not None:
            if fr.this is obj and fr.fn is not None and fr.fn.cq not in (None, SOCK):
                r = fr.fn.cq
            fr = fr.up
        return r

    def values(self, st, w, among):
        """Values of the word that are possible here."""
        if w.op == 'c':
            return [w.a[0]]
        k = st.facts.vals.get(w)
        if k is not None and k.op == 'c':
            return [k.a[0]]
        return [v for v in among if st.facts.decide(eq(w, c(v))) is not False]

    def new_word(self, I, st, obj, v, e, fr):
        grp = self.group_of(st, obj, fr)
        for m in self.mon:
            m.word(self, st, obj, grp, e, fr)
        st.mem[ghost(obj, 'grp')] = mk('str', grp)
        st.mem[ghost(obj, 'w')] = v
        st.mem[g('grp')] = mk('str', grp)
        st.mem[g('w')] = v
        self.tags[v] = 'word:' + grp

    def command(self, st):
        """(group, possible values) of the last command word, or None."""
        grp = st.mem.get(g('grp'))
        if grp is None:
            return None
        return grp.a[0], self.values(st, st.mem[g('w')], range(256))

    def command_tag(self, st):
        cm = self.command(st)
        if cm is None:
            return 'handshake'
        return '%s:%s' % (cm[0], cm[1][0] if len(cm[1]) == 1 else '?')

    def p_t_recv_sync(self, I, e, st, obj, av, raw, fr, out):
        self.throw(st, CONN, e, fr, out, 'send failed')
        return [(st, ZERO)]

    def p_t_send(self, I, e, st, obj, av, raw, fr, out):
        buf, n = av[0], av[1]
        L = I.deref(buf) if buf.op in ('ptr', 'viter') or isloc(buf) else None
        size = self.size_of(e['args'][0], buf, st)
        v = I.load(st, L) if L is not None and L.op != 'el' else None
        for m in self.mon:
            m.send(self, st, obj, v, buf if L is None else L, n, size, e, fr)
        self.throw(st, CONN, e, fr, out, 'send failed')
        return [(st, ZERO)]

    def p_success(self, I, e, st, obj, av, raw, fr, out):
        for m in self.mon:
            m.success(self, st, obj, e, fr)
        self.throw(st, CONN, e, fr, out, 'send failed')
        return [(st, ZERO)]

    def p_error(self, I, e, st, obj, av, raw, fr, out):
        for m in self.mon:
            m.error(self, st, obj, e, fr)
        if st.mem.get(g('failed')) is ONE:
            st.mem[g('told')] = ONE
        return [(st, ZERO)]

    def mutex(self, I, e, st, obj, n, fr, out):
        h = ghost(obj, 'held')
        if n == 'unlock':
            st.mem[h] = ZERO
            return [(st, ZERO)]
        if st.mem.get(h, ZERO) is ZERO:
            st.mem[h] = ONE
            return [(st, ZERO)]
        job = st.mem.get(g('job'))
        if job is None or job is NULL:
            for m in self.mon:
                m.op(self, st, '#deadlock', obj, [], e, fr)
            return []
        res = []
        for s in self.complete(I, e, st, fr, out):
            if s.mem.get(h, ZERO) is ONE:
                for m in self.mon:
                    m.op(self, s, '#deadlock', obj, [], e, fr)
                continue
            s.mem[h] = ONE
            res.append((s, ZERO))
        return res

    def p_run(self, I, e, st, args, fr, out):
        job = I.deref(I.lib.unwrap(st, I.argval(st, e, 0, args)))
        codec = I.load(st, mk('fld', job, 'codec'))
        stub = I.load(st, mk('fld', job, 'stub'))
        codec = I.deref(I.lib.unwrap(st, codec))
        stub = I.deref(I.lib.unwrap(st, stub))
        for m in self.mon:
            m.run(self, st, job, codec, stub, e, fr)
        prev = st.mem.get(g('job'))
        states = [st]
        if prev is not None and prev is not NULL:
            # one more job while the first may still be running: it may have finished or not
            states = self.complete(I, e, st.copy(), fr, out)
        self.throw(st, STDEXC, e, fr, out, 'run')
        for s in states:
            s.mem[g('job')] = mk('ptr', codec)
            s.mem[g('stub')] = mk('ptr', stub)
        return [(s, ZERO) for s in states]

    def callback(self, I, e, st, loc, args, fr, out):
        """States after calling the function stored at loc (if there is one)."""
        f = I.load(st, loc)
        if f.op in ('zero', 'null', 'none'):
            return [st]
        if f.op not in ('clo', 'fnref'):
            return [st]
        e2 = {'k': 'call', 'l': e.get('l', 0), 'args': [], 't': None, 'tu': e.get('tu')}
        return [s for s, _ in I.call_value(f, e2, st, args, fr, out)]

    def complete(self, I, e, st, fr, out):
        """The submitted job runs to its end: states afterwards."""
        codec, stub = st.mem[g('job')].a[0], st.mem[g('stub')].a[0]
        F = lambda l, n: mk('fld', l, n)
        res = []
        fails = []
        ok = [st.copy()]
        first = st.copy()
        fails.append(first)
        o2 = []
        nxt = []
        for s in ok:
            bid = I.fresh('blob_id')
            self.tags[bid] = 'blobid'
            s0 = s.copy()
            has = I.load(s, F(codec, 'blob_id_callback')).op == 'clo'
            for s2 in self.callback(I, e, s, F(codec, 'blob_id_callback'), [bid], fr, o2):
                if has:
                    for m in self.mon:
                        m.recorded(self, s0, s2, bid, e, fr)
                nxt.append(s2)
        ok, nxt = nxt, []
        for s in ok:
            b = I.newobj('result')
            s.mem[mk('fld', b, '#n')] = ONE
            s.mem[b] = I.fresh('result')
            nxt += self.callback(I, e, s, F(codec, 'blob_callback'), [mk('ptr', mk('el', b, ZERO))], fr, o2)
        ok = nxt
        for o in o2:
            fails.append(o[1])
        done = []
        for s in ok:
            o3 = []
            done += self.callback(I, e, s, F(stub, 'on_success'), [mk('str', 'ok')], fr, o3)
        for s in fails:
            s.mem[g('failed')] = ONE
            o3 = []
            done += self.callback(I, e, s, F(stub, 'on_error'), [I.fresh('msg')], fr, o3)
        for s in done:
            o3 = []
            for s2 in self.callback(I, e, s, F(stub, 'on_completed'), [], fr, o3):
                s2.mem[g('job')] = NULL
                s2.mem.pop(g('stub'), None)
                res.append(s2)
        return [o[1] for o in I.reduce([('n', s, None) for s in res])]

    def outside(self, I, e, name, st, obj, args, fr, out):
        n = e.get('n')
        self.raw = args
        av = [I.argval(st, e, i, args) for i in range(len(args))]
        for i, v in enumerate(av):
            self.used_as_string(I, st, v, e, fr)
        for m in self.mon:
            m.op(self, st, n, obj, av, e, fr)
        if not (e.get('cq') == 'Semaphore' or n in ('close', 'shutdown', 'hz_rand64')):
            self.throw(st, STDEXC, e, fr, out, n)
        if n == 'hz_validate_path':
            L = self.chars_of(I, st, av[0])
            if L is not None:
                st.mem[ghost(L, 'ok')] = ONE
            return [(st, ZERO)]
        r = I.result(e, name, st)
        if n == 'provide':
            tag, ok = self.path_tag(st, av[0])
            o = I.newobj('archive')
            st.mem[ghost(o, 'from')] = mk('str', str(tag))
            st.mem[mk('fld', o, '#n')] = ONE
            st.mem[o] = I.fresh('archive')
            return [(st, mk('ptr', mk('el', o, ZERO)))]
        if n in ('read_blob', 'read_mstate'):
            o = I.newobj(n)
            st.mem[mk('fld', o, '#n')] = ONE
            st.mem[ghost(o, 'stored')] = ONE
            st.mem[o] = I.fresh(n)
            return [(st, mk('ptr', mk('el', o, ZERO)))]
        if n == 'hz_rand64':
            self.tags[r] = 'token'
        if n == 'hz_enc_token':
            r = mk('enc', *av)
        if n == 'algorithm_to_bsize':
            r.nn = True
            st.facts.assume(eq(r, ZERO), False)
            self.tags[r] = 'bsize'
        for m in self.mon:
            m.after(self, st, n, obj, av, r, e, fr)
        return [(st, r)]

    def chars_of(self, I, st, v):
        while isinstance(v, T) and v.op in ('strof', 'cstr', 'strn', 'built', 'some', 'pv', 'chars'):
            v = next((x for x in v.a if isinstance(x, T)), None)
            if v is None:
                return None
        return self.buffer(v) if isinstance(v, T) else None

    def used_as_string(self, I, st, v, e, fr):
        L = self.chars_of(I, st, v)
        if L is not None and ghost(L, 'rx') in st.mem:
            for m in self.mon:
                m.string(self, st, mk('ptr', mk('el', L, ZERO)), e, fr)


THIS = mk('obj', 'session')


def program(ctx=None):
    p = prog.load(UNITS)
    if ctx:
        ctx.program(p)
    return p


def explore(p, monitors, root='hzapi::ApiInstance::start'):
    cl = Net(monitors)
    I = engine.Interp(p, cl)
    cl.I = I
    I.step_limit = 40000000
    f = p.one(root)
    outs = I.run(f, this=THIS)
    for m in monitors:
        m.done(cl, outs)
    cl.fns.add(f)
    return cl, I, outs


def decide(ctx, *monitors):
    """Explores a whole session with the given monitors and records their obligations."""
    p = program(ctx)
    cl, I, outs = explore(p, list(monitors))
    ctx.analysed(*sorted(cl.fns, key=lambda f: f.q))
    ctx.count('abstract states at loop heads', I.stats.get('states', 0))
    cl.report(ctx)
    for a in ASSUME:
        ctx.assume(a)
    return cl, I, outs


ASSUME = ['The transfer primitives of SocketInterface do what C17 establishes; operations of the archive, the archive provider, the path validator and the processor return or throw.',
          'A job runs to its end once it was submitted: it calls the callbacks it was given and then reports success or an error (C26, C30).']
