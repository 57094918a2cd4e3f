"""Path- and loop-aware abstract interpreter over the resolved syntax tree.

A state is an abstract memory (location -> value term), a set of facts and a
trace of the events the client is interested in.  Conditions that the facts do
not decide split the state; loops are summarised (induction variables, search
loops, otherwise havoc) and appear in traces as one loop event; calls into the
repository are analysed in context; library calls are modelled in `lib.py`.
"""
import sys
import functools
from .terms import *
from .extract import AnalysisError
from .prog import rel, walk, Type

INT = Type({'n': 'int', 'c': 'int', 'w': 32, 's': True})

sys.setrecursionlimit(20000)

STD_EXC = {
    'std::exception': None, 'std::bad_alloc': 'std::exception', 'std::runtime_error': 'std::exception',
    'std::logic_error': 'std::exception', 'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
    'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error', 'std::range_error': 'std::runtime_error',
    'std::overflow_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error',
    'std::filesystem::filesystem_error': 'std::system_error', 'std::filesystem::__cxx11::filesystem_error': 'std::system_error',
    'std::regex_error': 'std::runtime_error', 'std::bad_function_call': 'std::exception', 'std::ios_base::failure': 'std::system_error',
}


class Event:
    __slots__ = ('k', 'd', 'line', 'file', 'fn', 'stack')

    def __init__(self, k, d, line, file, fn, stack):
        self.k, self.d, self.line, self.file, self.fn, self.stack = k, d, line, file, fn, stack

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def __repr__(self):
        return '%s@%s:%d{%s}' % (self.k, self.file.split('/')[-1], self.line, ', '.join('%s=%s' % (k, show(v) if isinstance(v, T) else v) for k, v in self.d.items() if k != 'body'))

    def at(self):
        return '%s:%d (%s)' % (self.file, self.line, self.fn)


class Exc:
    __slots__ = ('type', 'val', 'line', 'file', 'fn', 'what')

    def __init__(self, type, val, line, file, fn, what=''):
        self.type, self.val, self.line, self.file, self.fn, self.what = type, val, line, file, fn, what

    def __repr__(self):
        return 'throw %s at %s:%d (%s) %s' % (self.type, self.file, self.line, self.fn, self.what)


class State:
    __slots__ = ('mem', 'facts', 'trace', 'cl', 'live')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.trace = None
        self.cl = {}
        self.live = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.trace = self.trace
        s.cl = dict(self.cl)
        s.live = self.live
        return s

    def key(self):
        return (frozenset(self.mem.items()), self.facts.key(), id(self.trace), frozenset(self.cl.items()))

    def events(self):
        r, t = [], self.trace
        while t is not None:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r

    def since(self, mark):
        r, t = [], self.trace
        while t is not None and t is not mark:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r


class Frame:
    __slots__ = ('id', 'fn', 'file', 'name', 'this', 'caps', 'up', 'depth', 'scopes', 'handler', 'rt', 'node')
    count = [0]

    def __init__(self, name, file, this=None, up=None, caps=None):
        Frame.count[0] += 1
        self.id = Frame.count[0]
        self.name, self.file, self.this, self.up = name, file, this, up
        self.caps = caps or {}
        self.depth = up.depth + 1 if up else 0
        self.handler = None
        self.rt = None
        self.fn = None
        self.node = None

    def stack(self):
        r, f = [], self
        while f is not None:
            r.append(f.name)
            f = f.up
        return tuple(reversed(r))


@functools.lru_cache(maxsize=None)
def signature(fid):
    """Parameter types of a function by its identifier."""
    if not fid or not fid.endswith(')') and not fid.endswith(') const'):
        return None
    fid = fid[:-6] if fid.endswith(' const') else fid
    d, i = 0, len(fid) - 1
    ps, end = [], i
    while i >= 0:
        ch = fid[i]
        if ch in ')>]}' and not (ch == '>' and fid[i - 1] == '-'):
            d += 1
        elif ch in '(<[{':
            d -= 1
            if d == 0:
                x = fid[i + 1:end]
                if x.strip() or ps:
                    ps.append(x)
                return ps[::-1]
        elif ch == ',' and d == 1:
            ps.append(fid[i + 1:end])
            end = i
        i -= 1
    return None


class Client:
    """Hooks; subclasses override."""
    max_paths = 4000
    merge = False
    tracing = True          # keep the events of every path
    follow_clones = True
    distinct_objects = False    # an object made by the explored code is no other object

    def want_inline(self, fn, st):
        return True

    def call(self, I, e, name, st, obj, args, fr, out):
        """Return None for default treatment, or a list of (state, value)."""
        return None

    def opaque(self, I, e, name, st, obj, args, fr, out):
        """Called for calls without a model; may add events. Returns list of exception type names it may raise."""
        return ()

    def on_read(self, I, st, loc, e, fr):
        pass

    def on_write(self, I, st, loc, v, e, fr):
        pass

    def on_event(self, I, st, ev):
        """May add to the event what holds at this point."""

    def on_decl(self, I, st, v, loc, fr):
        pass

    def on_wrap(self, I, st, e, t, fr):
        pass

    def on_scope_exit(self, I, st, v, loc, fr):
        pass

    def merge_key(self, st):
        return ()

    def collects(self, I, n, st, fr):
        """Is the loop analysed by collecting the set of abstract states at its head?"""
        return False

    def settles(self, I, fr):
        """Are the outcomes of this function put in canonical form?"""
        return False

    def settled(self, I, st, fr):
        """Before a state is compared with those already seen at the head of a loop."""

    def closing(self, I, st):
        """Before a state is put into canonical form."""

    def loop_round(self, I, n, st, fr, rng, k):
        """At the head of a collected loop."""

    def forgets(self, I, t):
        """Is what is known about this value dropped at the head of the loop it was obtained in?"""
        return False

    def renamed(self, I, old, new):
        pass

    def widened(self, I, loc, vals, new):
        pass

    def name_of(self, I, t):
        """What must be kept about an unknown value when states are compared."""
        return None


import os
DBG=bool(os.environ.get('HZDBG'))


def rounds_end(I, cnd, st, fr):
    """Is a plain variable that the loop depends on known to be false?"""
    if any(x.get('k') in ('call', 'un', 'new') and (x['k'] != 'un' or x['op'] in ('++', '--')) or x.get('k') == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=')
           for x in walk(cnd)):
        return False
    return not any(b for _, b in I.cond(cnd, st.copy(), fr, []))


class Interp:
    def __init__(self, prog, client):
        self.P = prog
        self.C = client
        client.I = self
        self.callstack = []
        self.stats = {'functions': set(), 'paths': 0, 'calls': 0, 'loops': 0, 'opaque': {}}
        self.clos = {}
        self.objs = 0
        self.fills = {}
        from . import lib
        self.lib = lib.Lib(self)
        self.types_of = {}
        self.nums = set()
        self.lits = {}
        self.steps = 0
        self.step_limit = 4000000
        self._bases = {}
        self.loopmemo = {}
        self._fieldtypes = {}

    # ---- small helpers ---------------------------------------------------
    def emit(self, st, k, e, fr, **d):
        ev = Event(k, d, e.get('l', 0) if e else 0, rel(fr.file), fr.name, fr.stack())
        self.C.on_event(self, st, ev)
        if self.C.tracing:
            st.trace = (st.trace, ev)
        return ev

    def newobj(self, hint='', ty=None):
        self.objs += 1
        o = mk('obj', '%s#%d' % (hint, self.objs))
        if ty is not None:
            self.types_of[o] = ty
        return o

    def fresh(self, hint, ty=None):
        nn = False
        if ty is not None:
            t = ty.strip() if ty.c == 'ref' else ty
            nn = t.nonneg
            if t.c == 'bool':
                hint = 'b:' + hint
        s = fresh(hint, nn)
        if ty is not None:
            self.types_of[s] = ty
        return s

    def fld(self, loc, name):
        if loc.op == 'mitem' and name == 'second':
            return mk('el', loc.a[0], loc.a[1])
        return mk('fld', loc, name)

    def deref(self, v):
        """Location a pointer value points to."""
        if v.op == 'ptr':
            return v.a[0]
        if isloc(v):
            return v
        if v.op == 'viter':
            return mk('el', v.a[0], v.a[1])
        if v.op == 'miter':
            return mk('mitem', v.a[0], v.a[1])
        if v.op == 'lin':
            # pointer + offset
            for a, n in v.a[1]:
                ty = self.types_of.get(a)
                if n == 1 and (a.op in ('ptr', 'viter') or (ty is not None and ty.c in ('ptr', 'arr')) or a.op in ('pv',)):
                    return self.elem(self.deref(a), sub(v, a))
        return mk('el', mk('mem', v), ZERO)

    def elem(self, loc, idx):
        """Location idx elements after loc."""
        if loc.op == 'el':
            return mk('el', loc.a[0], add(loc.a[1], idx))
        if idx is ZERO:
            return loc
        return mk('el', loc, idx)

    # ---- memory ----------------------------------------------------------
    def sel(self, v, f, ty=None):
        if v.op == 'zero':
            return v
        if v.op == 'uninit':
            return v
        if v.op == 'recv' or v.op == 'aggr':
            for n, x in v.a:
                if n == f:
                    return x
        while True:
            if v.op == 'withf':
                p = v.a[1]
                if p[0] != f:
                    v = v.a[0]
                    continue
                if len(p) == 1:
                    return v.a[2]
                return mk('withf', self.sel(v.a[0], f), p[1:], v.a[2])
            if v.op == 'at' and v.a[0].op == 'updp' and v.a[0].a[2] and v.a[0].a[2][0] != f:
                w = v.a[0].a[0]
                if w.op in ('zero', 'uninit'):
                    return w
                v = mk('at', w, v.a[1])
                continue
            break
        t = mk('sel', v, f)
        return t

    def at(self, st, v, i):
        while v.op == 'withf' and isinstance(v.a[1][0], tuple):
            j = v.a[1][0][1]
            r = True if j is i else st.facts.decide(eq(j, i))
            if r is True:
                w = self.at(st, v.a[0], i)
                return v.a[2] if len(v.a[1]) == 1 else mk('withf', w, v.a[1][1:], v.a[2])
            if r is None:
                return mk('at', v, i)
            v = v.a[0]
        while v.op == 'updp':
            r = True if v.a[1] is i else st.facts.decide(eq(v.a[1], i))
            if r is True:
                return v.a[3] if v.a[2] == () else mk('withf', self.at(st, v.a[0], i), v.a[2], v.a[3])
            if r is not False:
                break
            v = v.a[0]
        if v.op in ('zero', 'uninit'):
            return v
        if v.op == 'fill':
            k, x, old = v.a
            return self.substitute(x, k, i)
        if v.op == 'push':
            n = mk_len(v.a[0])
            if n is i:
                return v.a[1]
        if v.op == 'str' and i.op == 'c':
            s = v.a[0]
            if 0 <= i.a[0] < len(s):
                return c(ord(s[i.a[0]]))
        if v.op == 'list' and i.op == 'c' and 0 <= i.a[0] < len(v.a):
            return v.a[i.a[0]]
        return mk('at', v, i)

    def substitute(self, t, a, b):
        if t is a:
            return b
        if not isinstance(t, T):
            return t
        if t.op == 'lin':
            r = c(t.a[0])
            for x, n in t.a[1]:
                r = add(r, scale(self.substitute(x, a, b), n))
            return r
        if t.op == 'mul':
            r = ONE
            for x in t.a:
                r = mul(r, self.substitute(x, a, b))
            return r
        if t.op in ('c', 'str', 'sym', 'obj', 'var', 'glob', 'null', 'clo'):
            return t
        na = tuple(self.substitute(x, a, b) if isinstance(x, T) else tuple(self.substitute(y, a, b) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in t.a)
        if na == t.a:
            return t
        if t.op == 'eq0':
            return eq(na[0], ZERO)
        if t.op == 'le0':
            return le(na[0], ZERO)
        r = mk(t.op, *na)
        r.nn = t.nn
        ty = self.types_of.get(t)
        if ty is not None:
            self.types_of[r] = ty
        return r

    def load(self, st, loc):
        v = st.mem.get(loc)
        if v is not None:
            return v
        o = loc.op
        if o == 'fld':
            if loc.a[0].op == 'mitem':
                if loc.a[1] == 'first':
                    return loc.a[0].a[1]
            return self.sel(self.load(st, loc.a[0]), loc.a[1])
        if o == 'el':
            base, idx = loc.a
            v = self.folded(st, base, idx)
            return self.at(st, v, idx)
        if o == 'mitem':
            return mk('pair', loc.a[1], self.load(st, mk('el', loc.a[0], loc.a[1])))
        if o == 'glob':
            if loc.a[0].endswith('basic_string::npos') or loc.a[0].endswith('>::npos'):
                return c(2 ** 64 - 1)
            g = self.P.globals.get(loc.a[0])
            if g is not None and g.get('t') is not None and g['t'].const and 'init' in g and g['init'].get('cv') is not None:
                return c(g['init']['cv'])
            if g is not None and g['t'].const and 'init' in g and g['init'].get('k') == 'str':
                return mk('str', g['init']['v'])
        return mk('init', loc)

    def typed(self, v, ty):
        """Scalar view of v as type ty."""
        if ty is None:
            return v
        if ty.c == 'ref':
            ty = ty.p
        if v.op == 'zero':
            if ty.isint:
                return ZERO
            if ty.c in ('ptr', 'nullptr'):
                return NULL
        if v.op in ('init', 'sel', 'at', 'mixed', 'sym', 'inner', 'pv') and v not in self.types_of:
            self.types_of[v] = ty
            if ty.nonneg:
                v.nn = True
        return v

    def drop_contents(self, st, loc):
        """Forget what a location holds; the number of elements of an allocation never changes."""
        n = mk('fld', loc, '#n')
        v = st.mem.get(n)
        self.drop_under(st, loc)
        if v is not None:
            st.mem[n] = v

    def drop_under(self, st, loc, keep_self=False):
        dead = [l for l in st.mem if (l.op in ('fld', 'el', 'mitem') and self._under(l, loc)) or l is loc]
        for l in dead:
            if keep_self and l is loc:
                continue
            del st.mem[l]

    def _under(self, t, base):
        while True:
            if t is base:
                return True
            if t.op in ('fld', 'el', 'mitem'):
                t = t.a[0]
            else:
                return False

    def store(self, st, loc, v, e=None, fr=None, quiet=False):
        if not quiet and fr is not None:
            self.C.on_write(self, st, loc, v, e, fr)
        if isloc(v) or v.op == 'mitem':
            return self.copy_rec(st, v, loc)
        self.drop_under(st, loc)
        x = loc
        while x.op in ('fld', 'el', 'mitem'):
            if x.op == 'el':
                self.settle(st, x.a[0], x.a[1])
            x = x.a[0]
        st.mem[loc] = v

    def aliases(self, st, base, idx):
        """Recorded elements of base that may be element idx: (location, index, path below the element)."""
        r = []
        for l in st.mem:
            if l.op not in ('el', 'fld', 'mitem'):
                continue
            y = l
            while y.op in ('fld', 'mitem') or (y.op == 'el' and y.a[0] is not base):
                y = y.a[0]
            if y.op != 'el' or y.a[0] is not base or y.a[1] is idx or y.a[1].op == 'c' and idx.op == 'c':
                continue
            if st.facts.decide(eq(y.a[1], idx)) is False:
                continue
            path = []
            y = l
            while y.op in ('fld', 'mitem') or (y.op == 'el' and y.a[0] is not base):
                path.append(y.a[1] if y.op == 'fld' else ('el', y.a[1]))
                y = y.a[0]
            r.append((l, y.a[1], tuple(reversed(path))))
        return r

    def folded(self, st, base, idx):
        """Value of base in which every recorded element that may be element idx has been written."""
        cur = self.load(st, base)
        for l, i, path in self.aliases(st, base, idx):
            cur = mk('updp', cur, i, path, st.mem[l])
        return cur

    def settle(self, st, base, idx):
        """Before element idx of base is stored to: what is recorded about elements that may be the same moves into base."""
        al = self.aliases(st, base, idx)
        if al:
            cur = self.folded(st, base, idx)
            for l, i, path in al:
                del st.mem[l]
            st.mem[base] = cur

    def copy_rec(self, st, src, dst):
        if src is dst:
            return
        v = self.load(st, src)
        subs = [(l, x) for l, x in st.mem.items() if l is not src and l.op in ('fld', 'el') and self._under(l, src)]
        self.drop_under(st, dst)
        st.mem[dst] = v
        for l, x in subs:
            st.mem[self.rebase(l, src, dst)] = x

    def rebase(self, l, src, dst):
        if l is src:
            return dst
        if l.op == 'fld':
            return mk('fld', self.rebase(l.a[0], src, dst), l.a[1])
        return mk(l.op, self.rebase(l.a[0], src, dst), l.a[1])

    def havoc(self, st, loc, hint='havoc'):
        ty = self.types_of.get(self.load(st, loc))
        self.drop_under(st, loc)
        v = self.fresh(hint)
        if ty is not None:
            self.types_of[v] = ty
            v.nn = ty.nonneg
        st.mem[loc] = v

    def val(self, st, x, ty=None):
        """Value term of an evaluated expression (loads record locations)."""
        if isloc(x) or x.op == 'mitem':
            return self.load(st, x)
        return x

    # ---- types -----------------------------------------------------------
    def is_lib_value(self, ty):
        """Library class modelled as one value term."""
        return ty is not None and ty.c == 'rec' and self.lib.is_value_class(ty)

    def fieldtype(self, recname, f):
        k = (recname, f)
        r = self._fieldtypes.get(k)
        if r is None:
            rec = self.P.records.get(recname)
            r = False
            if rec:
                for x in rec['fields']:
                    if x['n'] == f:
                        r = x['t']
            self._fieldtypes[k] = r
        return r or None

    def catches(self, exc, ty):
        """Does a handler of type ty catch exception type name exc? (True/False/None)"""
        t = ty
        while t.c in ('ref', 'ptr'):
            t = t.p
        n = (t.rec or t.n)
        if n.startswith('const '):
            n = n[6:]
        if exc == n:
            return True
        if exc == '?':
            return None
        x = exc
        while x in STD_EXC:
            if x == n:
                return True
            x = STD_EXC[x]
        b = self.P.bases(exc)
        if n in b:
            return b[n]
        for k, pub in b.items():
            x = k
            while x in STD_EXC:
                if x == n:
                    return pub
                x = STD_EXC[x]
        return False

    # ---- expressions -----------------------------------------------------
    def lookup(self, e, fr):
        d = e['d']
        if d == 'global':
            return mk('glob', e['q'])
        if e.get('static'):
            return mk('glob', '%s::%s' % (fr.file, e['n']))
        vid = (id(e['tu']), e['id'])
        if vid in fr.caps:
            return fr.caps[vid]
        return mk('var', fr.id, e['id'], e['n'])

    def evl(self, e, st, fr, out):
        """Evaluate to locations: list of (state, loc)."""
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisError('analysis budget exceeded')
        k = e['k']
        if k == 'ref' and e['d'] not in ('fn', 'enum', 'other'):
            loc = self.lookup(e, fr)
            t = e.get('t')
            # a reference variable holds a pointer to its target
            v = st.mem.get(loc)
            if v is not None and v.op == 'rf':
                return [(st, v.a[0])]
            if loc.op == 'glob':
                g = self.P.globals.get(loc.a[0])
                if g is not None and g['t'].c == 'ref' and v is None:
                    return [(st, mk('el', mk('mem', mk('init', loc)), ZERO))]
            return [(st, loc)]
        if k == 'mem':
            if e.get('fn'):
                return [(st, mk('fnref', e['fn']))]
            b = e['b']
            r = []
            if e.get('arrow'):
                for s, v in self.ev(b, st, fr, out):
                    r.append((s, self.fld(self.deref(self.lib.unwrap(s, v)), e['n'])))
            else:
                for s, l in self.evl(b, st, fr, out):
                    r.append((s, self.fld(l, e['n'])))
            # reference members
            rr = []
            for s, l in r:
                v = s.mem.get(l)
                if v is not None and v.op == 'rf':
                    l = v.a[0]
                rr.append((s, l))
            return rr
        if k == 'this':
            return [(st, mk('ptr', fr.this))]
        if k == 'un' and e['op'] == '*':
            return [(s, self.deref(v)) for s, v in self.ev(e['e'], st, fr, out)]
        if k == 'un' and e['op'] in ('++', '--'):
            r = []
            for s, l in self.evl(e['e'], st, fr, out):
                self.bump(e, s, l, fr)
                r.append((s, l))
            return r
        if k == 'idx':
            r = []
            for s, b in self.ev(e['b'], st, fr, out):
                for s2, i in self.ev(e['i'], s, fr, out):
                    r.append((s2, self.elem(self.deref(b), i)))
            return r
        if k == 'bin' and (e['op'] == '=' or (e['op'][-1] == '=' and e['op'] not in ('==', '!=', '<=', '>='))):
            return self.assign(e, st, fr, out)
        if k == 'bin' and e['op'] == ',':
            r = []
            for s, _ in self.ev(e['a'], st, fr, out):
                r += self.evl(e['b'], s, fr, out)
            return r
        if k == 'cond':
            r = []
            for s, b in self.cond(e['c'], st, fr, out):
                r += self.evl(e['a'] if b else e['b'], s, fr, out)
            return r
        if k == 'upcast':
            # base sub-object: fields are found under the same location
            if e['e'].get('lv') or e['t'].c == 'rec':
                return self.evl(e['e'], st, fr, out)
            return self.ev(e['e'], st, fr, out)
        if k == 'cast':
            if e['e'].get('lv') and e.get('lv'):
                return self.evl(e['e'], st, fr, out)
        # prvalue of record type or value: materialise
        r = []
        for s, v in (self.call(e, st, fr, out) if k == 'call' and e.get('lv') else self.ev(e, st, fr, out)):
            if isloc(v) or v.op in ('mitem', 'fnref'):
                r.append((s, v))
            else:
                o = self.newobj('tmp', e.get('t'))
                s.mem[o] = v
                if v.op == 'str':
                    self.lits[o] = v
                r.append((s, o))
        return r

    def bump(self, e, s, l, fr):
        ty = e['e']['t']
        old = self.typed(self.load(s, l), ty)
        self.C.on_read(self, s, l, e, fr)
        n = ONE if '+' in e['op'] else c(-1)
        new = self.arith('+', old, n, ty, s, e, fr)
        if ty is not None and ty.isint and not ty.s and ty.w and ty.w < 32:
            new = self.conv(new, ty, s, INT)
        self.store(s, l, new, e, fr)
        return old, new

    def assign(self, e, st, fr, out):
        r = []
        op = e['op']
        if op == '=':
            for s, v in self.ev(e['b'], st, fr, out):
                for s2, l in self.evl(e['a'], s, fr, out):
                    ty = e['a']['t']
                    self.store(s2, l, v, e, fr)
                    r.append((s2, l))
            return r
        for s, v in self.ev(e['b'], st, fr, out):
            for s2, l in self.evl(e['a'], s, fr, out):
                ty = e['a']['t']
                old = self.typed(self.load(s2, l), ty)
                self.C.on_read(self, s2, l, e, fr)
                new = self.arith(op[:-1], old, v, e.get('crt') or ty, s2, e, fr)
                new = self.conv(new, ty, s2, e.get('crt'))
                self.store(s2, l, new, e, fr)
                r.append((s2, l))
        return r

    def arith(self, op, x, y, ty, st, e, fr):
        if x.op in ('zero', 'uninit') and ty is not None and ty.isint and x.op == 'zero':
            x = ZERO
        if y.op == 'zero':
            y = ZERO
        f = st.facts
        if op in ('+', '-'):
            if x.op in ('ptr', 'viter') or y.op in ('ptr', 'viter'):
                if x.op in ('ptr', 'viter') and y.op in ('ptr', 'viter') and op == '-':
                    if x.op == 'viter' and x.a[0] is y.a[0]:
                        return sub(x.a[1], y.a[1])
                    lx, ly = self.deref(x), self.deref(y)
                    if lx.op == 'el' and ly.op == 'el' and lx.a[0] is ly.a[0]:
                        return sub(lx.a[1], ly.a[1])
                    return mk('ptrdiff', x, y)
                if y.op in ('ptr', 'viter'):
                    x, y = y, x
                if op == '-':
                    y = scale(y, -1)
                if x.op == 'viter':
                    return mk('viter', x.a[0], add(x.a[1], y))
                return mk('ptr', self.elem(x.a[0], y))
            r = add(x, y) if op == '+' else sub(x, y)
            if ty is not None and ty.isint and not ty.s and not nonneg(r):
                if not f._implied_le(scale(r, -1)):
                    self.C.on_wrap(self, st, e, r, fr)
            return r
        if op == '*':
            return mul(x, y)
        if op == '<<':
            if y.op == 'c' and 0 <= y.a[0] < 128:
                r = scale(x, 1 << y.a[0])
                if x.op == 'c' and ty is not None and ty.w:
                    return c(r.a[0] & ((1 << ty.w) - 1)) if not ty.s else r
                return r
            t = mk('shl', x, y)
            t.nn = x.nn
            return t
        if x.op == 'c' and y.op == 'c':
            a, b = x.a[0], y.a[0]
            if op == '&':
                return c(a & b)
            if op == '|':
                return c(a | b)
            if op == '^':
                return c(a ^ b)
            if op == '>>':
                return c(a >> b)
            if op == '/' and b:
                q = abs(a) // abs(b)
                return c(q if (a >= 0) == (b >= 0) else -q)
            if op == '%' and b:
                q = abs(a) % abs(b)
                return c(q if a >= 0 else -q)
        if op == '/' and y is ONE:
            return x
        if op == '%' and y is ONE:
            return ZERO
        if op == '/' and y.op == 'c' and y.a[0] > 0:
            k, i = lin(x)
            if k % y.a[0] == 0 and all(n % y.a[0] == 0 for _, n in i):
                return mklin(k // y.a[0], [(a, n // y.a[0]) for a, n in i])
        if op == '%' and y.op == 'c' and y.a[0] > 0:
            k, i = lin(x)
            if nonneg(x) and all(n % y.a[0] == 0 for _, n in i):
                return c(k % y.a[0])
        if op == '>>' and y.op == 'c' and x.op in ('lin', 'sym'):
            m = 1 << y.a[0]
            k, i = lin(x)
            if k % m == 0 and all(n % m == 0 for _, n in i):
                return mklin(k // m, [(a, n // m) for a, n in i])
        name = {'&': 'and', '|': 'or', '^': 'xor', '>>': 'shr', '/': 'div', '%': 'mod'}[op]
        if name in ('and', 'or', 'xor'):
            if x.id > y.id:
                x, y = y, x
            if name == 'xor' and x is y:
                return ZERO
            if name in ('and', 'or') and x is y:
                return x
            if (x is ZERO or y is ZERO):
                o = y if x is ZERO else x
                return ZERO if name == 'and' else o
            if name == 'and':
                m, o = (x, y) if x.op == 'c' else (y, x) if y.op == 'c' else (None, None)
                if m is not None and m.a[0] >= 0 and (m.a[0] & (m.a[0] + 1)) == 0:
                    k, i = lin(o)
                    if all(n % (m.a[0] + 1) == 0 for _, n in i):
                        return c(k & m.a[0])
                    if o.op in ('xor', 'or', 'and') and len(o.a) == 2:
                        ps = [self.arith('&', q, m, ty, st, e, fr) for q in o.a]
                        if all(q.op == 'c' for q in ps):
                            return self.arith({'xor': '^', 'or': '|', 'and': '&'}[o.op], ps[0], ps[1], ty, st, e, fr)
                    w = self.width(o, st)
                    if w is not None and w <= m.a[0].bit_length() and nonneg(o):
                        return o
        t = mk(name, x, y)
        if x.nn or (x.op == 'c' and x.a[0] >= 0):
            if name in ('div', 'mod', 'shr', 'or', 'xor'):
                t.nn = y.nn or (y.op == 'c' and y.a[0] >= 0)
            if name == 'and':
                t.nn = True
        if name == 'and' and (y.nn or (y.op == 'c' and y.a[0] >= 0)):
            t.nn = True
        if ty is not None and ty.nonneg:
            t.nn = True
        return t

    def width(self, t, st=None):
        """Upper bound on the number of value bits of a non-negative term, if known."""
        if t.op == 'c':
            return t.a[0].bit_length() if t.a[0] >= 0 else None
        if t.op == 'rd':
            return t.a[0]
        if t.op == 'and':
            ws = [self.width(x) for x in t.a]
            ws = [w for w in ws if w is not None]
            return min(ws) if ws else None
        if t.op == 'trunc':
            return t.a[0]
        if t.op == 'shr' and t.a[1].op == 'c':
            w = self.width(t.a[0])
            return max(0, w - t.a[1].a[0]) if w is not None else None
        if t.op in ('or', 'xor'):
            ws = [self.width(x) for x in t.a]
            return max(ws) if all(w is not None for w in ws) else None
        if t.op in PREDS or t.op in BOOL:
            return 1
        ty = self.types_of.get(t)
        if ty is not None and ty.isint and not ty.s:
            return ty.w
        if t.op == 'len':
            return 64
        return None

    def conv(self, v, to, st, frm=None):
        """Value conversion to integer type `to`."""
        if to is None:
            return v
        if to.c == 'ref':
            to = to.p
        if v.op == 'zero':
            return self.typed(v, to)
        if to.c == 'bool':
            return truth(v)
        if not to.isint:
            return v
        if v.op == 'c':
            n = v.a[0]
            if to.w:
                n &= (1 << to.w) - 1
                if to.s and n >> (to.w - 1):
                    n -= 1 << to.w
            return c(n)
        fw = frm.w if frm is not None and frm.isint else None
        if to.w and fw and to.w < fw:
            w = self.width(v, st)
            if w is not None and w <= (to.w - 1 if to.s else to.w):
                return v
            if v.op == 'trunc' and v.a[0] <= to.w:
                return v
            if st is not None and v.op == 'lin' and not to.s and st.facts._implied_le(scale(v, -1)) \
                    and st.facts._implied_le(sub(v, c((1 << to.w) - 1))):
                return v
            t = mk('trunc', to.w, to.s, v)
            t.nn = not to.s
            return t
        if not to.s and frm is not None and frm.s and not nonneg(v):
            if st is not None and st.facts._implied_le(scale(v, -1)):
                return v
            if v.op in ('sel', 'at', 'init', 'sym', 'lin', 'trunc', 'fn', 'mixed', 'len') or True:
                t = mk('u', to.w, v)
                t.nn = True
                return t
        return v

    def cond(self, e, st, fr, out):
        """Evaluate as a condition: list of (state, bool)."""
        k = e['k']
        if e.get('cv') is not None and k != 'call':
            return [(st, bool(e['cv']))]
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st, fr, out)]
        if k == 'bin' and e['op'] == '&&':
            r = []
            for s, b in self.cond(e['a'], st, fr, out):
                if b:
                    r += self.cond(e['b'], s, fr, out)
                else:
                    r.append((s, False))
            return r
        if k == 'bin' and e['op'] == '||':
            r = []
            for s, b in self.cond(e['a'], st, fr, out):
                if b:
                    r.append((s, True))
                else:
                    r += self.cond(e['b'], s, fr, out)
            return r
        if k == 'cond':
            r = []
            for s, b in self.cond(e['c'], st, fr, out):
                r += self.cond(e['a'] if b else e['b'], s, fr, out)
            return r
        if k == 'cast' and e['ck'] in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.cond_val(e['e'], st, fr, out)
        return self.cond_val(e, st, fr, out)

    def cond_val(self, e, st, fr, out):
        r = []
        for s, v in self.ev(e, st, fr, out):
            v = self.val(s, v)
            t = truth(self.typed(v, e.get('t')))
            r += self.split(s, t)
        return r

    def split(self, s, t):
        d = s.facts.decide(t)
        if d is not None:
            return [(s, d)]
        s2 = s.copy()
        r = []
        if s.facts.assume(t, True):
            r.append((s, True))
        if s2.facts.assume(t, False):
            r.append((s2, False))
        return r

    def is_rec(self, ty):
        return ty is not None and (ty.c == 'rec' or (ty.c == 'arr'))

    def ev(self, e, st, fr, out):
        """Evaluate: list of (state, value). Record-typed results may be locations."""
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisError('analysis budget exceeded')
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is not None:
            return m(e, st, fr, out)
        raise AnalysisError('unhandled expression %s %s at %s:%s' % (k, e.get('cls'), fr.file, e.get('l')))

    def ev_lit(self, e, st, fr, out):
        if 'cv' not in e:
            return [(st, self.fresh('lit', e.get('t')))]
        return [(st, c(e['cv']))]

    def ev_flt(self, e, st, fr, out):
        return [(st, mk('flt', e['v']))]

    def ev_str(self, e, st, fr, out):
        return [(st, mk('str', e['v']))]

    def ev_null(self, e, st, fr, out):
        return [(st, NULL)]

    def ev_this(self, e, st, fr, out):
        return [(st, mk('ptr', fr.this))]

    def ev_ref(self, e, st, fr, out):
        if e['d'] == 'enum' or (e.get('cv') is not None and e.get('d') != 'fn'):
            return [(st, c(e['cv']))]
        if e['d'] == 'fn':
            return [(st, mk('fnref', e['fn']))]
        return self.lv2rv(e, st, fr, out)

    def lv2rv(self, e, st, fr, out):
        ty = e['t']
        r = []
        for s, l in self.evl(e, st, fr, out):
            if l.op == 'fnref':
                r.append((s, l))
                continue
            if ty.c == 'arr':
                r.append((s, mk('ptr', mk('el', l, ZERO))))
                continue
            self.C.on_read(self, s, l, e, fr)
            if ty.c == 'rec':
                r.append((s, l))
            else:
                r.append((s, s.facts.subst(self.typed(self.load(s, l), ty))))
        return r

    def ev_mem(self, e, st, fr, out):
        return self.lv2rv(e, st, fr, out)

    def ev_idx(self, e, st, fr, out):
        return self.lv2rv(e, st, fr, out)

    def ev_upcast(self, e, st, fr, out):
        return self.ev(e['e'], st, fr, out)

    def ev_cast(self, e, st, fr, out):
        if e.get('cv') is not None:
            return [(st, c(e['cv']))]
        ck = e['ck']
        to, frm = e['t'], e['e']['t']
        if e.get('lv'):
            return self.lv2rv(e, st, fr, out)
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return [(s, ONE if b else ZERO) for s, b in self.cond_val(e['e'], st, fr, out)] if self.forks(e['e']) else \
                [(s, truth(self.typed(self.val(s, v), frm))) for s, v in self.ev(e['e'], st, fr, out)]
        r = []
        for s, v in self.ev(e['e'], st, fr, out):
            if ck == 'ToVoid':
                r.append((s, v))
            elif ck == 'IntegralCast' or ck == 'BooleanToSignedIntegral':
                r.append((s, self.conv(v, to, s, frm)))
            elif ck in ('BitCast', 'LValueBitCast', 'IntegralToPointer', 'PointerToIntegral', 'BaseToDerived', 'Dynamic', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'Dependent', 'AnyPointerToBlockPointerCast', 'AddressSpaceConversion', 'UserDefinedConversion'):
                r.append((s, v))
            elif ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'FloatingToBoolean'):
                t = mk('fcast', ck, to.n, v)
                if to.nonneg:
                    t.nn = True
                r.append((s, t))
            else:
                r.append((s, v))
        return r

    def forks(self, e):
        return False

    def ev_un(self, e, st, fr, out):
        if e.get('cv') is not None:
            return [(st, c(e['cv']))]
        op = e['op']
        if op == '&':
            r = []
            for s, l in self.evl(e['e'], st, fr, out):
                if l.op == 'fnref':
                    r.append((s, l))
                else:
                    r.append((s, mk('ptr', l)))
            return r
        if op == '*':
            return self.lv2rv(e, st, fr, out)
        if op in ('++', '--'):
            r = []
            for s, l in self.evl(e['e'], st, fr, out):
                _, new = self.bump(e, s, l, fr)
                r.append((s, new))
            return r
        if op in ('p++', 'p--'):
            r = []
            for s, l in self.evl(e['e'], st, fr, out):
                old, _ = self.bump(e, s, l, fr)
                r.append((s, old))
            return r
        if op == '!':
            return [(s, ONE if b else ZERO) for s, b in self.cond(e, st, fr, out)] if self.has_logic(e['e']) else \
                [(s, neg(truth(self.typed(self.val(s, v), e['e'].get('t'))))) for s, v in self.ev(e['e'], st, fr, out)]
        r = []
        for s, v in self.ev(e['e'], st, fr, out):
            if op == '-':
                r.append((s, scale(v, -1)))
            elif op == '+':
                r.append((s, v))
            elif op == '~':
                if v.op == 'c':
                    n = ~v.a[0]
                    if not e['t'].s:
                        n &= (1 << e['t'].w) - 1
                    r.append((s, c(n)))
                else:
                    t = mk('inv', v)
                    t.nn = e['t'].nonneg
                    r.append((s, t))
            else:
                r.append((s, mk('unop', op, v)))
        return r

    def has_logic(self, e):
        while e['k'] == 'un' and e['op'] == '!':
            e = e['e']
        return e['k'] == 'bin' and e['op'] in ('&&', '||')

    def ev_bin(self, e, st, fr, out):
        if e.get('cv') is not None and e['op'] not in ('=',):
            return [(st, c(e['cv']))]
        op = e['op']
        if op == '=' or (op[-1] == '=' and op not in ('==', '!=', '<=', '>=')):
            r = []
            for s, l in self.assign(e, st, fr, out):
                r.append((s, l if e['t'].c == 'rec' else self.typed(self.load(s, l), e['t'])))
            return r
        if op == ',':
            r = []
            for s, _ in self.ev(e['a'], st, fr, out):
                r += self.ev(e['b'], s, fr, out)
            return r
        if op in ('&&', '||'):
            return [(s, ONE if b else ZERO) for s, b in self.cond(e, st, fr, out)]
        r = []
        for s, a in self.ev(e['a'], st, fr, out):
            for s2, b in self.ev(e['b'], s, fr, out):
                r.append((s2, self.binop(op, a, b, e, s2, fr)))
        return r

    def binop(self, op, a, b, e, s, fr):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            a, b = self.typed(a, e['a'].get('t')), self.typed(b, e['b'].get('t'))
            return self.compare(op, a, b, s)
        return self.arith(op, a, b, e['t'], s, e, fr)

    def compare(self, op, a, b, s):
        a, b = s.facts.subst(a), s.facts.subst(b)
        if a.op in ('viter', 'ptr') and b.op == a.op:
            la, lb = self.deref(a), self.deref(b)
            if la.op == 'el' and lb.op == 'el' and la.a[0] is lb.a[0]:
                a, b = la.a[1], lb.a[1]
            elif self.C.distinct_objects and op in ('==', '!=') and root(la) is not root(lb) and root(la).op == root(lb).op == 'obj' and any('#' in str(root(x).a[0]) for x in (la, lb)):
                return ZERO if op == '==' else ONE
        if a.op == 'miter' or b.op == 'miter':
            return self.lib.cmp_iter(op, a, b, s)
        if op in ('==', '!='):
            t = eq(a, b)
            # comparing a predicate with a constant
            for x, y in ((a, b), (b, a)):
                if y.op == 'c' and (x.op in BOOL or x.op in PREDS or (x.op == 'sym' and str(x.a[0]).startswith('b:'))):
                    t = x if y.a[0] == 1 else neg(x) if y.a[0] == 0 else ZERO
            return t if op == '==' else neg(t)
        if op == '<':
            return lt(a, b)
        if op == '<=':
            return le(a, b)
        if op == '>':
            return lt(b, a)
        return le(b, a)

    def ev_cond(self, e, st, fr, out):
        if e.get('cv') is not None:
            return [(st, c(e['cv']))]
        r = []
        for s, b in self.cond(e['c'], st, fr, out):
            r += self.ev(e['a'] if b else e['b'], s, fr, out)
        return r

    def ev_sizeof(self, e, st, fr, out):
        if e.get('cv') is not None:
            return [(st, c(e['cv']))]
        return [(st, mk('sizeof', e['of'].n))]

    def ev_zero(self, e, st, fr, out):
        return [(st, self.typed(mk('zero'), e['t']))]

    def ev_lambda(self, e, st, fr, out):
        caps = {}
        for cp in e['caps']:
            if cp.get('n') == 'this' and 'id' not in cp:
                continue
            vid = (id(e['tu']), cp['id'])
            if 'init' in cp:
                for s, v in self.ev(cp['init'], st, fr, out):
                    o = self.newobj('cap_' + cp['n'])
                    self.store(s, o, v)
                    caps[vid] = o
                    st = s
                continue
            src = fr.caps.get(vid) or mk('var', fr.id, cp['id'], cp['n'])
            v = st.mem.get(src)
            if cp.get('ref'):
                if v is not None and v.op == 'rf':
                    src = v.a[0]
                caps[vid] = src
            else:
                o = self.newobj('cap_' + cp['n'])
                if v is not None and v.op == 'rf':
                    src = v.a[0]
                self.copy_rec(st, src, o)
                caps[vid] = o
        n = len(self.clos)
        v = mk('clo', n)
        self.clos[v] = (e, caps, fr.this, fr)
        return [(st, v)]

    def ev_new(self, e, st, fr, out):
        h = getattr(self.C, 'new_object', None)
        o = h(self, e, fr) if h else self.newobj('new', e['at'])
        if h:
            self.drop_under(st, o)
        p = mk('ptr', mk('el', o, ZERO))
        r = []
        starts = [(st, ONE)]
        if e.get('arr') and e.get('n'):
            starts = self.ev(e['n'], st, fr, out)
        for s, n in starts:
            s.mem[mk('fld', o, '#n')] = n
            ev = self.emit(s, 'new', e, fr, obj=o, n=n, arr=bool(e.get('arr')), type=e['at'].n) if getattr(self.C, 'track_alloc', False) else None
            if e.get('init') and not e.get('arr'):
                for s2, _ in self.init_into(e['init'], mk('el', o, ZERO), s, fr, out, e['at']):
                    r.append((s2, p))
            else:
                s.mem[o] = mk('zero') if e.get('init') else mk('uninit', o)
                r.append((s, p))
        return r

    def ev_delete(self, e, st, fr, out):
        r = []
        for s, v in self.ev(e['e'], st, fr, out):
            if getattr(self.C, 'track_alloc', False):
                self.emit(s, 'delete', e, fr, val=v, arr=bool(e.get('arr')))
            r.append((s, ZERO))
        return r

    def ev_throw(self, e, st, fr, out):
        if 'e' not in e:
            ex = fr.handler
            f = fr
            while ex is None and f.up is not None:
                f = f.up
                ex = f.handler
            out.append(('t', st, ex or Exc('?', None, e['l'], rel(fr.file), fr.name)))
            return []
        for s, v in self.ev(e['e'], st, fr, out):
            ty = e['tt']
            n = ty.rec or ty.n
            if n.startswith('const '):
                n = n[6:]
            out.append(('t', s, Exc(n, v, e['l'], rel(fr.file), fr.name)))
        return []

    def ev_stdlist(self, e, st, fr, out):
        return self.ev(e['e'], st, fr, out)

    def ev_plist(self, e, st, fr, out):
        states = [(st, None)]
        for x in e['elems']:
            nxt = []
            for s, _ in states:
                nxt += self.ev(x, s, fr, out)
            states = nxt
        return states

    def ev_arrcopy(self, e, st, fr, out):
        return self.ev(e['e'], st, fr, out)

    def ev_init(self, e, st, fr, out):
        ty = e['t']
        if ty.c not in ('rec', 'arr'):
            if e['elems']:
                return self.ev(e['elems'][0], st, fr, out)
            return [(st, self.typed(mk('zero'), ty))]
        o = self.newobj('agg', ty)
        return [(s, o) for s, _ in self.init_list(e, o, st, fr, out)]

    def init_list(self, e, dst, st, fr, out):
        ty = e['t']
        if ty.c == 'arr':
            st.mem[dst] = mk('zero')
            states = [(st, dst)]
            for i, x in enumerate(e['elems']):
                nxt = []
                for s, _ in states:
                    nxt += self.init_into(x, mk('el', dst, c(i)), s, fr, out, ty.p)
                states = nxt
            if getattr(self, 'keep_lists', True):
                for s, _ in states:
                    s.mem[mk('fld', dst, '#n')] = c(ty.len if ty.len is not None else len(e['elems']))
            return [(s, dst) for s, _ in states]
        st.mem[dst] = mk('zero')
        states = [(st, dst)]
        for f, x in zip(e['fields'], e['elems']):
            l = dst if f == '(base)' else mk('fld', dst, f)
            nxt = []
            for s, _ in states:
                ft = self.fieldtype(ty.rec, f) if f != '(base)' else None
                nxt += self.init_into(x, l, s, fr, out, ft if ft is not None and ft.c == 'ref' else x.get('t'))
            states = nxt
        return [(s, dst) for s, _ in states]

    def ev_stmtexpr(self, e, st, fr, out):
        r = []
        for o in self.exec(e['s'], st, fr):
            if o[0] == 'n':
                r.append((o[1], self.fresh('stmtexpr', e.get('t'))))
            else:
                out.append(o)
        return r

    def ev_other(self, e, st, fr, out):
        states = [(st, None)]
        for x in e.get('args', []):
            nxt = []
            for s, _ in states:
                nxt += self.ev(x, s, fr, out)
            states = nxt
        return [(s, self.fresh(e.get('cls', 'other'), e.get('t'))) for s, _ in states]

    # ---- construction ----------------------------------------------------
    def init_into(self, e, dst, st, fr, out, ty):
        """Initialise location dst from expression e."""
        k = e['k']
        if ty is not None and ty.c == 'ref':
            r = []
            for s, l in self.evl(e, st, fr, out):
                s.mem[dst] = mk('rf', l)
                r.append((s, dst))
            return r
        if k == 'ctor' and not self.lib.handles_class(e['t']):
            return self.construct(e, dst, st, fr, out)
        if k == 'init' and e['t'].c in ('rec', 'arr') and not self.lib.handles_class(e['t']):
            return self.init_list(e, dst, st, fr, out)
        r = []
        for s, v in self.ev(e, st, fr, out):
            if isloc(v):
                self.copy_rec(s, v, dst)
            else:
                self.drop_under(s, dst)
                s.mem[dst] = self.typed(v, ty) if ty is not None else v
            r.append((s, dst))
        return r

    def ev_ctor(self, e, st, fr, out):
        r = self.lib.construct(e, st, fr, out)
        if r is not None:
            return r
        if e.get('copy') and len(e['args']) >= 1 and (e.get('implicit') or e['fn'] not in self.P.fns):
            return self.ev(e['args'][0], st, fr, out)
        o = self.newobj(e['q'].split('::')[-1], e['t'])
        return [(s, o) for s, _ in self.construct(e, o, st, fr, out)]

    def construct(self, e, dst, st, fr, out):
        fn = self.P.fns.get(e['fn'])
        if e.get('copy') and len(e['args']) >= 1 and (e.get('implicit') or fn is None):
            r = []
            for s, v in self.ev(e['args'][0], st, fr, out):
                if isloc(v):
                    self.copy_rec(s, v, dst)
                else:
                    self.drop_under(s, dst)
                    s.mem[dst] = v
                r.append((s, dst))
            return r
        states = self.args(e, st, fr, out, fn)
        r = []
        for s, av in states:
            h = self.C.call(self, e, e['q'] + '::(ctor)', s, dst, av, fr, out)
            if h is not None:
                r += [(x, dst) for x, _ in h]
                continue
            self.drop_under(s, dst)
            if fn is None:
                if e.get('zero') or e.get('implicit'):
                    s.mem[dst] = mk('zero') if e.get('zero') else mk('uninit', dst)
                    # default member initialisers
                    rec = self.P.records.get(e['cls'])
                else:
                    s.mem[dst] = mk('built', e['fn'], *[self.val(s, a) for a in av])
                r.append((s, dst))
                continue
            s.mem[dst] = mk('zero') if e.get('zero') else mk('uninit', dst)
            for s2, _ in self.call_fn(fn, s, dst, av, e, fr, out):
                r.append((s2, dst))
        return r

    # ---- calls -----------------------------------------------------------
    def args(self, e, st, fr, out, fn=None):
        """Evaluate arguments; list of (state, [values]). Reference parameters get locations."""
        states = [(st, [])]
        params = fn.params if fn is not None else None
        for i, a in enumerate(e['args']):
            nxt = []
            byref = False
            if params is not None and i < len(params):
                byref = params[i]['t'].c == 'ref'
            elif a.get('lv') and params is None:
                byref = True
            for s, vs in states:
                if byref:
                    for s2, l in self.evl(a, s, fr, out):
                        nxt.append((s2, vs + [l]))
                else:
                    for s2, v in self.ev(a, s, fr, out):
                        nxt.append((s2, vs + [v]))
            states = nxt
        return states

    def argval(self, s, e, i, av):
        """Value of argument i (loads lvalues)."""
        a = e['args'][i]
        v = av[i]
        if isloc(v) or v.op == 'mitem':
            if a.get('t') is not None and a['t'].c == 'arr':
                return mk('ptr', mk('el', v, ZERO))
            return s.facts.subst(self.typed(self.load(s, v), a.get('t')))
        return s.facts.subst(v)

    def ev_call(self, e, st, fr, out):
        r = self.call(e, st, fr, out)
        t = e['t']
        if not e.get('lv'):
            return r
        res = []
        for s, v in r:
            # call returned a reference: v is a location (or a value standing for one)
            if isloc(v) and t.c != 'rec' and t.c != 'arr':
                self.C.on_read(self, s, v, e, fr)
                res.append((s, s.facts.subst(self.typed(self.load(s, v), t))))
            else:
                res.append((s, v))
        return res

    def call(self, e, st, fr, out):
        self.stats['calls'] += 1
        name = e.get('q')
        fid = e.get('fn')
        fn = self.P.fns.get(fid) if fid else None
        # object
        objs = [(st, None)]
        if 'obj' in e:
            o = e['obj']
            if e.get('arrow') and not e.get('op'):
                objs = [(s, self.deref(self.lib.unwrap(s, v))) for s, v in self.ev(o, st, fr, out)]
            else:
                objs = self.evl(o, st, fr, out)
        res = []
        for s, obj in objs:
            if name is None:
                # indirect call through a function pointer / member pointer
                for s1, f in self.ev(e['ce'], s, fr, out):
                    for s2, av in self.args(e, s1, fr, out):
                        res += self.call_value(f, e, s2, av, fr, out)
                continue
            for s2, av in self.args(e, s, fr, out, fn):
                h = self.C.call(self, e, name, s2, obj, av, fr, out)
                if h is not None:
                    res += h
                    continue
                h = self.lib.call(e, name, s2, obj, av, fr, out)
                if h is not None:
                    res += h
                    continue
                targets = [fn] if fn is not None else []
                if e.get('virt'):
                    targets = targets + [x for x in self.P.overriders(fid) if x not in targets]
                targets = [x for x in targets if x is not None]
                if e['t'] is not None and e.get('op') == '()' and fn is None and e.get('cls', '').startswith('(lambda'):
                    pass
                if not targets or not all(self.C.want_inline(x, s2) for x in targets) or any(x.id in self.callstack for x in targets):
                    if targets and any(x.id in self.callstack for x in targets):
                        self.emit(s2, 'recursion', e, fr, fn=fid, args=tuple(av))
                    res += self.opaque(e, name, s2, obj, av, fr, out)
                    continue
                for i, x in enumerate(targets):
                    sx = s2.copy() if i < len(targets) - 1 else s2
                    if x.cls and self.lib.handles_rec(x.cq):
                        continue
                    res += self.call_fn(x, sx, obj, av, e, fr, out)
        return res

    def call_value(self, f, e, st, av, fr, out):
        """Call a closure / function value."""
        f = self.val(st, f)
        h = self.C.call(self, e, '(indirect)', st, f, av, fr, out)
        if h is not None:
            return h
        if f.op == 'clo':
            return self.call_clo(f, e, st, av, fr, out)
        if f.op == 'ptr':
            return self.call_value(self.load(st, f.a[0]), e, st, av, fr, out) if st.mem.get(f.a[0]) is not None else self.opaque(e, '(indirect)', st, None, av, fr, out)
        if f.op == 'fnref':
            fn = self.P.fns.get(f.a[0])
            if fn is not None and self.C.want_inline(fn, st) and fn.id not in self.callstack:
                return self.call_fn(fn, st, None, av, e, fr, out)
        return self.opaque(e, '(indirect)', st, None, av, fr, out)

    def call_clo(self, f, e, st, av, fr, out, this=None):
        node, caps, th, deffr = self.clos[f]
        nf = Frame('lambda@%d in %s' % (node['l'], deffr.name), deffr.file, th, fr, caps)
        nf.rt = node.get('rt')
        key = ('clo', id(node))
        if self.callstack.count(key) > 1:
            return self.opaque(e, '(lambda)', st, None, av, fr, out)
        self.callstack.append(key)
        try:
            return self.run_body(node['params'], node['body'], nf, st, av, e, fr, out, node['tu'])
        finally:
            self.callstack.pop()

    def bind_params(self, params, nf, st, av, e, fr, out):
        states = [st]
        for i, p in enumerate(params):
            loc = mk('var', nf.id, p['id'], p['n'])
            nxt = []
            for s in states:
                if i < len(av):
                    v = av[i]
                    if p['t'].c == 'ref':
                        if isloc(v) or v.op == 'mitem':
                            s.mem[loc] = mk('rf', v)
                        else:
                            o = self.newobj('tmp')
                            s.mem[o] = v
                            s.mem[loc] = mk('rf', o)
                    elif isloc(v):
                        self.copy_rec(s, v, loc)
                        if p['t'].c not in ('rec', 'arr'):
                            s.mem[loc] = s.facts.subst(self.typed(s.mem[loc], p['t']))
                    else:
                        s.mem[loc] = self.typed(v, p['t'])
                    nxt.append(s)
                elif 'def' in p:
                    for s2, _ in self.init_into(p['def'], loc, s, nf, out, p['t']):
                        nxt.append(s2)
                else:
                    nxt.append(s)
            states = nxt
        return states

    def call_fn(self, fn, st, obj, av, e, fr, out):
        self.stats['functions'].add(fn.id)
        nf = Frame(fn.q, fn.file, obj, fr)
        nf.fn = fn
        nf.rt = fn.rt
        self.callstack.append(fn.id)
        try:
            hook = getattr(self.C, 'enter', None)
            if hook:
                hook(self, fn, st, obj, av, e, fr)
            if fn.kind == 'ctor':
                states = []
                for s in self.bind_params(fn.params, nf, st, av, e, fr, out):
                    states += self.ctor_inits(fn, nf, s, out)
                res = []
                for s in states:
                    res += self.run_block(fn.body, nf, s, e, fr, out)
                return res
            return self.run_body(fn.params, fn.body, nf, st, av, e, fr, out, fn.tu)
        finally:
            self.callstack.pop()

    def ctor_inits(self, fn, nf, st, out):
        states = [st]
        for i in fn.inits:
            nxt = []
            for s in states:
                if i.get('deleg') or 'base' in i:
                    if i['e'] is None:
                        nxt.append(s)
                        continue
                    if i['e']['k'] == 'ctor' and i['e']['fn'] in self.P.fns:
                        for s2, av in self.args(i['e'], s, nf, out, self.P.fns[i['e']['fn']]):
                            for s3, _ in self.call_fn(self.P.fns[i['e']['fn']], s2, nf.this, av, i['e'], nf, out):
                                nxt.append(s3)
                    else:
                        nxt.append(s)
                    continue
                ft = self.fieldtype(fn.cls, i['fld']) or (i['e'] or {}).get('t')
                loc = self.fld(nf.this, i['fld'])
                if i['e'] is None:
                    nxt.append(s)
                    continue
                if not i.get('written'):
                    hook = getattr(self.C, 'implicit_init', None)
                for s2, _ in self.init_into(i['e'], loc, s, nf, out, ft):
                    self.C.on_write(self, s2, loc, s2.mem.get(loc), i['e'], nf)
                    nxt.append(s2)
            states = nxt
        return states

    def run_body(self, params, body, nf, st, av, e, fr, out, tu):
        res = []
        for s in self.bind_params(params, nf, st, av, e, fr, out):
            res += self.run_block(body, nf, s, e, fr, out)
        return res

    def run_block(self, body, nf, st, e, fr, out):
        res = []
        if body is None:
            return [(st, ZERO)]
        settle = self.C.settles(self, nf)
        if settle:
            hist = {'floor': _count_now(), 'wide': {}, 'pool': {}, 'facts': st.facts.copy(), 'keep': True}
            roots = {root(l) for l in st.mem}
        outs = self.exec(body, st, nf)
        outs = self.reduce(outs)
        if settle:
            fine = []
            for kind, s, v in outs:
                if kind == 'r' and v is not None and isloc(v) and nf.rt is not None and nf.rt.c != 'ref' and root(v).op == 'var' and root(v).a[0] == nf.id:
                    o = self.newobj('ret', nf.rt)
                    self.copy_rec(s, v, o)
                    v = o
                self.purge(s, nf, v)
                fine.append(self.settle_out(kind, s, v, roots, nf, hist))
            outs = self.reduce(fine)
        for kind, s, v in outs:
            if kind == 'n':
                if nf.rt is not None and nf.rt.c != 'void' and (nf.fn is None or nf.fn.kind not in ('ctor', 'dtor')):
                    hook = getattr(self.C, 'fell_off', None)
                    if hook:
                        hook(self, s, nf, e)
                    v = self.fresh('noreturn', nf.rt)
                else:
                    v = ZERO
                res.append((self.purge(s, nf, v), v))
            elif kind == 'r':
                v2 = v if v is not None else ZERO
                # a record held in this frame must outlive it
                if isloc(v2) and nf.rt is not None and nf.rt.c != 'ref' and root(v2).op == 'var' and root(v2).a[0] == nf.id:
                    o = self.newobj('ret', nf.rt)
                    self.copy_rec(s, v2, o)
                    v2 = o
                if not isloc(v2) and nf.rt is not None:
                    v2 = self.typed(v2, nf.rt)
                res.append((self.purge(s, nf, v2), v2))
            elif kind == 't':
                self.purge(s, nf, None)
                out.append((kind, s, v))
            else:
                raise AnalysisError('break/continue outside loop in %s' % nf.name)
        return res

    def purge(self, s, nf, v):
        dead = [l for l in s.mem if self.vroot(l) == nf.id]
        if self.clo_escapes(s, nf):
            return s
        for l in dead:
            del s.mem[l]
        return s

    def vroot(self, l):
        while l.op in ('fld', 'el', 'mitem'):
            l = l.a[0]
        return l.a[0] if l.op == 'var' else None

    def clo_escapes(self, s, nf):
        # closures created in this frame that are still referenced keep its variables
        for l, v in s.mem.items():
            if v.op == 'clo' and self.vroot(l) != nf.id:
                d = self.clos[v][3]
                if d is nf:
                    return True
        return False

    def opaque(self, e, name, st, obj, av, fr, out):
        """A call that is not analysed: may change what it can reach, returns something unknown."""
        self.stats['opaque'][name] = self.stats['opaque'].get(name, 0) + 1
        ths = self.C.opaque(self, e, name, st, obj, av, fr, out) or ()
        for t in ths:
            s2 = st.copy()
            out.append(('t', s2, Exc(t, None, e.get('l', 0), rel(fr.file), fr.name, 'from ' + name)))
        fn = self.P.fns.get(e.get('fn')) if e.get('fn') else None
        if e.get('noret'):
            return []
        for i, v in enumerate(av):
            a = e['args'][i] if i < len(e.get('args', [])) else None
            ty = None
            if fn is not None and i < len(fn.params):
                ty = fn.params[i]['t']
                if ty.c not in ('ref', 'ptr') or (ty.p is not None and ty.p.const):
                    continue
            elif a is not None and a.get('t') is not None:
                ty = a['t']
                ps = signature(e.get('fn'))
                if isloc(v) and ty.c == 'ptr' and (ps is None and '::' not in name or ps is not None and i < len(ps) and ps[i].strip().endswith('*')):
                    # the function gets the pointer, not the variable
                    v = self.load(st, v)
                    if ty.p is not None and ty.p.const:
                        continue
                elif a.get('lv') and isloc(v):
                    # unknown parameter: an lvalue of class type may be modified through a reference
                    if ty.const or not self.opaque_mutates(e, name, i):
                        continue
                elif ty.c != 'ptr' or (ty.p is not None and ty.p.const):
                    continue
            if isloc(v):
                self.havoc(st, v, name)
            elif v.op == 'ptr':
                l = v.a[0]
                if l.op == 'el' and l.a[0].op == 'obj':
                    nl = mk('fld', l.a[0], '#n')
                    n = st.mem.get(nl)
                    self.havoc(st, l.a[0], name)
                    if n is not None:
                        st.mem[nl] = n      # an array does not change its length
                else:
                    self.havoc(st, l, name)
        if obj is not None and isloc(obj) and not e.get('cmeth') and not e.get('smeth') and self.P.fns.get(e.get('fn')) is None and not self.lib.handles_rec(e.get('cq')):
            self.havoc(st, obj, name)
        return [(st, self.result(e, name, st))]

    def opaque_mutates(self, e, name, i):
        if e.get('nothrow_pure'):
            return False
        ps = signature(e.get('fn'))
        if ps is not None and i < len(ps):
            # passed by value or by reference to const
            t = ps[i].strip()
            return t.endswith('&') and not t.startswith('const ') or t.endswith('*') and not t.startswith('const ')
        return True

    def result(self, e, name, st):
        t = e.get('t')
        if t is None or t.c == 'void':
            return ZERO
        if e.get('lv'):
            o = self.newobj('ref_' + name.split('::')[-1], t)
            return o
        if t.c == 'rec' and not self.is_lib_value(t):
            o = self.newobj('res_' + name.split('::')[-1], t)
            st.mem[o] = self.fresh(name.split('::')[-1], t)
            return o
        return self.fresh(name.split('::')[-1], t)

    # ---- statements ------------------------------------------------------
    def reduce(self, outs):
        """Drop duplicate outcomes; optionally merge."""
        if len(outs) < 2:
            return outs
        if self.C.merge:
            return self.merge_outs(outs)
        seen = {}
        r = []
        for o in outs:
            pk = o[2] if o[0] == 'r' else (o[2].type, o[2].line) if o[0] == 't' and o[2] is not None else None
            k = (o[0], pk, o[1].key())
            if k in seen:
                continue
            seen[k] = True
            r.append(o)
        if len(r) > self.C.max_paths:
            raise AnalysisError('more than %d paths in one function' % self.C.max_paths)
        return r

    def merge_outs(self, outs):
        groups = {}
        order = []
        for o in outs:
            pk = None
            if o[0] == 't' and o[2] is not None:
                pk = o[2].type
            if o[0] == 'r' and o[2] is not None:
                pk = o[2] if (o[2].op in ('c', 'some', 'none')) else 'v'
            k = (o[0], pk, self.C.merge_key(o[1]))
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(o)
        r = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                r.append(g[0])
                continue
            s = self.join([x[1] for x in g])
            v = g[0][2]
            if g[0][0] == 'r' and any(x[2] is not v for x in g):
                if v is not None and isloc(v):
                    o = self.newobj('join')
                    for x in g:
                        pass
                    s.mem[o] = self.fresh('join')
                    v = o
                else:
                    ty = self.types_of.get(v)
                    v = self.fresh('join', ty)
            r.append((g[0][0], s, v))
        return r

    def join(self, sts):
        """Upper bound of states: differing memory becomes unknown, facts are intersected."""
        s = sts[0].copy()
        for t in sts[1:]:
            for l in list(s.mem):
                a, b = s.mem[l], t.mem.get(l)
                if a is b:
                    continue
                if b is None:
                    if l.op == 'var':
                        if a.op != 'rf':
                            s.mem[l] = self.join_val(a, mk('uninit', l), l)
                        continue
                    b = self.load(t, l)
                    if a is b:
                        continue
                s.mem[l] = self.join_val(a, b, l)
            for l in t.mem:
                if l not in s.mem:
                    a = self.load(s, l)
                    if a is not t.mem[l]:
                        s.mem[l] = self.join_val(a, t.mem[l], l)
            s.facts.truths = {k: v for k, v in s.facts.truths.items() if t.facts.truths.get(k) == v}
            s.facts.vals = {k: v for k, v in s.facts.vals.items() if t.facts.vals.get(k) is v}
            o = set(t.facts.les)
            s.facts.les = tuple(x for x in s.facts.les if x in o)
            for k in list(s.cl):
                if t.cl.get(k) != s.cl[k]:
                    s.cl[k] = self.C.join_cl(k, s.cl[k], t.cl.get(k)) if hasattr(self.C, 'join_cl') else s.cl[k]
        return s

    def join_val(self, a, b, l):
        if a.op == 'rf' or b.op == 'rf':
            return a if a.op == 'rf' else b
        v = fresh('phi:' + show(l)[:40], a.nn and b.nn)
        ty = self.types_of.get(a) or self.types_of.get(b)
        if ty is not None:
            self.types_of[v] = ty
            if ty.c == 'bool':
                v = fresh('b:phi', True)
                self.types_of[v] = ty
        return v

    def exec(self, n, st, fr):
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisError('analysis budget exceeded')
        if n is None:
            return [('n', st, None)]
        m = getattr(self, 'ex_' + n['k'], None)
        if m is None:
            raise AnalysisError('unhandled statement %s %s at %s:%s' % (n['k'], n.get('cls'), fr.file, n.get('l')))
        return m(n, st, fr)

    def ex_null(self, n, st, fr):
        return [('n', st, None)]

    def ex_expr(self, n, st, fr):
        out = []
        mark = self.lib.temps_mark(st)
        r = self.ev(n['e'], st, fr, out)
        res = []
        for s, v in r:
            self.lib.end_full_expr(s, n, fr, mark, v)
            res.append(('n', s, None))
        for o in out:
            if o[0] == 't':
                self.lib.end_full_expr(o[1], n, fr, mark, None)
        return res + out

    def ex_block(self, n, st, fr):
        return self.seq(n['b'], st, fr, scope=True, node=n)

    def seq(self, stmts, st, fr, scope=True, node=None):
        live = [st]
        done = []
        decls = []
        for s in stmts:
            nxt = []
            for x in live:
                for o in self.exec(s, x, fr):
                    if o[0] == 'n':
                        nxt.append(o[1])
                    else:
                        done.append((o, len(decls)) if scope else (o, 0))
            if s is not None and s['k'] == 'decl':
                for v in s['vars']:
                    decls.append(v)
            if len(nxt) > 1:
                nxt = [o[1] for o in self.reduce([('n', x, None) for x in nxt])]
            live = nxt
            if not live:
                break
        outs = [(('n', x, None), len(decls)) for x in live] + done
        if not scope or not decls:
            return [o for o, _ in outs]
        res = []
        for o, nd in outs:
            # leave the scope: destroy in reverse order what was constructed
            sts = [o[1]]
            for v in reversed(decls[:nd]):
                for x in sts:
                    self.leave(v, x, fr)
            res.append(o)
        return res

    def leave(self, v, s, fr):
        loc = mk('var', fr.id, v['id'], v['n'])
        if v.get('static'):
            return
        x = s.mem.get(loc)
        if x is None and v['t'].c != 'rec':
            return
        if v['t'].c == 'rec':
            self.lib.destroy(v, loc, s, fr)
        self.C.on_scope_exit(self, s, v, loc, fr)

    def ex_decl(self, n, st, fr):
        live = [st]
        res = []
        for v in n['vars']:
            nxt = []
            for s in live:
                out = []
                for s2 in self.declare(v, s, fr, out):
                    nxt.append(s2)
                res += out
            live = nxt
        return [('n', s, None) for s in live] + res

    def declare(self, v, st, fr, out):
        ty = v['t']
        if v.get('static'):
            loc = mk('glob', '%s::%s' % (fr.file, v['n']))
        else:
            loc = mk('var', fr.id, v['id'], v['n'])
        for l in [l for l in st.mem if self._under(l, loc)]:
            del st.mem[l]
        res = []
        if v.get('static') and 'init' in v:
            # initialised once: value unknown unless constant
            iv = v['init'].get('cv')
            if ty.const and iv is not None:
                st.mem[loc] = c(iv)
            return [st]
        if 'init' not in v or v['init'] is None:
            st.mem[loc] = mk('uninit', loc)
            if self.is_lib_value(ty):
                st.mem[loc] = self.lib.default_value(ty)
            self.C.on_decl(self, st, v, loc, fr)
            return [st]
        for s, _ in self.init_into(v['init'], loc, st, fr, out, ty):
            if 'binds' in v:
                base = loc
                x = s.mem.get(loc)
                if x is not None and x.op == 'rf':
                    base = x.a[0]
                for b in v['binds']:
                    f = b.get('fld') or ('first', 'second')[b['ix']] if b['ix'] < 2 else str(b['ix'])
                    bl = mk('var', fr.id, b['id'], b['n'])
                    bv = self.val(s, base)
                    if bv.op == 'pairv' and b['ix'] < 2:
                        s.mem[bl] = bv.a[b['ix']]
                    else:
                        s.mem[bl] = mk('rf', self.fld(base, f))
            self.lib.bound(s, v, loc, fr)
            self.C.on_decl(self, s, v, loc, fr)
            res.append(s)
        return res

    def ex_if(self, n, st, fr):
        pre = [('n', st, None)]
        decls = []
        if 'init' in n:
            pre = self.exec(n['init'], st, fr)
            if n['init'] and n['init']['k'] == 'decl':
                decls += n['init']['vars']
        res = []
        for o in pre:
            if o[0] != 'n':
                res.append(o)
                continue
            out = []
            sts = [o[1]]
            if 'var' in n:
                sts = []
                sts += self.declare(n['var'], o[1], fr, out)
                decls.append(n['var'])
            for s in sts:
                for s2, b in self.cond(n['c'], s, fr, out):
                    if b:
                        res += self.exec(n['a'], s2, fr)
                    elif n.get('b'):
                        res += self.exec(n['b'], s2, fr)
                    else:
                        res.append(('n', s2, None))
            res += out
        for v in reversed(decls):
            for o in res:
                self.leave(v, o[1], fr)
        return self.reduce(res)

    def ex_return(self, n, st, fr):
        if 'e' not in n or n['e'] is None:
            return [('r', st, None)]
        out = []
        res = []
        mark = self.lib.temps_mark(st)
        if fr.rt is not None and fr.rt.c == 'ref':
            for s, l in self.evl(n['e'], st, fr, out):
                res.append(('r', s, l))
        else:
            e = n['e']
            if e['k'] == 'ctor' and e.get('copy') and len(e['args']) == 1 and e.get('q') == 'std::pair' and e['args'][0].get('lv') and e['args'][0]['k'] == 'ref':
                vals = []
                for s, l in self.evl(e['args'][0], st, fr, out):
                    o = self.newobj('ret', fr.rt)
                    self.copy_rec(s, l, o)
                    vals.append((s, o))
            else:
                vals = self.ev(e, st, fr, out)
            for s, v in vals:
                if isloc(v) and root(v).op == 'var' and root(v).a[0] == fr.id:
                    o = self.newobj('ret', fr.rt)
                    self.copy_rec(s, v, o)
                    v = o
                elif isloc(v):
                    # snapshot: the returned object is a copy
                    if root(v).op != 'obj':
                        o = self.newobj('ret', fr.rt)
                        self.copy_rec(s, v, o)
                        v = o
                res.append(('r', s, v))
        for o in res:
            self.lib.end_full_expr(o[1], n, fr, mark, o[2])
        return res + out

    def ex_break(self, n, st, fr):
        return [('b', st, None)]

    def ex_continue(self, n, st, fr):
        return [('c', st, None)]

    def ex_label(self, n, st, fr):
        return self.exec(n['s'], st, fr)

    def ex_goto(self, n, st, fr):
        raise AnalysisError('goto at %s:%s' % (fr.file, n.get('l')))

    def ex_case(self, n, st, fr):
        return self.exec(n['s'], st, fr)

    def ex_default(self, n, st, fr):
        return self.exec(n['s'], st, fr)

    def ex_try(self, n, st, fr):
        res = []
        for o in self.exec(n['b'], st, fr):
            if o[0] != 't':
                res.append(o)
                continue
            exc = o[2]
            pend = True
            for h in n['h']:
                m = True if 't' not in h else self.catches(exc.type, h['t'])
                if m is False:
                    continue
                s = o[1] if m is True else o[1].copy()
                old = fr.handler
                fr.handler = exc
                if 'id' in h:
                    loc = mk('var', fr.id, h['id'], h['n'])
                    if exc.val is not None and isloc(exc.val):
                        s.mem[loc] = mk('rf', exc.val)
                    else:
                        s.mem[loc] = self.fresh('caught')
                self.emit(s, 'catch', h, fr, exc=exc)
                hb = self.exec(h['b'], s, fr)
                fr.handler = old
                res += hb
                if m is True:
                    pend = False
                    break
            if pend:
                res.append(o)
        return self.reduce(res)

    def ex_switch(self, n, st, fr):
        out = []
        pre = [st]
        if 'init' in n:
            o2 = self.exec(n['init'], st, fr)
            pre = [o[1] for o in o2 if o[0] == 'n']
            out += [o for o in o2 if o[0] != 'n']
        body = n['b']
        stmts = body['b'] if body['k'] == 'block' else [body]
        flat = []        # (labels, stmt)

        def unwrap(s, labels):
            while s is not None and s['k'] in ('case', 'default'):
                if s['k'] == 'case':
                    labels.append((s['v'], s.get('v2')))
                else:
                    labels.append(None)
                s = s['s']
            return s
        for s in stmts:
            labels = []
            x = unwrap(s, labels)
            flat.append((labels, x))
        res = []
        for p in pre:
            sts = [p]
            if 'var' in n:
                sts = self.declare(n['var'], p, fr, out)
            for p2 in sts:
                for s, v in self.ev(n['c'], p2, fr, out):
                    v = self.typed(v, n['c'].get('t'))
                    cur = s
                    default_ix = None
                    entries = []
                    alive = True
                    for ix, (labels, _) in enumerate(flat):
                        for lb in labels:
                            if lb is None:
                                default_ix = ix
                                continue
                            if not alive:
                                continue
                            lo = lb[0].get('cv')
                            if lo is None:
                                raise AnalysisError('case label without value at %s:%s' % (fr.file, lb[0].get('l')))
                            hi = lb[1].get('cv') if lb[1] else lo
                            if hi == lo:
                                t = self.compare('==', v, c(lo), cur)
                                sp = self.split(cur, t)
                            else:
                                sp = []
                                for s3, b in self.split(cur, le(c(lo), v)):
                                    if b:
                                        sp += self.split(s3, le(v, c(hi)))
                                    else:
                                        sp.append((s3, False))
                            nxt = [x for x, b in sp if not b]
                            for x, b in sp:
                                if b:
                                    entries.append((ix, x))
                            if nxt:
                                cur = nxt[0] if len(nxt) == 1 else self.join(nxt)
                            else:
                                alive = False
                    if alive:
                        if default_ix is not None:
                            entries.append((default_ix, cur))
                        else:
                            res.append(('n', cur, None))
                    for ix, x in entries:
                        for o in self.seq([y for _, y in flat[ix:]], x, fr, scope=True):
                            if o[0] == 'b':
                                o = ('n', o[1], None)
                            res.append(o)
        return self.reduce(res + out)

    # ---- loops -----------------------------------------------------------
    def ex_while(self, n, st, fr):
        return self.loop(n, st, fr, n['c'], n['b'], None, n.get('var'))

    def ex_do(self, n, st, fr):
        return self.loop(n, st, fr, n['c'], n['b'], None, None, post=True)

    def ex_for(self, n, st, fr):
        res = []
        pre = [('n', st, None)]
        decls = []
        if n.get('init'):
            pre = self.exec(n['init'], st, fr)
            if n['init']['k'] == 'decl':
                decls = n['init']['vars']
        for o in pre:
            if o[0] != 'n':
                res.append(o)
                continue
            res += self.loop(n, o[1], fr, n.get('c'), n['b'], n.get('inc'), None)
        for v in reversed(decls):
            for o in res:
                self.leave(v, o[1], fr)
        return self.reduce(res)

    def ex_range(self, n, st, fr):
        out = []
        res = []
        pre = [st]
        if n.get('init'):
            o2 = self.exec(n['init'], st, fr)
            pre = [o[1] for o in o2 if o[0] == 'n']
            out += [o for o in o2 if o[0] != 'n']
        for p in pre:
            for s, l in self.evl(n['r'], p, fr, out):
                res += self.loop(n, s, fr, None, n['b'], None, None, rng=l)
        return self.reduce(res + out)

    def affine(self, v):
        """Split a value into (skeleton, integer index)."""
        if v.op == 'viter':
            return ('viter', v.a[0]), v.a[1]
        if v.op == 'miter' and v.a[1].op == 'keyat':
            return ('miter', v.a[0], v.a[1].a[0]), v.a[1].a[1]
        if v.op == 'ptr':
            l = v.a[0]
            if l.op == 'el':
                return ('ptr', l.a[0]), l.a[1]
            return ('ptr', l), ZERO
        return ('int',), v

    def unaffine(self, sk, i):
        if sk[0] == 'viter':
            return mk('viter', sk[1], i)
        if sk[0] == 'miter':
            return mk('miter', sk[1], mk('keyat', sk[2], i))
        if sk[0] == 'ptr':
            return mk('ptr', mk('el', sk[1], i))
        return i

    def mentions(self, t, pred, memo=None):
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        memo[t] = False
        r = pred(t)
        if not r:
            for x in t.a:
                if isinstance(x, T):
                    if self.mentions(x, pred, memo):
                        r = True
                        break
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T) and self.mentions(y, pred, memo):
                            r = True
                            break
                        if isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, T) and self.mentions(z, pred, memo):
                                    r = True
        memo[t] = r
        return r

    def loop(self, n, st, fr, cnd, body, inc, var, post=False, rng=None):
        self.stats['loops'] += 1
        if self.C.collects(self, n, st, fr):
            return self.collected(n, st, fr, cnd, body, inc, var, post, rng)
        if getattr(self.C, 'unroll', 0) and (cnd is not None or rng is not None):
            r = self.unrolled(n, st, fr, cnd, body, inc, var, post, rng, self.C.unroll)
            if r is not None:
                return r
        base_id, base_obj = _count_now(), self.objs
        pre_mem = dict(st.mem)
        mods = {}          # loc -> True
        kinds = {}         # loc -> ('ind', step) | ('last', group) | 'havoc'
        k = fresh('k@%s' % n['l'], True)
        k_is = [k]
        rounds = 0
        groups = []        # list of (locs, [assign records])
        fills = {}
        bodyfresh_floor = None
        demoted = set()
        nosk = set()
        while True:
            rounds += 1
            wide = rounds > 10
            if rounds > 24:
                raise AnalysisError('loop at %s:%s does not stabilise' % (fr.file, n['l']))
            if wide:
                self.stats['widened'] = self.stats.get('widened', 0) + 1
            entries = self.loop_entries(st, mods, kinds, groups, k, n, nosk)
            conts, others, exits = [], [], []
            floor = _count_now()
            for ent, tag in entries:
                mark = ent.trace
                it = self.iterate(n, ent.copy(), fr, cnd, body, inc, var, post, rng, k, st, kinds)
                for kind, s, v in it:
                    if kind == 'cont':
                        conts.append((s, ent, tag, mark))
                    elif kind == 'exit':
                        exits.append((s, ent, tag, mark))
                    else:
                        others.append((kind, s, v, mark, ent))
            # what changed
            new = {}
            for s, ent, tag, mark in conts:
                for l, v in s.mem.items():
                    if ent.mem.get(l) is v:
                        continue
                    if l.op == 'var' or self.vroot(l) is not None:
                        r = l
                        while r.op in ('fld', 'el', 'mitem'):
                            r = r.a[0]
                        if r not in pre_mem and not any(self._under(x, r) for x in pre_mem):
                            continue       # declared inside the loop
                    rt = root(l)
                    if rt.op == 'obj' and self.later(rt, base_obj) and not self.existed(rt, pre_mem, st):
                        continue           # allocated inside the loop
                    if l not in ent.mem and self.load(ent, l) is v:
                        continue
                    new[l] = True
                for l in ent.mem:
                    if l not in s.mem and (l in pre_mem):
                        new[l] = True
            # indexes that vary in the loop: treat the container as modified
            if DBG: print('ROUND',rounds,[show(l) for l in new],[(show(l),kinds[l]) for l in mods],len(conts),len(exits))
            ch = False
            for l in list(new):
                rt = root(l)
                if rt.op == 'mem' and self.mentions(rt, lambda t: t.op == 'sym' and t.id > floor):
                    del new[l]        # memory first reached in this iteration
                    continue
                if wide:
                    del new[l]
                    l = root(l)
                    new[l] = True
                g = self.generalise(l, k, floor, base_id)
                if g is not l:
                    del new[l]
                    new[g] = True
            for l in new:
                if not any(self._under(l, m) for m in mods):
                    mods[l] = True
                    kinds[l] = None
                    ch = True
            # drop modified locations covered by others
            for l in list(mods):
                if any(m is not l and self._under(l, m) for m in mods):
                    del mods[l]
                    kinds.pop(l, None)
                    ch = True
            # a pointer or iterator that does not stay within the object it began in
            for l in mods:
                if l in nosk:
                    continue
                for s, e2, tag, mark in conts:
                    h = e2.mem.get(l)
                    v = s.mem.get(l)
                    if h is None or v is None or h.op not in ('ptr', 'viter', 'miter'):
                        continue
                    if self.affine(v)[0] != self.affine(h)[0]:
                        nosk.add(l)
                        demoted.add(l)
                        ch = True
                        break
            if ch:
                for l in mods:
                    kinds[l] = None
                groups = []
                continue
            # classify
            if any(kinds[l] is None for l in mods):
                # first stable round with everything havoced: find induction variables
                self.classify(mods, kinds, conts, entries, k, floor, st, demoted)
                if any(kinds[l] and kinds[l][0] == 'ind' for l in mods) or True:
                    continue
            # verify induction and last-assigned groups
            bad = self.verify(mods, kinds, conts, k, floor, st)
            if bad:
                for l in bad:
                    kinds[l] = ('havoc', self.fresh('loop:' + show(l)[:30], self.types_of.get(st.mem.get(l)) if st.mem.get(l) is not None else None))
                    demoted.add(l)
                continue
            if not groups and not getattr(self, 'no_groups', False):
                g = self.find_groups(mods, kinds, conts, floor, base_id, k)
                if g:
                    groups = g
                    for gr in groups:
                        for l in gr['locs']:
                            kinds[l] = ('last', None)
                    continue
            elif groups:
                g = self.regroup(groups, conts, floor, k)
                if g == 'bad':
                    for gr in groups:
                        for l in gr['locs']:
                            kinds[l] = ('havoc', self.fresh('loop:' + show(l)[:30]))
                            demoted.add(l)
                    groups = []
                    self_no = True
                    demoted.add('groups')
                    continue
                if g == 'more':
                    continue
            break
        # build the loop event and the states after it
        alts, starts = [], []
        for s, ent, tag, mark in conts:
            alts.append(('cont', s.since(mark), s))
            starts.append(ent)
        for kind, s, v, mark, ent in others:
            alts.append((kind, s.since(mark), s))
            starts.append(ent)
        res = []
        univ = []
        if conts:
            for t, v in conts[0][0].facts.truths.items():
                if (t.op in PREDS or t.op == 'eqv') and t not in st.facts.truths and self.mentions(t, lambda z: z is k) \
                        and all(x[0].facts.truths.get(t) is v for x in conts[1:]):
                    univ.append((t, v))
        for s, ent, tag, mark in exits:
            inner = s.since(mark)
            pre = s
            trips = self.solve_exit(s, k, n)
            if trips is not None:
                for l in mods:
                    kd = kinds[l]
                    if kd and kd[0] == 'ind' and s.mem.get(l) is not None:
                        s.mem[l] = self.substitute(s.mem[l], k, trips)
                for l, v in list(s.mem.items()):
                    if v.op == 'fill':
                        continue
                    if self.mentions(v, lambda t: t is k):
                        s.mem[l] = self.substitute(v, k, trips)
                s.facts.les = tuple(self.substitute(x, k, trips) for x in s.facts.les)
                s.facts.univ = s.facts.univ + tuple((k, t, v, trips) for t, v in univ)
            s.trace = st.trace
            has = any(a[1] for a in alts if a[0] == 'cont')
            if has or getattr(self.C, 'keep_loops', False):
                ev = self.emit(s, 'loop', n, fr, trips=trips if trips is not None else k, kvar=k, body=alts, exact=trips is not None, rng=rng, pre={l: st.mem.get(l) for l in mods}, starts=starts)
            for x in inner:
                s.trace = (s.trace, x)
            self.apply_fills(s, st, mods, kinds, conts, k, trips, floor)
            res.append(('n', s, None))
        for kind, s, v, mark, ent in others:
            inner = s.since(mark)
            s.trace = st.trace
            if any(a[1] for a in alts if a[0] == 'cont') or getattr(self.C, 'keep_loops', False):
                self.emit(s, 'loop', n, fr, trips=k, kvar=k, body=alts, exact=False, partial=True, rng=rng, pre={l: st.mem.get(l) for l in mods}, starts=starts, entry=ent)
            for x in inner:
                s.trace = (s.trace, x)
            if kind == 'b':
                res.append(('n', s, None))
            else:
                res.append((kind, s, v))
        return self.reduce(res)

    def collected(self, n, st, fr, cnd, body, inc, var, post, rng):
        """The set of abstract states at the head of the loop, up to the names of unknown values, as a fixpoint."""
        seen, res, hist = set(), [], {'floor': _count_now(), 'wide': {}, 'pool': {}, 'facts': st.facts.copy()}
        roots = {root(l) for l in st.mem}
        hist2 = dict(hist, wide={}, pool={}, keep=True)
        it = mk('var', fr.id, '#it', n['l']) if rng is not None else None
        if it is not None:
            st = st.copy()
            st.mem[it] = ZERO
            roots.add(it)
        first = self.canonical(st.copy(), roots, fr, hist)
        todo = [first]
        seen.add(first.key())
        k = fresh('k@%s' % n['l'], True)
        rounds = 0
        while todo:
            rounds += 1
            if rounds > self.C.max_paths:
                raise AnalysisError('more than %d states at the head of the loop at %s:%s' % (self.C.max_paths, fr.file, n['l']))
            s = todo.pop(0)
            s = s.copy()
            if it is not None:
                k = s.mem[it]
            self.C.loop_round(self, n, s, fr, rng, k)
            for kind, s2, v in self.iterate(n, s, fr, cnd, body, inc, var, post, rng, k, st, {}):
                if it is not None:
                    if kind == 'cont':
                        s2.mem[it] = add(k, ONE)
                    else:
                        s2.mem.pop(it, None)
                if kind == 'cont':
                    if cnd is None or not rounds_end(self, cnd, s2, fr):
                        self.C.settled(self, s2, fr)
                    s3 = self.canonical(s2, roots, fr, hist)
                    key = s3.key()
                    if key not in seen:
                        seen.add(key)
                        todo.append(s3)
                    continue
                res.append(self.settle_out('n' if kind in ('exit', 'b') else kind, s2, None if kind in ('exit', 'b') else v, roots, fr, hist2))
            res = self.reduce(res)
        self.stats['states'] = self.stats.get('states', 0) + rounds
        return res

    def settle_out(self, kind, s, v, roots, fr, hist):
        """An outcome with the state in canonical form."""
        box = mk('glob', '#box')
        x = v.val if kind == 't' and v is not None else v
        if isinstance(x, T):
            s.mem[box] = mk('box', x)
        s2 = self.canonical(s, roots, fr, hist)
        if isinstance(x, T):
            x = s2.mem.pop(box).a[0]
            if kind == 't':
                v = Exc(v.type, x, v.line, v.file, v.fn, v.what)
            else:
                v = x
        return kind, s2, v

    def canonical(self, s, roots, fr, hist):
        """The same state with unreachable memory dropped and unknown values named in order of discovery."""
        self.C.closing(self, s)
        mem = s.mem
        kids = {}
        for l in mem:
            kids.setdefault(root(l), []).append(l)
        top = [r for r in kids if r in roots or r.op not in ('obj', 'mem') and not (r.op == 'var' and r.a[0] == fr.id)]
        ren, order = {}, {}
        new = {}

        def token(t):
            u = ren.get(t)
            if u is None:
                ty = self.types_of.get(t)
                key = (t.op, self.C.name_of(self, t), ty.n if ty is not None else None, t.nn, t.op == 'sym' and str(t.a[0]).startswith('b:'), t in self.nums)
                i = order[key] = order.get(key, -1) + 1
                pool = hist['pool']
                u = pool.get((key, i))
                if u is None:
                    u = fresh(str(t.a[0]).split('#')[0] if t.op == 'sym' else 'v', t.nn) if t.op == 'sym' else self.newobj('~')
                    pool[(key, i)] = u
                    if ty is not None:
                        self.types_of[u] = ty
                    if t in self.nums:
                        self.nums.add(u)
                    self.C.renamed(self, t, u)
                ren[t] = u
                if t.op == 'obj':
                    queue.append(t)
            return u

        memo = {}

        def rn(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t.op in ('sym', 'obj'):
                r = token(t) if t.id > floor else t
                if t.op == 'obj' and t.id <= floor and t in kids:
                    queue.append(t)
            elif t.op in ('c', 'str', 'var', 'glob', 'null'):
                r = t
            elif t.op == 'clo':
                r = self.rename_clo(t, rn)
            elif t.op == 'lin':
                r = c(t.a[0])
                for x, n in t.a[1]:
                    r = add(r, scale(rn(x), n))
            elif t.op == 'mul':
                r = ONE
                for x in t.a:
                    r = mul(r, rn(x))
            else:
                na = tuple(rn(x) if isinstance(x, T) else tuple(rn(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in t.a)
                r = mk(t.op, *na)
                if r is not t:
                    r.nn = t.nn
                    ty = self.types_of.get(t)
                    if ty is not None and r not in self.types_of:
                        self.types_of[r] = ty
            memo[t] = r
            return r

        queue = []
        floor = hist['floor']
        wide = hist['wide']
        bounds, drop, same, pairs = set(), set(), {}, []
        exact = hist.get('keep')
        for r in sorted(top, key=show):
            queue.append(r)
            while queue:
                r = queue.pop(0)
                for l in sorted(kids.pop(r, ()), key=lambda l: show(self._relpath(l))):
                    if l.op == 'var' and l.a[0] == fr.id and r not in roots:
                        continue
                    v = mem[l]
                    l2 = rn(l)
                    if exact and v.op != 'c' and self.numeric(v) and s.facts.decide(eq(v, ZERO)) is True:
                        v = ZERO
                    v2 = rn(v)
                    num = self.numeric(v2)
                    low = exact and num and v.op != 'c' and s.facts.decide(le(v, ZERO)) is True
                    if self.compound(v2) or v2.op == 'sym' and v2.id <= floor and num:
                        w = wide.setdefault(l2, [])
                        if v2 not in w:
                            w.append(v2)
                        if len(w) > (3 if all(x.op == 'c' for x in w) or num and all(sub(x, w[0]).op == 'c' for x in w) else 12 if all(x.op == 'str' for x in w) else 1):
                            drop.add(l2)
                            t = same.get(v2)
                            if t is None:
                                t = fresh('w:' + show(l2)[:30], v2.nn)
                                t.nn = all(x.nn or x.op == 'c' and x.a[0] >= 0 for x in w)
                                ty = self.types_of.get(v)
                                if ty is not None:
                                    self.types_of[t] = ty
                                if num:
                                    self.nums.add(t)
                                self.C.widened(self, l2, w, t)
                                t = same[v2] = token(t)
                            if num:
                                pairs.append((l2, v, v2, t))
                            v2 = t
                    elif v2.op == 'sym' and num:
                        pairs.append((l2, v, v2, v2))
                    if v2.op == 'c' and l2.op == 'var':
                        pairs.append((l2, v, v2, v2))
                    w = wide.get(l2)
                    if w and num and v2.op == 'sym' and v2.id > floor:
                        b0 = w[0]
                        if self.numeric(b0) and not self.mentions(b0, lambda z: z.op in ('sym', 'obj') and z.id > floor):
                            if s.facts.decide(le(v, b0)) is True:
                                bounds.add(sub(v2, b0))
                            if s.facts.decide(le(b0, v)) is True:
                                bounds.add(sub(b0, v2))
                    if low:
                        bounds.add(v2)
                    new[l2] = v2
        inv = hist.setdefault('inv', {})
        for i, (lu, ux, x, u) in enumerate(pairs):
            for lt_, tx, y, t in pairs[:i]:
                if x.op == 'c' and y.op == 'c' or u is x and t is y and not inv:
                    continue
                z = add(x, y)
                z0 = inv.get((lt_, lu))
                if self.mentions(z, lambda y: y.op in ('sym', 'obj') and y.id > floor):
                    if z0 is None or s.facts.decide(le(add(ux, tx), z0)) is not True or s.facts.decide(le(z0, add(ux, tx))) is not True:
                        continue
                    z = z0
                elif u is x and t is y:
                    continue
                else:
                    inv.setdefault((lt_, lu), z)
                d = sub(add(t, u), z)
                if d.op != 'c':
                    bounds.update((d, scale(d, -1)))
        for l in drop:
            for x in [x for x in new if x is not l and x.op in ('el', 'fld') and self._under(x, l)]:
                del new[x]
        s2 = s.copy()
        s2.mem = new
        s2.trace = None
        F = s2.facts
        e0 = hist['facts']
        all_ = hist.get('keep')

        def known(t):
            return not self.mentions(t, lambda z: z.op in ('sym', 'obj') and z.id > floor)

        def keep(t):
            """About values that are still there, and no more than whether they are zero or what an opaque predicate says."""
            if t.op not in ('eq0', 'is_some', 'contains', 'opred', 'not', 'eqv') or t.op == 'eq0' and t.a[0].op == 'lin' and not (all_ and len(t.a[0].a[1]) == 2):
                return False
            return not self.mentions(t, lambda z: z.id > floor and z.op in ('sym', 'obj') and (z not in memo or self.C.forgets(self, z)))
        F.truths = {rn(t): v for t, v in F.truths.items() if (all_ or t in e0.truths if known(t) else keep(t))}
        F.les = tuple(sorted({t for t in F.les if known(t) and (all_ or t in e0.les)} | bounds, key=lambda t: t.id))
        F.vals = {rn(t): v for t, v in F.vals.items() if ((all_ or t in e0.vals) and known(v) if known(t) else t in memo and v.op == 'c' and not self.C.forgets(self, t))}
        F.univ = e0.univ
        s2.cl = {a: (rn(b) if isinstance(b, T) else b) for a, b in s2.cl.items()}
        return s2

    def _relpath(self, l):
        if l.op in ('fld', 'el'):
            return mk(l.op, self._relpath(l.a[0]), l.a[1])
        return mk('var', 0, 0, 'r')

    def compound(self, v):
        return v.op not in ('box', 'sym', 'ptr', 'some', 'none', 'rf', 'clo', 'null', 'zero', 'uninit', 'fnref') and not (v.op == 'c' and v.a[0] in (0, 1))

    def rename_clo(self, v, rn):
        e, caps, this, fr = self.clos[v]
        c2 = tuple(sorted(((k, rn(x)) for k, x in caps.items()), key=lambda z: str(z[0])))
        key = (id(e), c2, rn(this) if this is not None else None, fr.id)
        pool = self.__dict__.setdefault('_clopool', {})
        u = pool.get(key)
        if u is None:
            u = mk('clo', 'c%d' % len(pool))
            pool[key] = u
            self.clos[u] = (e, dict(c2), key[2], fr)
        return u

    def unrolled(self, n, st, fr, cnd, body, inc, var, post, rng, limit):
        """The states after the loop, if every decision to go on is determined; None otherwise."""
        todo, res = [st], []
        for r in range(limit + 1):
            nxt = []
            for s in todo:
                it = self.iterate(n, s.copy(), fr, cnd, body, inc, var, post, rng, c(r), st, {})
                ks = {o[0] for o in it}
                if 'cont' in ks and 'exit' in ks:
                    return None
                for kind, s2, v in it:
                    if kind == 'cont':
                        nxt.append(s2)
                    else:
                        res.append(('n', s2, None) if kind in ('exit', 'b') else (kind, s2, v))
            todo = nxt
            if not todo:
                return self.reduce(res)
            if len(todo) > 64:
                return None
        return None

    @staticmethod
    def later(o, count):
        """Was the object made after that many others?"""
        n = str(o.a[0]).rpartition('#')[2]
        return n.isdigit() and int(n) > count

    def existed(self, o, mem, st):
        if any(root(l) is o for l in mem):
            return True
        for v in mem.values():
            if self.mentions(v, lambda t: t is o):
                return True
        return False

    def generalise(self, l, k, floor, base_id):
        """If the location's index varies inside the loop, the container itself."""
        path = []
        x = l
        best = None
        while x.op in ('fld', 'el', 'mitem'):
            if x.op in ('el', 'mitem'):
                idx = x.a[1]
                if self.mentions(idx, lambda t: t is k or (t.id > base_id and t.op == 'sym')):
                    best = x.a[0]
            x = x.a[0]
        r = x
        return best if best is not None else l

    def loop_entries(self, st, mods, kinds, groups, k, n, nosk):
        ent = st.copy()
        ent.trace = (st.trace, Event('mark', {}, 0, '', '', ()))
        for l in mods:
            kd = kinds[l]
            init = self.load(st, l)
            if kd is None:
                ty = self.types_of.get(init)
                v = self.loopmemo.get((k, l))
                if v is None:
                    v = self.loopmemo[(k, l)] = fresh('b:h', True) if init.op in BOOL or (ty is not None and ty.c == 'bool') else self.fresh('h:' + show(l)[:30])
                if ty is not None:
                    self.types_of[v] = ty
                    v.nn = ty.nonneg
                elif init.nn or (init.op == 'c' and init.a[0] >= 0):
                    pass
                sk, i = self.affine(init)
                if sk[0] != 'int' and l not in nosk:
                    v2 = self.unaffine(sk, v)
                else:
                    v2 = v
                kinds[l] = None
                self.drop_contents(ent, l)
                ent.mem[l] = v2
            elif kd[0] == 'ind':
                sk, i = self.affine(init)
                self.drop_contents(ent, l)
                ent.mem[l] = self.unaffine(sk, add(i, mul(kd[1], k)))
            elif kd[0] == 'havoc':
                self.drop_contents(ent, l)
                ent.mem[l] = kd[1]
            elif kd[0] == 'mono':
                self.drop_contents(ent, l)
                ent.mem[l] = kd[1]
                ent.facts.assume(le(init, kd[1]), True)
            elif kd[0] == 'last':
                pass      # set below
        outs = [(ent, 'init')]
        for gr in groups:
            nxt = []
            for e2, tag in outs:
                for l in gr['locs']:
                    v = st.mem.get(l)
                nxt.append((e2, tag))
                for i, rec in enumerate(gr['recs']):
                    x = e2.copy()
                    ok = True
                    for l in gr['locs']:
                        self.drop_contents(x, l)
                        x.mem[l] = rec['vals'][l]
                    for t, b in rec['truths'].items():
                        if not x.facts.assume(t, b):
                            ok = False
                    x.facts.les = x.facts.les + tuple(y for y in rec['les'] if y not in x.facts.les)
                    x.facts.assume(lt(rec['k'], k), True)
                    nxt.append((x, (tag, i)))
            outs = nxt
        return outs

    def iterate(self, n, ent, fr, cnd, body, inc, var, post, rng, k, st, kinds):
        """One abstract iteration from entry state: list of ('cont'|'exit'|'r'|'t'|..., state, value)."""
        res = []
        out = []
        starts = []
        if rng is not None:
            s = ent
            rv = self.load(s, rng)
            if rng.op == 'obj' and mk('fld', rng, '#n') in s.mem:
                N = s.mem[mk('fld', rng, '#n')]
            elif rv.op == 'list':
                N = c(len(rv.a))
            else:
                rt = n['r'].get('t')
                if rt is not None and rt.c == 'arr' and rt.len is not None:
                    N = c(rt.len)
                else:
                    N = mk_len(rv)
            s.facts.assume(le(k, N), True)
            for s2, b in self.split(s, lt(k, N)):
                if not b:
                    s2.facts.assume(eq(k, N), True)
                    res.append(('exit', s2, None))
                else:
                    v = n['var']
                    loc = mk('var', fr.id, v['id'], v['n'])
                    self.drop_under(s2, loc)
                    cls = n['r']['t'].q if n['r'].get('t') is not None else ''
                    if self.lib.is_assoc(cls):
                        key = mk('keyat', rv, k)
                        item = mk('mitem', rng, key)
                        s2.facts.truths[mk('contains', rv, key)] = True
                    elif self.lib.is_string(cls):
                        item = None
                        ev = mk('at', rv, k) if rv.op != 'str' else self.at(s2, rv, k)
                        self.types_of[ev] = v['t'].strip()
                    elif rv.op == 'list' and k.op == 'c' and 0 <= k.a[0] < len(rv.a) and v['t'].c != 'ref':
                        item, ev = None, rv.a[k.a[0]]
                    elif self.lib.is_set(cls):
                        item = None
                        ev = mk('keyat', rv, k)
                        s2.facts.truths[mk('contains', rv, ev)] = True
                    else:
                        item = mk('el', rng, k)
                    if item is None:
                        s2.mem[loc] = ev
                    elif v['t'].c == 'ref':
                        s2.mem[loc] = mk('rf', item)
                    else:
                        self.C.on_read(self, s2, item, n['r'], fr)
                        if item.op == 'mitem':
                            s2.mem[loc] = mk('rf', item)
                        else:
                            self.copy_rec(s2, item, loc)
                            if v['t'].c != 'rec':
                                s2.mem[loc] = self.typed(s2.mem[loc], v['t'])
                    if 'binds' in v:
                        for b2 in v['binds']:
                            pair = item is not None and item.op == 'mitem' or (v['t'].strip().q or '').startswith('std::pair')
                            f = ('first', 'second')[b2['ix']] if pair else b2.get('fld', str(b2['ix']))
                            bl = mk('var', fr.id, b2['id'], b2['n'])
                            s2.mem[bl] = mk('rf', self.fld(item, f) if not (item.op == 'mitem' and f == 'first') else mk('fld', item, 'first'))
                    starts.append(s2)
        elif post:
            starts = [ent]
        elif cnd is None:
            starts = [ent]
        else:
            sts = [ent]
            if var is not None:
                sts = self.declare(var, ent, fr, out)
            for s in sts:
                self.prior_facts(s, cnd, k, fr, st, kinds)
                for s2, b in self.cond(cnd, s, fr, out):
                    if b:
                        starts.append(s2)
                    else:
                        res.append(('exit', s2, None))
        for s in starts:
            for o in self.exec(body, s, fr):
                if o[0] in ('n', 'c'):
                    nxt = [o[1]]
                    if inc is not None:
                        nxt = [x for x, _ in self.ev(inc, o[1], fr, out)]
                    if post and cnd is not None:
                        for x in nxt:
                            for x2, b in self.cond(cnd, x, fr, out):
                                res.append(('cont' if b else 'exit', x2, None))
                    else:
                        for x in nxt:
                            res.append(('cont', x, None))
                else:
                    res.append(o)
        for o in out:
            res.append(o)
        return res

    def prior_facts(self, s, cnd, k, fr, st, kinds):
        """Facts the loop condition established for the previous iteration, valid now."""
        # find linear conditions d0 + b*k <= 0 (b >= 1) that guard the loop
        def conj(e):
            if e['k'] == 'bin' and e['op'] == '&&':
                return conj(e['a']) + conj(e['b'])
            return [e]
        for e in conj(cnd):
            if e['k'] == 'cast' and e['ck'] in ('IntegralToBoolean',):
                e = e['e']
            if not self.pure(e):
                continue
            try:
                x = s.copy()
                o2 = []
                rs = self.ev(e, x, fr, o2)
            except AnalysisError:
                continue
            if len(rs) != 1 or o2:
                continue
            t = truth(self.typed(self.val(rs[0][0], rs[0][1]), e.get('t')))
            if t.op == 'le0':
                d = t.a[0]
                cs = dict(lin(d)[1])
                b = cs.get(k, 0)
                if b >= 1 and not self.mentions(sub(d, scale(k, b)), lambda z: z is k):
                    d0 = sub(d, scale(k, b))
                    prev = sub(d, c(b))
                    if s.facts._implied_le(sub(d0, c(b))):
                        s.facts.les = s.facts.les + (prev,)
            elif t.op == 'not' and t.a[0].op in ('eq0', 'eqv'):
                z = t.a[0]
                d = z.a[0] if z.op == 'eq0' else sub(z.a[0], z.a[1])
                cs = dict(lin(d)[1])
                b = cs.get(k, 0)
                if abs(b) == 1 and not self.mentions(sub(d, scale(k, b)), lambda q: q is k):
                    # k != N with k counting up from 0
                    N = sub(scale(d, -b), scale(k, -1)) if False else (sub(k, d) if b == 1 else add(k, d))
                    if nonneg(N) or s.facts._implied_le(scale(N, -1)):
                        s.facts.les = s.facts.les + (sub(k, N),)

    def pure(self, e):
        for x in walk(e):
            if x['k'] == 'bin' and x['op'][-1] == '=' and x['op'] not in ('==', '!=', '<=', '>='):
                return False
            if x['k'] == 'un' and ('++' in x['op'] or '--' in x['op']):
                return False
            if x['k'] == 'call' and x.get('n') not in ('size', 'length', 'empty', 'end', 'begin', 'operator!=', 'operator==', 'count', 'contains', 'find', 'rows', 'cols', 'operator[]', 'operator->', 'operator*', 'pointer', 'inner', 'at'):
                return False
            if x['k'] in ('lambda', 'new', 'delete', 'throw', 'stmtexpr'):
                return False
        return True

    def classify(self, mods, kinds, conts, entries, k, floor, st, demoted):
        ent = entries[0][0]
        for l in mods:
            init = self.load(st, l)
            h = ent.mem.get(l)
            steps = set()
            ok = bool(conts)
            sk0, i0 = self.affine(init)
            mono = True
            for s, e2, tag, mark in conts:
                v = s.mem.get(l)
                if v is None:
                    v = self.load(s, l)
                sk, i = self.affine(v)
                skh, ih = self.affine(e2.mem.get(l) if e2.mem.get(l) is not None else self.load(e2, l))
                if sk != skh or sk != sk0:
                    ok = False
                    mono = False
                    break
                d = sub(i, ih)
                if not (nonneg(d) or s.facts._implied_le(scale(d, -1))):
                    mono = False
                steps.add(d)
            if ok and len(steps) == 1 and l not in demoted:
                d = next(iter(steps))
                if d is not ZERO and not self.mentions(d, lambda t: (t.op == 'sym' and t.id > floor) or t is h or any(t is kinds.get(('h', m)) for m in ())) and not self.variant(d, mods, ent):
                    if i0.op in ('c', 'lin', 'sym', 'init', 'sel', 'at', 'len', 'mul', 'u', 'trunc', 'rd', 'fn', 'div', 'mod') or True:
                        if not (init.op in ('uninit',)):
                            kinds[l] = ('ind', d)
                            continue
            h = ent.mem.get(l)
            if ok and mono and sk0[0] == 'int' and l not in demoted and h is not None and init.op not in ('uninit', 'zero') and h.op == 'sym' and steps - {ZERO} and self.numeric(init):
                kinds[l] = ('mono', h)
                continue
            kinds[l] = ('havoc', h if h is not None else self.fresh('loop'))

    def numeric(self, v):
        if v.op in ('c', 'lin', 'mul', 'len', 'plen'):
            return True
        if v in self.nums:
            return True
        ty = self.types_of.get(v)
        return ty is not None and ty.isint

    def variant(self, d, mods, ent):
        """Does the step mention a value that changes in the loop?"""
        hs = set()
        for l in mods:
            v = ent.mem.get(l)
            if v is not None:
                hs.add(self.affine(v)[1])
                hs.add(v)
        return self.mentions(d, lambda t: t in hs or (t.op == 'init' and any(self._under(t.a[0], m) for m in mods)))

    def verify(self, mods, kinds, conts, k, floor, st):
        bad = []
        for l in mods:
            kd = kinds[l]
            if kd[0] == 'ind':
                for s, e2, tag, mark in conts:
                    v = s.mem.get(l)
                    if v is None:
                        v = self.load(s, l)
                    a, b = self.affine(v)[1], self.affine(e2.mem[l])[1]
                    if sub(sub(a, b), kd[1]) is not ZERO:
                        bad.append(l)
                        break
            elif kd[0] == 'mono':
                for s, e2, tag, mark in conts:
                    v = s.mem.get(l)
                    if v is None:
                        v = self.load(s, l)
                    d = sub(v, e2.mem[l])
                    if not (nonneg(d) or s.facts._implied_le(scale(d, -1))):
                        bad.append(l)
                        break
        return bad

    def find_groups(self, mods, kinds, conts, floor, base_id, k):
        """Locations that keep the value assigned by one iteration (search loops)."""
        cand = [l for l in mods if kinds[l][0] in ('havoc', 'mono') and l.op in ('var',) ]
        if not cand:
            return []
        hs = {}
        pattern = {}
        for l in cand:
            pat = []
            for s, e2, tag, mark in conts:
                pat.append(s.mem.get(l) is not e2.mem.get(l))
            pattern[l] = tuple(pat)
        hset = set()
        for l in mods:
            if kinds[l][0] in ('havoc', 'mono'):
                hset.add(kinds[l][1])
        byp = {}
        for l in cand:
            byp.setdefault(pattern[l], []).append(l)
        groups = []
        for pat, locs in byp.items():
            if not any(pat):
                continue
            recs = []
            ok = True
            for (s, e2, tag, mark), ch in zip(conts, pat):
                if not ch:
                    continue
                vals = {}
                for l in locs:
                    v = s.mem.get(l)
                    if v is None or v.op == 'rf' or self.mentions(v, lambda t: t in hset):
                        ok = False
                        break
                    vals[l] = v
                if not ok:
                    break
                recs.append(self.mkrec(vals, s, e2, k, hset))
            if ok and len(recs) <= 6:
                groups.append({'locs': locs, 'recs': recs, 'keys': {r['key'] for r in recs}})
        return groups

    def mkrec(self, vals, s, e2, k, hset):
        j = fresh('j', True)
        truths = {}
        for t, b in s.facts.truths.items():
            if t not in e2.facts.truths and not self.mentions(t, lambda z: z in hset):
                truths[self.substitute(t, k, j)] = b
        les = tuple(self.substitute(x, k, j) for x in s.facts.les if x not in e2.facts.les and not self.mentions(x, lambda z: z in hset))
        kv = tuple(sorted(((show(l), show(v)) for l, v in vals.items())))
        return {'vals': {l: self.substitute(v, k, j) for l, v in vals.items()}, 'truths': truths, 'les': les, 'k': j,
                'key': (kv, frozenset(show(t) + str(b) for t, b in s.facts.truths.items() if t not in e2.facts.truths and not self.mentions(t, lambda z: z in hset)))}

    def regroup(self, groups, conts, floor, k):
        """With groups in place, every continuing path must leave each group untouched or assign all of it anew."""
        for gr in groups:
            hset = set()
            for r in gr['recs']:
                hset.add(r['k'])
            for s, e2, tag, mark in conts:
                ch = [s.mem.get(l) is not e2.mem.get(l) for l in gr['locs']]
                if not any(ch):
                    continue
                vals = {l: s.mem.get(l) for l in gr['locs']}
                # values equal to old ones by coincidence are fine; they must not depend on group symbols
                for l, v in vals.items():
                    if v is None or self.mentions(v, lambda t: t in hset):
                        return 'bad'
                sub_t = {self.strip_k(t, k, r) for r in gr['recs'] for t in ()}
                kv = tuple(sorted(((show(l), show(v)) for l, v in vals.items())))
                if not any(r['key'][0] == kv for r in gr['recs']):
                    if len(gr['recs']) >= 8:
                        return 'bad'
                    gr['recs'].append(self.mkrec(vals, s, e2, k, hset))
                    return 'more'
        return 'ok'

    def strip_k(self, t, k, r):
        return t

    def solve_exit(self, s, k, n):
        """On the exit path: the value of the iteration count as a loop-invariant term, if facts force it."""
        if k in s.facts.vals:
            return s.facts.vals[k]
        les = s.facts.les
        seen = set(les)
        for x in les:
            cs = dict(lin(x)[1])
            b = cs.get(k, 0)
            if abs(b) == 1 and scale(x, -1) in seen:
                r = sub(x, scale(k, b))
                t = scale(r, -1) if b == 1 else r
                if not self.mentions(t, lambda z: z is k):
                    return t
        return None

    def apply_fills(self, s, st, mods, kinds, conts, k, trips, floor):
        """a[i] = f(i) for every i of the loop: record the contents as a function of the index."""
        if len(conts) != 1:
            return
        cs, ent, tag, mark = conts[0]
        for l in mods:
            if kinds[l][0] != 'havoc' or s.mem.get(l) is not kinds[l][1]:
                continue
            subs = [(x, v) for x, v in cs.mem.items() if x is not l and self._under(x, l) and x.op == 'el' and x.a[0] is l]
            if len(subs) == 1:
                x, v = subs[0]
                idx = x.a[1]
                if cs.mem.get(l) is not ent.mem.get(l):
                    continue
                r = sub(idx, k)
                if not self.mentions(r, lambda z: z is k) and not self.mentions(v, lambda z: z is kinds[l][1]):
                    k2 = fresh('ix', True)
                    val = self.substitute(v, k, sub(k2, r))
                    s.mem[l] = mk('fill', k2, val, self.load(st, l))
                    self.fills[s.mem[l]] = (r, add(r, trips if trips is not None else k))
                    ln = mk('fld', l, '#n')
                    if ln in st.mem:
                        s.mem[ln] = st.mem[ln]

    # ---- entry points ----------------------------------------------------
    def run(self, fn, setup=None, this=None, args=None):
        """Analyse fn from an arbitrary state; returns outcomes [(kind, state, value)]."""
        st = State()
        if setup:
            setup(st)
        obj = None
        if fn.kind in ('method', 'ctor', 'dtor') and not fn.d.get('smeth'):
            obj = this or mk('obj', 'this:' + (fn.cq or ''))
            if fn.kind == 'ctor':
                st.mem[obj] = mk('uninit', obj)
        fr = Frame('(entry)', fn.file)
        av = []
        if args is not None:
            av = args
        else:
            for p in fn.params:
                l = mk('obj', 'arg:' + p['n'])
                t = p['t']
                if t.c == 'ref':
                    self.types_of.setdefault(mk('init', l), t.p)
                    if t.p.isint:
                        mk('init', l).nn = t.p.nonneg
                    av.append(l)
                elif t.c == 'rec':
                    av.append(l)
                else:
                    v = mk('init', l)
                    self.types_of[v] = t
                    v.nn = t.nonneg
                    av.append(v)
        out = []
        e = {'k': 'call', 'l': fn.line, 'args': []}
        res = self.call_fn(fn, st, obj, av, e, fr, out)
        outs = [('r', s, v) for s, v in res] + out
        self.stats['paths'] += len(outs)
        return outs


def _count_now():
    from . import terms
    return terms._count[0]
