"""Models of the library classes the analysed helpers use, for the interpreters of hz/bits.py: strings, vectors, maps, string
streams and bit streams over elements of known number and unknown content."""
from . import bits
from .bits import Arr, Cell, Ptr, Rec, Fault, Undecided, Raised, array

U64 = 64


class Str(Arr):
    """A string of known length; the characters are values of the domain."""

    def vals(self, line=0):
        return [c.get(line) for c in self.cells]


class Vec(Arr):
    pass


class Map:
    def __init__(self):
        self.items = []

    @property
    def cells(self):
        return [Cell(x) for x in self.items]


class Stream:
    """A string stream: what was inserted."""

    def __init__(self, s=()):
        self.out = list(s)


class BitStream:
    """bitio::stream: most significant bit first; a write takes the low bits of the value."""

    def __init__(self, ptr):
        self.ptr, self.pos = ptr, 0


def kind(t):
    if t is None:
        return ''
    t = t.p if t.c == 'ref' else t
    n = (t.rec or t.n).removeprefix('const ')
    for k in ('basic_string', 'vector', 'unordered_map', 'map', 'basic_stringstream', 'basic_ostringstream', 'basic_string_view'):
        if n.startswith('std::%s<' % k):
            return k
    return 'bits' if n == 'bitio::stream' else ''


class Std(bits.Interp):
    """Adds the library to the bit-dependence domain."""

    def blank(self, t):
        k = kind(t)
        if k:
            return self.make(k, [], None, {})
        return super().blank(t)

    def copy(self, v):
        if isinstance(v, Str):
            return Str([Cell(c.v) for c in v.cells])
        if isinstance(v, Vec):
            return Vec([Cell(self.copy(c.v)) for c in v.cells])
        if isinstance(v, Map):
            m = Map()
            m.items = [self.copy(x) for x in v.items]
            return m
        return super().copy(v)

    def make(self, k, args, e, env):
        vs = [self.ev(a, env) for a in args if 'std::allocator<' != (a['t'].rec or a['t'].n).removeprefix('const ')[:15]]
        if k in ('basic_string', 'basic_string_view'):
            if not vs:
                return Str([])
            if isinstance(vs[0], Str) and len(vs) == 1:
                return self.copy(vs[0])
            if isinstance(vs[0], Str):
                return self.substr(vs[0], vs[1:])
            if isinstance(vs[0], Ptr) and len(vs) == 1:
                return self.cstr(vs[0], e)
            if isinstance(vs[0], (Ptr, Arr)) and len(vs) == 2 and self.D.num(vs[1]):
                p = vs[0] if isinstance(vs[0], Ptr) else Ptr(vs[0])
                n = self.known(vs[1], e)
                return Str([Cell(self.byte(p.arr.at(p.off + i, e['l']).get(e['l']))) for i in range(n)])
            if self.D.num(vs[0]) and len(vs) == 2:
                return Str([Cell(self.byte(vs[1])) for _ in range(self.known(vs[0], e))])
            if len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].arr is vs[1].arr:
                return Str([Cell(self.byte(c.v)) for c in vs[0].arr.cells[vs[0].off:vs[1].off]])
        if k == 'vector':
            if not vs:
                return Vec([])
            if isinstance(vs[0], Vec):
                return self.copy(vs[0])
            if self.D.num(vs[0]):
                z = vs[1] if len(vs) > 1 else self.D.const(0, 64)
                return Vec([Cell(z) for _ in range(self.known(vs[0], e))])
        if k in ('unordered_map', 'map'):
            return self.copy(vs[0]) if vs and isinstance(vs[0], Map) else Map()
        if k in ('basic_stringstream', 'basic_ostringstream'):
            return Stream(vs[0].vals()) if vs and isinstance(vs[0], Str) else Stream()
        if k == 'bits':
            p = vs[0] if vs else None
            if isinstance(p, Arr):
                p = Ptr(p)
            n = self.known(vs[1], e)
            if p is None and n == 0:
                p = Ptr(Arr([]))
            if isinstance(p, Ptr):
                if p.off + n > len(p.arr.cells):
                    raise Fault('a bit stream of %d bytes is made over a buffer of %d' % (n, len(p.arr.cells) - p.off), e['l'])
                return BitStream(Ptr(Arr(p.arr.cells[p.off:p.off + n])))
        raise Undecided('construction of a %s at line %s' % (k, e['l'] if e else 0))

    def known(self, v, e):
        n = self.D.conc(v, False)
        if n is None:
            raise Undecided('a size is not known at line %s' % (e['l'] if e else 0))
        return n

    def byte(self, v):
        return v[:8] if isinstance(v, tuple) else v

    def cstr(self, p, e):
        r = []
        for c in p.arr.cells[p.off:]:
            v = c.get(e['l'] if e else 0)
            if self.cmp('==', v, self.D.const(0, 8), False, e or {'l': 0}):
                return Str(r)
            r.append(Cell(v))
        raise Undecided('a text without end at line %s' % (e['l'] if e else 0))

    def substr(self, s, vs):
        n = len(s.cells)
        p = self.known(vs[0], None) if vs else 0
        if p > n:
            raise Raised('std::out_of_range')
        k = self.known(vs[1], None) if len(vs) > 1 else n
        return Str([Cell(c.v) for c in s.cells[p:min(n, p + k)]])

    def ctor(self, e, env):
        t = e.get('t')
        k = kind(t)
        if k:
            return self.make(k, e['args'], e, env)
        return super().ctor(e, env)

    def literal(self, e):
        return Str([Cell(self.D.const(b, 8)) for b in (e.get('v') or e.get('s') or '').encode('utf-8', 'surrogateescape')])

    def ev(self, e, env):
        if e['k'] == 'str':
            s = self.literal(e)
            return Ptr(Arr(s.cells + [Cell(self.D.const(0, 8))], 'text'))
        return super().ev(e, env)

    def text(self, v, e):
        if isinstance(v, Str):
            return v
        if isinstance(v, Ptr):
            return self.cstr(v, e)
        if self.D.num(v):
            return Str([Cell(self.byte(v))])
        raise Undecided('a text is not known at line %s' % e['l'])

    def same(self, a, b, e):
        """Are two texts equal?"""
        if len(a.cells) != len(b.cells):
            return False
        for x, y in zip(a.cells, b.cells):
            if not self.cmp('==', x.get(e['l']), y.get(e['l']), False, e):
                return False
        return True

    def bool(self, b):
        return self.D.const(1 if b else 0, 8)

    def docall(self, e, env):
        r = self.library(e, env)
        return r[0] if r is not None else super().docall(e, env)

    def lv(self, e, env):
        if e['k'] == 'call' and e.get('op') == '[]' and kind(e['obj']['t']) in ('map', 'unordered_map'):
            return self.slot(self.ev(e['obj'], env), self.ev(e['args'][0], env), e).f['second']
        return super().lv(e, env)

    def slot(self, m, key, e):
        key = self.text(key, e) if isinstance(key, (Str, Ptr)) else key
        for x in m.items:
            if isinstance(key, Str) and self.same(x.f['first'].v, key, e):
                return x
        x = Rec({'first': Cell(self.copy(key)), 'second': Cell(self.blank(e['t'].p if e.get('t') is not None and e['t'].c == 'ref' else e.get('t')))})
        m.items.append(x)
        return x

    def find(self, m, key, e):
        key = self.text(key, e)
        return next((x for x in m.items if self.same(x.f['first'].v, key, e)), None)

    def library(self, e, env):
        q, n, op = e.get('q') or '', e.get('n') or '', e.get('op')
        if not (q.startswith('std::') or q.startswith('bitio::')):
            return None
        D, L = self.D, e['l']
        a = e['args']
        num = lambda i: D.const(i, 64)
        if e.get('obj') is not None and op != '()':
            o = self.ev(e['obj'], env)
            if isinstance(o, BitStream):
                return self.bitstream(o, n, a, e, env)
            if isinstance(o, Str):
                v = [self.ev(x, env) for x in a]
                k = len(o.cells)
                if op == '=' or n == 'assign' and len(v) == 1:
                    o.cells[:] = [Cell(c.v) for c in self.text(v[0], e).cells]
                    return o,
                if op == '+=' or n in ('append', 'push_back') and len(v) == 1:
                    o.cells.extend(Cell(c.v) for c in self.text(v[0], e).cells)
                    return o,
                if op == '[]' or n == 'at':
                    i = self.known(v[0], e)
                    if n == 'at' and i >= k:
                        raise Raised('std::out_of_range')
                    return (D.const(0, 8) if i == k else o.at(i, L).get(L)),
                if n in ('length', 'size'):
                    return num(k),
                if n == 'empty':
                    return self.bool(not k),
                if n in ('back', 'front'):
                    return o.at(k - 1 if n == 'back' else 0, L).get(L),
                if n == 'substr':
                    return self.substr(o, v),
                if n in ('ends_with', 'starts_with'):
                    t = self.text(v[0], e)
                    m = len(t.cells)
                    return self.bool(m <= k and self.same(Str(o.cells[k - m:] if n == 'ends_with' else o.cells[:m]), t, e)),
                if n == 'compare':
                    t = self.text(v[-1], e)
                    s = self.substr(o, v[:2]) if len(v) == 3 else o
                    if self.same(s, t, e):
                        return D.const(0, 32),
                    return D.const(1, 32),
                if n in ('find', 'rfind', 'find_first_of', 'find_last_of'):
                    t = self.text(v[0], e)
                    single = n.endswith('_of')
                    m = 1 if single else len(t.cells)
                    pos = range(k - m + 1)
                    for i in (reversed(pos) if n.startswith(('rfind', 'find_last')) else pos):
                        if any(self.same(Str([o.cells[i]]), Str([c]), e) for c in t.cells) if single else self.same(Str(o.cells[i:i + m]), t, e):
                            return num(i),
                    return D.const((1 << 64) - 1, 64),
                if n == 'pop_back':
                    o.cells.pop()
                    return None,
                if n == 'clear':
                    o.cells.clear()
                    return None,
                if n in ('c_str', 'data'):
                    return Ptr(Arr(o.cells + [Cell(D.const(0, 8))])),
                if n in ('begin', 'cbegin'):
                    return Ptr(o),
                if n in ('end', 'cend'):
                    return Ptr(o, k),
                if n.startswith('operator basic_string_view'):
                    return o,
                if n in ('reserve', 'shrink_to_fit'):
                    return None,
            if isinstance(o, Vec):
                k = len(o.cells)
                if n in ('push_back', 'emplace_back'):
                    if len(a) == 1:
                        o.cells.append(Cell(self.copy(self.ev(a[0], env))))
                        return None,
                if n in ('size',):
                    return num(k),
                if n == 'empty':
                    return self.bool(not k),
                if n in ('back', 'front'):
                    return o.at(k - 1 if n == 'back' else 0, L).get(L),
                if n == 'data':
                    return Ptr(o),
                if n == 'begin':
                    return Ptr(o),
                if n == 'end':
                    return Ptr(o, k),
                if n == 'clear':
                    o.cells.clear()
                    return None,
                if n == 'reserve':
                    return None,
            if isinstance(o, Map):
                if n == 'size':
                    return num(len(o.items)),
                if n == 'empty':
                    return self.bool(not o.items),
                if op == '[]':
                    return self.slot(o, self.ev(a[0], env), e).f['second'].v,
                if n in ('contains', 'count'):
                    return self.bool(self.find(o, self.ev(a[0], env), e) is not None),
                if n in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
                    v = [self.ev(x, env) for x in a]
                    if len(v) == 1 and isinstance(v[0], Rec):
                        v = [v[0].f['first'].v, v[0].f['second'].v]
                    if len(v) == 2:
                        x = self.find(o, v[0], e)
                        if x is None:
                            o.items.append(Rec({'first': Cell(self.text(v[0], e)), 'second': Cell(self.text(v[1], e))}))
                        elif n == 'insert_or_assign':
                            x.f['second'].set(self.text(v[1], e))
                        return None,
                if n == 'at':
                    x = self.find(o, self.ev(a[0], env), e)
                    if x is None:
                        raise Raised('std::out_of_range')
                    return x.f['second'].v,
                if n in ('begin', 'end', 'cbegin', 'cend'):
                    return Ptr(Arr(o.cells), 0 if 'begin' in n else len(o.items)),
                if n in ('reserve',):
                    return None,
                if n == 'clear':
                    o.items.clear()
                    return None,
            if isinstance(o, Stream):
                if n == 'str' and not a:
                    return Str([Cell(v) for v in o.out]),
                if n == 'str':
                    o.out = self.text(self.ev(a[0], env), e).vals()
                    return None,
                if n == 'clear':
                    return None,
                if op == '=':
                    v = self.ev(a[0], env)
                    o.out = list(v.out)
                    return o,
                if n == 'put':
                    o.out.append(self.byte(self.ev(a[0], env)))
                    return o,
                if n == 'write' and len(a) == 2:
                    p, k = self.ev(a[0], env), self.known(self.ev(a[1], env), e)
                    o.out.extend(self.byte(p.arr.at(p.off + i, L).get(L)) for i in range(k))
                    return o,
                if op == '<<':
                    return self.insert(o, a[0], e, env)
            return None
        if op == '<<' and len(a) == 2:
            o = self.ev(a[0], env)
            if isinstance(o, Stream):
                return self.insert(o, a[1], e, env)
        if op in ('==', '!=') and len(a) == 2 and any(kind(x['t']) == 'basic_string' for x in a):
            x, y = (self.text(self.ev(v, env), e) for v in a)
            return self.bool(self.same(x, y, e) == (op == '==')),
        if op == '+' and len(a) == 2 and any(kind(x['t']) == 'basic_string' for x in a):
            x, y = (self.text(self.ev(v, env), e) for v in a)
            return Str([Cell(c.v) for c in x.cells + y.cells]),
        return None

    def insert(self, o, x, e, env):
        v = self.ev(x, env)
        t = x['t']
        if isinstance(v, (Str, Ptr)):
            o.out.extend(self.text(v, e).vals())
        elif t.isint and bits.width(t) == 8 and self.D.num(v):
            o.out.append(self.byte(v))
        else:
            raise Undecided('something is put into a stream at line %s' % e['l'])
        return o,

    def bitstream(self, o, n, a, e, env):
        v = [self.ev(x, env) for x in a]
        cells = o.ptr.arr.cells
        if n == 'write':
            k = self.known(v[1], e)
            if o.pos + k > 8 * len(cells):
                raise Fault('%d bits are written where %d are left' % (k, 8 * len(cells) - o.pos), e['l'])
            row = tuple(reversed(self.D.resize(v[0], None, U)[:k] if k <= 64 else ()))
            for i, b in enumerate(row):
                c = cells[(o.pos + i) // 8]
                j = 7 - (o.pos + i) % 8
                w = c.v if c.v is not None else tuple(bits.fresh() for _ in range(8))
                c.set(w[:j] + (b,) + w[j + 1:])
            o.pos += k
            return None,
        if n == 'read':
            k = self.known(v[0], e)
            if o.pos + k > 8 * len(cells):
                raise Fault('%d bits are read where %d are left' % (k, 8 * len(cells) - o.pos), e['l'])
            row = []
            for i in range(k):
                c = cells[(o.pos + i) // 8]
                row.append(c.get(e['l'])[7 - (o.pos + i) % 8])
            o.pos += k
            return tuple(reversed(row)) + (bits.O,) * (64 - k),
        if n in ('seek', 'seek_to'):
            o.pos = self.known(v[0], e) + (o.pos if n == 'seek' else 0)
            return None,
        if n == 'flush':
            return None,
        return None


class _U64:
    w, s, c, isint = 64, False, 'int', True


U = _U64()
