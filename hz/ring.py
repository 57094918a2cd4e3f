"""The modular domain: a number is a linear form over atoms, known modulo a power of two, together with an interval of integers.

Two numbers with the same form modulo 2^m and intervals inside one window of 2^m integers are equal. Sums, differences and
multiples keep the form; conversions and masks with 2^d-1 reduce the modulus and narrow the interval; a right shift of a number
that is determined this way becomes an atom of its own, named by what was shifted. Everything else is a new atom."""
from . import bits
from .bits import Undecided, Fault, Cell, Rec, Arr, Ptr

FULL = 64
_n = [0]


class V:
    """v = k + sum(coeff * atom) modulo 2^m, lo <= v <= hi."""
    __slots__ = ('f', 'k', 'm', 'lo', 'hi')

    def __init__(self, f, k, m, lo, hi):
        self.m = m
        self.k = k % (1 << m)
        self.f = frozenset((a, n % (1 << m)) for a, n in f.items() if n % (1 << m)) if isinstance(f, dict) else f
        self.lo, self.hi = lo, hi

    def form(self, m=None):
        m = self.m if m is None else m
        return frozenset((a, n % (1 << m)) for a, n in self.f if n % (1 << m)), self.k % (1 << m)

    def window(self):
        """The window of 2^m integers the number lies in, or None if it is not determined by its form."""
        if self.lo >= 0 and self.hi < 1 << self.m:
            return 0
        if self.lo >= -(1 << self.m - 1) and self.hi < 1 << self.m - 1:
            return -(1 << self.m - 1)
        return self.lo if self.hi - self.lo < 1 << self.m else None

    def __repr__(self):
        t = ' + '.join('%s%s' % ('' if n == 1 else '%d*' % (n if n < 1 << self.m - 1 else n - (1 << self.m)), a if isinstance(a, str) else 'half(%s)' % (a[1],)) for a, n in sorted(self.f, key=str))
        return '%s%s mod 2^%d in [%d, %d]' % (t or '0', ' + %d' % self.k if self.k else '', self.m, self.lo, self.hi)


def atom(name, lo, hi):
    return V({name: 1}, 0, FULL, lo, hi)


def fresh(lo, hi):
    _n[0] += 1
    return atom('?%d' % _n[0], lo, hi)


def rng(t):
    w = bits.width(t)
    return (-(1 << w - 1), (1 << w - 1) - 1) if t.s else (0, (1 << w) - 1)


def same(a, b):
    """True if the two numbers are equal whatever the atoms are."""
    m = min(a.m, b.m)
    if a.form(m) != b.form(m):
        return False
    return max(a.hi, b.hi) - min(a.lo, b.lo) < 1 << m


def combine(a, b, s):
    m = min(a.m, b.m)
    f = dict(a.f)
    for x, n in b.f:
        f[x] = f.get(x, 0) + s * n
    lo, hi = (a.lo + b.lo, a.hi + b.hi) if s > 0 else (a.lo - b.hi, a.hi - b.lo)
    return V(f, a.k + s * b.k, m, lo, hi)


def times(a, n):
    lo, hi = sorted((a.lo * n, a.hi * n))
    return V({x: y * n for x, y in a.f}, a.k * n, a.m, lo, hi)


class Ring:
    def __init__(self):
        self.facts = {}

    num = staticmethod(lambda v: isinstance(v, V))

    def const(self, n, w):
        return V({}, n, FULL, n, n)

    def conc(self, v, s):
        return v.lo if v.lo == v.hi else None

    def resize(self, v, frm, to):
        lo, hi = rng(to)
        if v.lo >= lo and v.hi <= hi:
            return v
        w = bits.width(to)
        if v.lo == v.hi and not v.f:
            n = v.lo % (1 << w)
            n = n - (1 << w) if to.s and n >> w - 1 else n
            return V({}, n, FULL, n, n)
        return V(dict(v.f), v.k, min(v.m, w), lo, hi)

    def neg(self, v, t):
        return self.wrap(times(v, -1), t)

    def inv(self, v, t):
        return self.wrap(combine(self.const(-1, 64), v, -1), t)

    def add1(self, v, n, t):
        return self.wrap(combine(v, self.const(n, 64), 1), t)

    def wrap(self, v, t):
        return self.resize(v, None, t) if t is not None and t.isint else v

    def nonzero(self, v):
        if v.lo > 0 or v.hi < 0:
            return True
        return False if v.lo == v.hi == 0 else None

    def unknown(self, w):
        return fresh(0, 1)

    def exact(self, v):
        """The number as an exact linear form, naming its canonical representative if it is only known modulo a power of two."""
        if v.m == FULL:
            return v
        w = v.window()
        if w is None:
            return None
        f, k = v.form()
        return V({('rep', f, (k - w) % (1 << v.m), v.m): 1}, w, FULL, v.lo, v.hi)

    def diff(self, a, b):
        a, b = self.exact(a), self.exact(b)
        if a is None or b is None:
            return None
        return self.narrow(combine(a, b, -1))

    def key(self, v):
        k = v.k if v.k < 1 << FULL - 1 else v.k - (1 << FULL)
        neg = frozenset((a, -n % (1 << FULL)) for a, n in v.f)
        return (v.f, k, 1) if sorted(map(str, v.f)) <= sorted(map(str, neg)) else (neg, k, -1)

    def narrow(self, v):
        f, k, s = self.key(v)
        r = self.facts.get(f)
        if r is not None:
            lo, hi = (r[0] + k, r[1] + k) if s > 0 else (-r[1] + k, -r[0] + k)
            v = V(v.f, v.k, v.m, max(lo, v.lo), min(hi, v.hi))
        return v

    def learn(self, d, lo, hi):
        """From here on lo <= d <= hi."""
        f, k, s = self.key(d)
        lo, hi = (lo - k, hi - k) if s > 0 else (k - hi, k - lo)
        o = self.facts.get(f, (-(1 << FULL), 1 << FULL))
        self.facts[f] = (max(lo, o[0]), min(hi, o[1]))

    def compare(self, op, a, b, s):
        if self.facts and a.lo <= b.hi and b.lo <= a.hi and (a.lo != a.hi or b.lo != b.hi):
            d = self.diff(a, b)
            if d is not None:
                a, b = d, self.const(0, 64)
        if op in ('==', '!='):
            r = True if same(a, b) else False if a.hi < b.lo or b.hi < a.lo else None
            return r if op == '==' or r is None else not r
        if op in ('>', '<='):
            a, b = b, a
        r = True if a.hi < b.lo else False if a.lo >= b.hi or same(a, b) else None
        return r if op in ('<', '>') or r is None else not r

    def low(self, v, d):
        """The d lowest bits."""
        if v.lo >= 0 and v.hi < 1 << d:
            return v
        if v.lo == v.hi and not v.f:
            return self.const(v.lo % (1 << d), 64)
        return V(dict(v.f), v.k, min(v.m, d), 0, (1 << d) - 1)

    def shr(self, v, n):
        if n == 0:
            return v
        if v.lo == v.hi:
            return self.const(v.lo >> n, 64)
        w = v.window()
        lo, hi = v.lo >> n, v.hi >> n
        if w is None:
            return fresh(lo, hi)
        return V({('>>%d' % n, v.form(), v.m, w): 1}, 0, FULL, lo, hi)

    def arith(self, op, a, b, t, e, bs):
        cb = b.lo if b.lo == b.hi else None
        ca = a.lo if a.lo == a.hi else None
        if op == '+':
            return self.wrap(combine(a, b, 1), t)
        if op == '-':
            r = combine(a, b, -1)
            if self.facts and ca is None:
                d = self.diff(a, b)
                if d is not None:
                    r = V(r.f, r.k, r.m, max(r.lo, d.lo), min(r.hi, d.hi))
            return self.wrap(r, t)
        if op == '*':
            if cb is not None or ca is not None:
                return self.wrap(times(a, cb) if cb is not None else times(b, ca), t)
        elif op in ('<<', '>>'):
            w = bits.width(t)
            if cb is None:
                return fresh(*rng(t))
            if not 0 <= cb < w:
                raise Fault('a value of %d bits is shifted by %d' % (w, cb), e['l'])
            return self.wrap(times(a, 1 << cb), t) if op == '<<' else self.shr(a, cb)
        elif op in ('/', '%'):
            if cb == 0:
                raise Fault('division by zero', e['l'])
            if ca is not None and cb is not None:
                q = abs(ca) // abs(cb) * (1 if (ca >= 0) == (cb >= 0) else -1)
                return self.const(q if op == '/' else ca - q * cb, 64)
            if cb is not None and cb > 0 and cb & cb - 1 == 0 and a.lo >= 0:
                n = cb.bit_length() - 1
                return self.shr(a, n) if op == '/' else self.low(a, n)
        elif op in ('&', '|', '^'):
            for x, y, n in ((a, b, cb), (b, a, ca)):
                if op == '&' and n is not None and not y.f and x.f and (n % (1 << bits.width(t)) + 1) & n == 0:
                    return self.wrap(self.low(x, (n % (1 << bits.width(t))).bit_length()), t)
            if ca is not None and cb is not None:
                n = {'&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op]
                return self.const(n, 64)
            if ca is not None:
                a, ca, b, cb = b, cb, a, ca
            if cb is not None:
                cb %= 1 << bits.width(t)
                if op == '&' and cb & cb + 1 == 0:
                    return self.wrap(self.low(a, cb.bit_length()), t)
                if op == '&' and cb == 0 or op in '|^' and cb == 0:
                    return self.const(0, 64) if op == '&' else a
            elif same(a, b):
                return self.const(0, 64) if op == '^' else a
            if a.lo >= 0 and b.lo >= 0:
                return fresh(0, min(a.hi, b.hi) if op == '&' else (1 << max(a.hi, b.hi).bit_length()) - 1)
        return fresh(*rng(t))


class Paths(bits.Interp):
    """Follows every combination of outcomes of the conditions the domain cannot decide."""
    Domain = Ring

    def every(self, go, first=None):
        def one(I):
            self.D.facts, self.asked = {}, {}
            return go(I)
        return super().every(one, first)

    def outer(self, e):
        """A variable of unknown value that the analysed code does not change."""
        t, q = e['t'], e.get('q')
        if t is None or not (t.isint or t.c == 'bool') or not q:
            return super().outer(e)
        self.globals = getattr(self, 'globals', {})
        if q not in self.globals:
            self.globals[q] = Cell(atom(q, *((0, 1) if t.c == 'bool' else rng(t))))
        return self.globals[q]

    def choose(self, v, e):
        r = super().choose(v, e)
        q = self.asked.get(v.f) if isinstance(v, V) else None
        if q is not None:
            op, a, b = q
            if not r:
                op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
            d = self.D.diff(a, b)
            if d is not None and op != '!=':
                self.D.learn(d, {'>': 1, '>=': 0, '==': 0}.get(op, d.lo), {'<': -1, '<=': 0, '==': 0}.get(op, d.hi))
        return r

    def related(self, op, a, b, e):
        v = fresh(0, 1)
        self.asked[v.f] = (op, a, b)
        return v
