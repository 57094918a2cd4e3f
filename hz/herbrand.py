"""The domain of uninterpreted terms: constants are computed, everything else is named by the operation and its operands.

Two values with the same term are equal. A condition the terms do not decide is a term, too; the analysis
assigns truth values to such terms, so that two pieces of code under one assignment decide the same question alike."""
import hashlib

from . import bits
from .bits import Undecided, Fault, Cell


class H:
    """A term: operator, operands (H or int), width of the value."""
    __slots__ = ('op', 'a', 'w', 'h')
    table = {}

    def __new__(cls, op, a, w):
        k = (op, tuple(id(x) if isinstance(x, H) else ('n', x) for x in a), w)
        r = cls.table.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op, r.a, r.w = op, a, w
            cls.table[k] = r
        return r

    def __repr__(self):
        return self.op if not self.a else '%s(%s)' % (self.op, ', '.join(map(str, self.a)))


def atom(name, w):
    return H(name, (), w)


def wrap(n, t):
    w = bits.width(t)
    n &= (1 << w) - 1
    return n - (1 << w) if t.s and n >> w - 1 else n


class Terms:
    num = staticmethod(lambda v: isinstance(v, (int, H)))

    def const(self, n, w):
        return int(n)

    def conc(self, v, s):
        return v if isinstance(v, int) else None

    def resize(self, v, frm, to):
        if isinstance(v, int):
            return wrap(v, to)
        w = bits.width(to)
        return v if w >= v.w else H('to%d%s' % (w, 's' if to.s else ''), (v,), w)

    def neg(self, v, t):
        return wrap(-v, t) if isinstance(v, int) else H('-', (v,), bits.width(t))

    def inv(self, v, t):
        return wrap(~v, t) if isinstance(v, int) else H('~', (v,), bits.width(t))

    def add1(self, v, n, t):
        return wrap(v + n, t) if isinstance(v, int) else H('+', (v, n), bits.width(t))

    def nonzero(self, v):
        return v != 0 if isinstance(v, int) else None

    def unknown(self, w):
        raise Undecided('unknown value')

    def compare(self, op, a, b, s):
        if isinstance(a, int) and isinstance(b, int):
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return op in ('==', '<=', '>=') if a is b else None

    def arith(self, op, a, b, t, e, bs):
        if isinstance(a, int) and isinstance(b, int):
            if op in '/%' and b == 0:
                raise Fault('division by zero', e['l'])
            if op in ('<<', '>>') and not 0 <= b < bits.width(t):
                raise Fault('a value of %d bits is shifted by %d' % (bits.width(t), b), e['l'])
            q = lambda: abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
            n = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': q, '%': lambda: a - q() * b, '&': lambda: a & b, '|': lambda: a | b,
                 '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            return wrap(n, t)
        if op in '+*&|^' and str(a) > str(b) and not (isinstance(a, int) and isinstance(b, H)):
            a, b = b, a
        return H(op, (a, b), bits.width(t))


class Truths(bits.Interp):
    """Interprets under assignments of truth values to the undecided conditions; equal conditions have equal values."""
    Domain = Terms

    def every(self, go, n):
        out = []
        for self.seed in range(n):
            self.asked = {}
            out.append(go(self))
        return out

    def holds(self, v):
        """The truth of a canonical condition under the current assignment."""
        if self.seed < 2:
            return self.seed == 0
        r = self.asked.get(v)
        if r is None:
            r = self.asked[v] = bool(hashlib.sha256(('%d %r' % (self.seed, v)).encode()).digest()[0] & 1)
        return r

    def choose(self, v, e):
        op, a = v.op, v.a
        if op == 'not':
            return not self.choose(v.a[0], e)
        return self.holds(v)

    def related(self, op, a, b, e):
        if op in ('>', '<='):
            a, b = b, a
        if op in ('==', '!=') and str(a) > str(b):
            a, b = b, a
        r = H('<' if op in ('<', '>', '<=', '>=') else '==', (a, b), 8)
        return H('not', (r,), 8) if op in ('<=', '>=', '!=') else r

    def truth(self, v, t):
        return H('bool', (v,), 8)

    def outer(self, e):
        """A variable of unknown value that the analysed code does not change."""
        t, q = e['t'], e.get('q')
        if t is None or not t.isint or not q:
            return super().outer(e)
        self.globals = getattr(self, 'globals', {})
        return self.globals.setdefault(q, Cell(atom(q, bits.width(t))))
