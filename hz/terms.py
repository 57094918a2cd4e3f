"""Hash-consed value terms with a linear normal form, and a small zone-style
entailment check over linear facts (no solver: at most three facts are added)."""

_table = {}
_count = [0]


class T:
    __slots__ = ('op', 'a', 'id', 'nn')

    def __repr__(self):
        return show(self)


NN = {}       # atoms known to be non-negative because of their type


def mk(op, *a):
    k = (op,) + a
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _count[0] += 1
        t.id = _count[0]
        t.nn = False
        _table[k] = t
    return t


def c(n):
    return mk('c', int(n))


ZERO, ONE = c(0), c(1)
NULL = mk('null')


def fresh(hint, nn=False):
    t = mk('sym', hint, _count[0])
    t.nn = nn
    return t


def isc(t):
    return t.op == 'c'


# ---- linear forms: (const, {atom: coeff}) ---------------------------------
def lin(t):
    if t.op == 'c':
        return t.a[0], ()
    if t.op == 'lin':
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def mklin(k, items):
    items = tuple(sorted(((a, n) for a, n in items if n != 0), key=lambda x: x[0].id))
    if not items:
        return c(k)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    t = mk('lin', k, items)
    if k >= 0 and all(n > 0 and a.nn for a, n in items):
        t.nn = True
    return t


def add(x, y, ky=1):
    k1, i1 = lin(x)
    k2, i2 = lin(y)
    d = dict(i1)
    for a, n in i2:
        d[a] = d.get(a, 0) + ky * n
    return mklin(k1 + ky * k2, d.items())


def sub(x, y):
    return add(x, y, -1)


def scale(x, n):
    k, i = lin(x)
    return mklin(k * n, [(a, m * n) for a, m in i])


def mul(x, y):
    if x.op == 'c':
        return scale(y, x.a[0])
    if y.op == 'c':
        return scale(x, y.a[0])
    kx, ix = lin(x)
    ky, iy = lin(y)
    # distribute over sums so that equal products have one form
    d = {}
    k = kx * ky
    for a, n in ix:
        d[a] = d.get(a, 0) + n * ky
    for a, n in iy:
        d[a] = d.get(a, 0) + n * kx
    for a, n in ix:
        for b, m in iy:
            fs = []
            for z in (a, b):
                fs += list(z.a) if z.op == 'mul' else [z]
            fs.sort(key=lambda z: z.id)
            p = mk('mul', *fs)
            p.nn = all(z.nn for z in fs)
            d[p] = d.get(p, 0) + n * m
    return mklin(k, d.items())


def nonneg(t):
    if t.op == 'c':
        return t.a[0] >= 0
    return t.nn


def eq(x, y):
    """Truth term of x == y."""
    if x is y:
        return ONE
    num = lambda t: t.op in ('c', 'lin', 'mul')
    if num(x) or num(y):
        d = sub(x, y)
        if d.op == 'c':
            return ONE if d.a[0] == 0 else ZERO
        k, i = lin(d)
        if i[0][1] < 0:
            d = scale(d, -1)
        return mk('eq0', d)
    if x.op == 'str' and y.op == 'str':
        return ONE if x.a == y.a else ZERO
    a, b = (x, y) if x.id < y.id else (y, x)
    return mk('eqv', a, b)


def le(x, y):
    """Truth term of x <= y over the integers."""
    d = sub(x, y)
    if d.op == 'c':
        return ONE if d.a[0] <= 0 else ZERO
    return mk('le0', d)


def lt(x, y):
    return le(add(x, ONE), y)


def neg(t):
    if t.op == 'c':
        return ZERO if t.a[0] else ONE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'le0':            # not d<=0  <=>  -d+1 <= 0
        return mk('le0', add(scale(t.a[0], -1), ONE))
    return mk('not', t)


BOOL = ('eq0', 'eqv', 'le0', 'not', 'pred')


def truth(t):
    """Boolean term of an integer/pointer value used as a condition."""
    if t.op == 'c':
        return ONE if t.a[0] else ZERO
    if t.op in BOOL or t.op in PREDS:
        return t
    if t.op == 'null':
        return ZERO
    if t.op in ('ptr', 'str', 'clo', 'fnref'):
        return ONE
    if t.op == 'sym' and str(t.a[0]).startswith('b:'):
        return t
    if t.op in ('lin', 'mul'):
        return neg(eq(t, ZERO))
    if t.op == 'ispt':
        return neg(mk('eqv', *sorted((t.a[0], NULL), key=lambda z: z.id)))
    return neg(eq(t, ZERO))


PREDS = {'contains', 'is_some', 'empty', 'starts', 'opred'}


def unify(p, t, k, b):
    """Match pattern p (with variable k) against t, binding k in b."""
    if p is t:
        return True
    if not isinstance(p, T) or not isinstance(t, T):
        return p == t
    if p is k:
        if k in b:
            return b[k] is t
        b[k] = t
        return True
    if p.op == 'lin':
        cs = dict(lin(p)[1])
        if k in cs and abs(cs[k]) == 1:
            r = sub(t, sub(p, scale(k, cs[k])))
            return unify(k, scale(r, cs[k]), k, b)
        return False
    if p.op != t.op or len(p.a) != len(t.a):
        return False
    for x, y in zip(p.a, t.a):
        if isinstance(x, tuple):
            if not isinstance(y, tuple) or len(x) != len(y) or not all(unify(u, v, k, b) for u, v in zip(x, y)):
                return False
        elif not unify(x, y, k, b):
            return False
    return True


class Facts:
    """What is known on one path: truth of predicates, linear facts (<= 0)."""
    __slots__ = ('truths', 'les', 'vals', 'univ')

    def __init__(self, truths=None, les=(), vals=None, univ=()):
        self.truths = truths if truths is not None else {}
        self.les = les
        self.vals = vals if vals is not None else {}
        self.univ = univ        # (k, term, value, n): the term has that value for every 0 <= k < n

    def copy(self):
        return Facts(dict(self.truths), self.les, dict(self.vals), self.univ)

    def key(self):
        return (frozenset(self.truths.items()), frozenset(self.les), self.univ)

    def _universal(self, t):
        for k, pat, val, n in self.univ:
            if pat.op != t.op:
                continue
            b = {}
            if unify(pat, t, k, b) and k in b:
                i = b[k]
                if self._implied_le(scale(i, -1)) and self._implied_le(add(sub(i, n), ONE)):
                    return val
        return None

    def subst(self, t):
        """Replace atoms whose constant value is known."""
        if not self.vals:
            return t
        if t.op in ('lin', 'mul') or t in self.vals:
            if t in self.vals:
                return self.vals[t]
            if t.op == 'lin':
                r = c(t.a[0])
                ch = False
                for a, n in t.a[1]:
                    v = self.subst(a)
                    if v is not a:
                        ch = True
                    r = add(r, scale(v, n))
                return r if ch else t
            if t.op == 'mul':
                vs = [self.subst(x) for x in t.a]
                if all(v is x for v, x in zip(vs, t.a)):
                    return t
                r = ONE
                for v in vs:
                    r = mul(r, v)
                return r
        return t

    def _implied_le(self, d):
        """Is d <= 0 implied?"""
        d = self.subst(d)
        if d.op == 'c':
            return d.a[0] <= 0

        T_ = self.truths
        k0, i0 = lin(d)
        D = dict(i0)

        def weak(k, m):
            # k + m <= 0 by constant and signs alone: True; otherwise an atom in the way, or None if the constant is
            for a, n in m.items():
                if n > 0 or n < 0 and not a.nn:
                    return a
            if k > 0:
                for a, n in m.items():
                    if n < 0 and T_.get(mk('eq0', a)) is False:
                        k += n
            return k <= 0 or None

        w = weak(k0, D)
        if w is True:
            return True
        fs = self.les
        if not fs:
            return False

        def fits(f, w, m):
            # facts that can help against what is in the way
            i = lin(f)[1]
            if w is not None:
                n = m[w]
                for a, x in i:
                    if a is w:
                        return x > 0 if n > 0 else x < 0
                return False
            for a, x in i:
                if a in m:
                    return True
            return False
        firsts = []
        for f in fs:
            if not fits(f, w, D):
                continue
            kf, i = lin(f)
            m = dict(D)
            for a, n in i:
                x = m.get(a, 0) - n
                if x:
                    m[a] = x
                else:
                    m.pop(a, None)
            w2 = weak(k0 - kf, m)
            if w2 is True:
                return True
            firsts.append((k0 - kf, m, w2))
        # two facts: chain through a shared atom
        for k1, m1, w1 in firsts:
            for g in fs:
                if not fits(g, w1, m1):
                    continue
                kg, i = lin(g)
                m = dict(m1)
                for a, n in i:
                    x = m.get(a, 0) - n
                    if x:
                        m[a] = x
                    else:
                        m.pop(a, None)
                if weak(k1 - kg, m) is True:
                    return True
        return False

    def decide(self, t):
        """True / False / None for a boolean term."""
        if t.op == 'c':
            return t.a[0] != 0
        if t.op == 'not':
            v = self.decide(t.a[0])
            return None if v is None else not v
        if t in self.truths:
            return self.truths[t]
        if t.op == 'le0':
            if self._implied_le(t.a[0]):
                return True
            if self._implied_le(add(scale(t.a[0], -1), ONE)):
                return False
            return None
        if t.op == 'eq0':
            d = self.subst(t.a[0])
            if d.op == 'c':
                return d.a[0] == 0
            if d is not t.a[0]:
                k, i = lin(d)
                d2 = scale(d, -1) if i and i[0][1] < 0 else d
                t2 = mk('eq0', d2)
                if t2 in self.truths:
                    return self.truths[t2]
            lo = self._implied_le(add(d, ONE))          # d <= -1
            if lo:
                return False
            hi = self._implied_le(add(scale(d, -1), ONE))   # d >= 1
            if hi:
                return False
            if self._implied_le(d) and self._implied_le(scale(d, -1)):
                return True
            # congruence: 2x + 1 == 0 style
            k, i = lin(d)
            if i:
                from math import gcd
                g = 0
                for _, n in i:
                    g = gcd(g, abs(n))
                if g > 1 and k % g:
                    return False
            return None
        if t.op == 'eqv':
            a, b = t.a
            va, vb = self.vals.get(a), self.vals.get(b)
            if va is not None or vb is not None:
                r = eq(va or a, vb or b)
                if r.op == 'c':
                    return r.a[0] != 0
                if r in self.truths:
                    return self.truths[r]
            if NULL in (a, b):
                o = b if a is NULL else a
                if o.op in ('ptr', 'str', 'clo'):
                    return False
            else:
                d = sub(a, b)
                if d.op == 'c':
                    return d.a[0] == 0
                if self._implied_le(add(d, ONE)) or self._implied_le(add(scale(d, -1), ONE)):
                    return False
                if a.op not in ('ptr',) and self.les and self._implied_le(d) and self._implied_le(scale(d, -1)):
                    return True
            return None
        if t.op == 'empty':
            return self.decide(eq(mk_len(t.a[0]), ZERO))
        if self.univ and (t.op in PREDS or t.op == 'eqv'):
            return self._universal(t)
        return None

    def assume(self, t, val):
        """Adds a fact in place; returns False if contradictory."""
        if t.op == 'not':
            return self.assume(t.a[0], not val)
        d = self.decide(t)
        if d is not None:
            return d == val
        if t.op == 'le0':
            x = t.a[0] if val else add(scale(t.a[0], -1), ONE)
            self.les = self.les + (x,)
            self.truths[t] = val
            # equality from two inequalities
            return True
        self.truths[t] = val
        if t.op == 'eq0':
            if val:
                k, i = lin(t.a[0])
                if len(i) == 1:
                    a, n = i[0]
                    if (-k) % n == 0:
                        self.vals[a] = c(-k // n)
                    else:
                        return False
                self.les = self.les + (t.a[0], scale(t.a[0], -1))
            else:
                # sharpen a non-strict bound
                if self._implied_le(t.a[0]):
                    self.les = self.les + (add(t.a[0], ONE),)
                elif self._implied_le(scale(t.a[0], -1)):
                    self.les = self.les + (add(scale(t.a[0], -1), ONE),)
        elif t.op == 'eqv' and val:
            a, b = t.a
            if NULL in (a, b):
                self.vals[b if a is NULL else a] = NULL
            elif b.op in ('str',):
                self.vals[a] = b
            elif a.op in ('str',):
                self.vals[b] = a
            else:
                d = sub(a, b)
                self.les = self.les + (d, scale(d, -1))
        elif t.op == 'eqv' and not val:
            a, b = t.a
            if NULL not in (a, b):
                d = sub(a, b)
                if self._implied_le(d):
                    self.les = self.les + (add(d, ONE),)
                elif self._implied_le(scale(d, -1)):
                    self.les = self.les + (add(scale(d, -1), ONE),)
        elif t.op == 'empty':
            return self.assume(eq(mk_len(t.a[0]), ZERO), val)
        return True


def mk_len(v):
    """Length term of a container/string value."""
    if v.op == 'str':
        return c(len(v.a[0]))
    if v.op == 'push':
        return add(mk_len(v.a[0]), ONE)
    if v.op == 'cat':
        r = ZERO
        for x in v.a:
            r = add(r, mk_len(x))
        return r
    if v.op == 'zero':
        return ZERO
    if v.op == 'ofsize':
        return v.a[0]
    if v.op == 'chr':
        return ONE
    if v.op == 'updp':
        return mk_len(v.a[0])
    if v.op == 'fill':
        return mk_len(v.a[2])
    t = mk('len', v)
    t.nn = True
    return t


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 6:
        return '..'
    o, a = t.op, t.a
    d = depth + 1
    if o == 'c':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'sym':
        return str(a[0])
    if o == 'lin':
        s = ' + '.join(('' if n == 1 else '%d*' % n) + show(x, d) for x, n in a[1])
        return s + (' %s %d' % ('+' if a[0] > 0 else '-', abs(a[0])) if a[0] else '')
    if o == 'eq0':
        return '(%s == 0)' % show(a[0], d)
    if o == 'le0':
        return '(%s <= 0)' % show(a[0], d)
    if o == 'eqv':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if o == 'not':
        return '!' + show(a[0], d)
    if o == 'fld':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'sel':
        return '%s.%s' % (show(a[0], d), a[1])
    if o in ('el', 'at'):
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'var':
        return str(a[2])
    if o == 'glob':
        return str(a[0])
    if o == 'mem':
        return '*' + show(a[0], d)
    if o == 'init':
        return show(a[0], d)
    if o == 'ptr':
        return '&' + show(a[0], d)
    if o == 'obj':
        return 'new%s' % (a[0],)
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


LOCS = {'var', 'glob', 'obj', 'mem', 'fld', 'el', 'this', 'tmp'}


def isloc(t):
    return t.op in LOCS


def root(t):
    while t.op in ('fld', 'el'):
        t = t.a[0]
    return t


def under(t, base):
    """Is location t equal to or inside base?"""
    while True:
        if t is base:
            return True
        if t.op in ('fld', 'el'):
            t = t.a[0]
        else:
            return False
