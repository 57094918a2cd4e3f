"""Abstract interpretation over the bit-dependence domain.

A number is a row of bits, least significant first; each bit is the exclusive or of a set of input bits (and of the constant one).
The empty set is 0, {1} is 1. Anything that cannot be expressed so becomes a fresh unknown bit. Control flow must not depend on
unknown bits: the caller partitions the inputs (by length, or by the position of the highest set bit) so that it does not."""
from .extract import AnalysisError

O = frozenset()
I1 = frozenset((1,))
_n = [0]


class Undecided(AnalysisError):
    pass


class Fault(Exception):
    """The program under analysis does something it must not."""

    def __init__(self, what, line):
        super().__init__(what)
        self.what, self.line = what, line


def fresh():
    _n[0] += 1
    return frozenset(('?%d' % _n[0],))


def const(n, w):
    n &= (1 << w) - 1
    return tuple(I1 if n >> i & 1 else O for i in range(w))


def sym(name, w):
    return tuple(frozenset(((name, i),)) for i in range(w))


def known(b):
    return b is O or not b or b == I1


def value(v):
    """The number, if all bits are constant."""
    r = 0
    for i, b in enumerate(v):
        if b == I1:
            r |= 1 << i
        elif b:
            return None
    return r


def svalue(v, s):
    n = value(v)
    if n is not None and s and v and v[-1] == I1:
        n -= 1 << len(v)
    return n


def b_and(a, b):
    if not a or not b:
        return O
    if a == I1:
        return b
    if b == I1 or a == b:
        return a
    if a ^ b == I1:
        return O
    return fresh()


def b_or(a, b):
    return b_and(a ^ I1, b ^ I1) ^ I1


def maj(a, b, c):
    for x, y, z in ((a, b, c), (a, c, b), (b, c, a)):
        if x == y:
            return x
        if x ^ y == I1:
            return z
    return fresh()


def plus(x, y, c=O):
    r = []
    for a, b in zip(x, y):
        r.append(a ^ b ^ c)
        c = maj(a, b, c)
    return tuple(r)


def inv(x):
    return tuple(b ^ I1 for b in x)


def resize(v, w, s):
    if len(v) >= w:
        return v[:w]
    return v + (v[-1] if s and v else O,) * (w - len(v))


def less(x, y, s):
    """x < y, or None."""
    a, b = svalue(x, s), svalue(y, s)
    if a is not None and b is not None:
        return a < b
    w = len(x)
    if s:
        x, y = x[:-1] + (x[-1] ^ I1,), y[:-1] + (y[-1] ^ I1,)
    # highest differing bit decides, if every bit above it is known to be equal
    for p, q in zip(reversed(x), reversed(y)):
        if p == q:
            continue
        if p ^ q == I1 and known(p):
            return not p
        break
    # bounds
    lo = lambda v: sum(1 << i for i, t in enumerate(v) if t == I1)
    hi = lambda v: sum(1 << i for i, t in enumerate(v) if t)
    if hi(x) < lo(y):
        return True
    if lo(x) >= hi(y):
        return False
    return None


def equal(x, y):
    if x == y:
        return True
    for a, b in zip(x, y):
        if a ^ b == I1:
            return False
    return None


class Cell:
    __slots__ = ('v', 'arr')

    def __init__(self, v=None):
        self.v = v

    def get(self, line):
        if self.v is None:
            raise Fault('a value is read before it was set', line)
        return self.v

    def set(self, v):
        self.v = v


class ByteCell:
    """One byte of a scalar variable seen through a pointer to bytes."""
    __slots__ = ('cell', 'i')

    def __init__(self, cell, i):
        self.cell, self.i = cell, i

    def get(self, line):
        return self.cell.get(line)[8 * self.i:8 * self.i + 8]

    def set(self, v):
        o = self.cell.v
        self.cell.v = o[:8 * self.i] + v[:8] + o[8 * self.i + 8:]


class Arr:
    def __init__(self, cells, name=''):
        self.cells = cells
        self.name = name

    def at(self, i, line):
        if i is None:
            raise Undecided('an index is not known at line %s' % line)
        if not 0 <= i < len(self.cells):
            raise Fault('element %d of %d is used' % (i, len(self.cells)), line)
        return self.cells[i]


class Ptr:
    __slots__ = ('arr', 'off')

    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off


class Rec:
    def __init__(self, f=None):
        self.f = f or {}


class Closure:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Raised(Exception):
    def __init__(self, t):
        self.t = t


def array(vals, name=''):
    return Arr([Cell(v) for v in vals], name)


class Bits:
    """The bit-dependence domain."""
    num = staticmethod(lambda v: isinstance(v, tuple))
    const = staticmethod(const)

    def conc(self, v, s):
        return svalue(v, s)

    def resize(self, v, frm, to):
        return resize(v, width(to), frm.s if frm is not None else False)

    def neg(self, v, t):
        return plus(inv(v), const(1, len(v)))

    def inv(self, v, t):
        return inv(v)

    def add1(self, v, n, t):
        return plus(v, const(n, len(v)))

    def nonzero(self, v):
        r = equal(v, const(0, len(v)))
        if r is None:
            return True if any(b == I1 for b in v) else None
        return not r

    def unknown(self, w):
        return (fresh(),) + (O,) * (w - 1)

    def compare(self, op, a, b, s):
        r = {'==': lambda: equal(a, b), '!=': lambda: equal(a, b), '<': lambda: less(a, b, s), '>=': lambda: less(a, b, s),
             '>': lambda: less(b, a, s), '<=': lambda: less(b, a, s)}[op]()
        return None if r is None else (not r if op in ('!=', '>=', '<=') else r)

    def part(self, v, i):
        return v[8 * i:8 * i + 8]

    def patch(self, o, i, v):
        return o[:8 * i] + v[:8] + o[8 * i + 8:]

    def arith(self, op, a, b, t, e, bs):
        w = len(a)
        if op == '+':
            return plus(a, b)
        if op == '-':
            return plus(a, inv(b), I1)
        if op in ('&', '|', '^'):
            f = {'&': b_and, '|': b_or, '^': lambda x, y: x ^ y}[op]
            return tuple(f(x, y) for x, y in zip(a, b))
        if op in ('<<', '>>'):
            n = svalue(b, bs)
            if n is None:
                return tuple(fresh() for _ in a)
            if not 0 <= n < w:
                raise Fault('a value of %d bits is shifted by %d' % (w, n), e['l'])
            if op == '<<':
                return (O,) * n + a[:w - n]
            return a[n:] + (a[-1] if t.s else O,) * n
        x, y = svalue(a, t.s), svalue(b, t.s)
        if op in ('/', '%'):
            if y == 0:
                raise Fault('division by zero', e['l'])
            if x is not None and y is not None:
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return const(q if op == '/' else x - q * y, w)
            if y is not None and y > 0 and y & (y - 1) == 0 and not t.s:
                n = y.bit_length() - 1
                return a[n:] + (O,) * n if op == '/' else a[:n] + (O,) * (w - n)
        if op == '*':
            if x is not None and y is not None:
                return const(x * y, w)
            if x is not None:
                a, b, x, y = b, a, y, x
            if y is not None and y >= 0:
                r = const(0, w)
                for i in range(w):
                    if y >> i & 1:
                        r = plus(r, (O,) * i + a[:w - i])
                return r
        return tuple(fresh() for _ in range(w))


def width(t):
    return t.w or (8 if t.c == 'bool' else 32)


class Interp:
    Domain = Bits

    def __init__(self, prog, fuel=200000, extern=None, domain=None):
        self.D = domain or self.Domain()
        self.P, self.fuel, self.extern = prog, fuel, extern
        self.fns = set()

    # ---- entry
    def run(self, fn, args):
        self.steps = 0
        self.depth = 0
        return self.call(fn, [a if hasattr(a, 'get') else Cell(a) for a in args])

    def call(self, fn, cells, this=None):
        self.fns.add(fn)
        self.depth += 1
        if self.depth > 60:
            raise Fault('the recursion does not end', fn.line)
        env = {'this': this}
        for p, cl in zip(fn.params, cells):
            if p['t'].c == 'ref':
                env[p['id']] = cl
            else:
                v = cl.get(fn.line)
                env[p['id']] = Cell(self.fit(self.copy(v), p['t']))
        for i in fn.d.get('inits') or ():
            if i.get('fld') and i.get('e') is not None:
                v = self.ev(i['e'], env)
                r = this.f.setdefault(i['fld'], Cell())
                rec = self.P.records.get(fn.d.get('cls') or fn.cq)
                ft = next((x['t'] for x in rec['fields'] if x['n'] == i['fld']), None) if rec is not None else None
                r.set(self.fit(self.copy(v), ft))
        try:
            self.ex(fn.body, env)
            r = None
        except Ret as x:
            r = x.v
        self.depth -= 1
        return r

    def fit(self, v, t):
        if self.D.num(v) and t is not None and t.isint and t.w:
            return self.D.resize(v, None, t)
        return v

    def w(self, t):
        return width(t)

    # ---- statements
    def ex(self, n, env):
        if n is None:
            return
        self.steps += 1
        if self.steps > self.fuel:
            raise Fault('the loop does not end', n.get('l', 0))
        k = n['k']
        if k == 'block':
            for s in n['b']:
                self.ex(s, env)
        elif k == 'expr':
            self.ev(n['e'], env)
        elif k == 'decl':
            for v in n['vars']:
                self.declare(v, env)
        elif k == 'if':
            if n.get('init'):
                self.ex(n['init'], env)
            if n.get('var'):
                self.declare(n['var'], env)
            if self.test(n['c'], env):
                self.ex(n['a'], env)
            elif n.get('b'):
                self.ex(n['b'], env)
        elif k in ('while', 'for', 'do'):
            if n.get('init'):
                self.ex(n['init'], env)
            first = k == 'do'
            while True:
                self.steps += 1
                if self.steps > self.fuel:
                    raise Fault('the loop does not end', n['l'])
                if not first and n.get('c') and not self.test(n['c'], env):
                    break
                first = False
                try:
                    self.ex(n['b'], env)
                except Brk:
                    break
                except Cnt:
                    pass
                if k == 'for' and n.get('inc'):
                    self.ev(n['inc'], env)
        elif k == 'range':
            r = self.ev(n['r'], env)
            arr = r.arr if isinstance(r, Ptr) else r
            if not hasattr(arr, 'cells'):
                raise Undecided('range loop over an unknown value at line %s' % n['l'])
            for cl in list(arr.cells):
                env[n['var']['id']] = cl if n['var']['t'].c == 'ref' else Cell(self.copy(cl.get(n['l'])))
                if n['var'].get('binds'):
                    self.bind(n['var'], env[n['var']['id']].get(n['l']), env, n['l'])
                try:
                    self.ex(n['b'], env)
                except Brk:
                    break
                except Cnt:
                    pass
        elif k == 'return':
            raise Ret(self.ev(n['e'], env) if n.get('e') else None)
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cnt()
        elif k == 'null':
            pass
        elif k == 'case' or k == 'default':
            self.ex(n.get('s'), env)
        elif k == 'switch':
            self.switch(n, env)
        else:
            raise Undecided('statement %s at line %s' % (k, n.get('l')))

    def switch(self, n, env):
        x = self.ev(n['c'], env)
        ct = n['c']['t']
        v = self.D.conc(x, ct.s) if self.D.num(x) else None
        flat = []

        def unwrap(s):
            labels = []
            while s is not None and s['k'] in ('case', 'default'):
                c = s.get('v')
                labels.append('default' if s['k'] == 'default' else int(c['cv']) if isinstance(c, dict) else c)
                s = s.get('s') or s.get('b')
            flat.append((labels, s))
        for s in n['b']['b']:
            unwrap(s)
        if v is None and self.D.num(x):
            v = next((c for l, s in flat for c in l if c != 'default' and self.cmp('==', x, self.D.const(c, self.w(ct)), ct.s, n)), 'none')
        if v is None:
            raise Undecided('switch at line %s' % n['l'])
        start = next((i for i, (l, s) in enumerate(flat) if v in l), None)
        if start is None:
            start = next((i for i, (l, s) in enumerate(flat) if 'default' in l), None)
        if start is None:
            return
        try:
            for l, s in flat[start:]:
                self.ex(s, env)
        except Brk:
            pass

    def declare(self, v, env):
        t = v['t']
        if t.c == 'ref':
            env[v['id']] = self.lv(v['init'], env)
        elif v.get('init') is None:
            env[v['id']] = Cell(self.blank(t))
        else:
            env[v['id']] = Cell(self.fit(self.copy(self.ev(v['init'], env)), t))
        if v.get('binds'):
            self.bind(v, env[v['id']].get(v['init']['l']), env, v['init'].get('l'))

    def bind(self, v, o, env, line):
        if isinstance(o, Arr):
            cells = o.cells
        elif isinstance(o, Rec):
            cells = [o.f[k] for k in ('first', 'second')] if set(o.f) == {'first', 'second'} else [o.f[k] for k in self.fields(v['t'], o)]
        else:
            raise Undecided('structured binding of an unknown object at line %s' % line)
        for b in v['binds']:
            env[b['id']] = cells[b['ix']]

    def fields(self, t, o):
        return sorted(o.f) if all(isinstance(k, int) for k in o.f) else list(o.f)

    def capture(self, c, env):
        if 'id' not in c:
            return None
        if c.get('init') is not None:
            return Cell(self.copy(self.ev(c['init'], env)))
        return env[c['id']] if c.get('ref') else Cell(self.copy(env[c['id']].v))

    def invoke(self, f, args, e, env):
        n = f.node
        self.depth += 1
        if self.depth > 60:
            raise Fault('the recursion does not end', e['l'])
        new = {k: v for k, v in f.env.items() if v is not None}
        new['this'] = f.this
        for p, a in zip(n['params'], args):
            new[p['id']] = self.lv(a, env) if p['t'].c == 'ref' else Cell(self.fit(self.copy(self.ev(a, env)), p['t']))
        try:
            self.ex(n['body'], new)
            r = None
        except Ret as x:
            r = self.fit(x.v, n['rt'])
        self.depth -= 1
        return r

    def copy(self, v):
        """A record is copied by value."""
        if isinstance(v, Rec):
            return Rec({k: Cell(self.copy(c.v)) for k, c in v.f.items()})
        if isinstance(v, Arr):
            return Arr([Cell(self.copy(c.v)) for c in v.cells], v.name)
        return v

    def blank(self, t):
        if t.c == 'arr':
            return array([None] * (t.len or 0))
        return Rec() if t.c == 'rec' else None

    def test(self, e, env):
        v = self.ev(e, env)
        if self.D.num(v):
            r = self.D.nonzero(v)
            if r is None:
                r = self.choose(v, e)
            if r is not None:
                return r
        elif isinstance(v, Ptr):
            return True
        elif v is None:
            return False
        raise Undecided('a condition at line %s depends on unknown values' % e.get('l'))

    script = None
    LIMIT = 256

    def every(self, go, first=None):
        """go(self) for every combination of outcomes of the conditions the domain cannot decide (of the first so many, if limited)."""
        todo, out = [()], []
        while todo:
            self.script, self.trail = todo.pop(), []
            self.steps = self.depth = 0
            out.append(go(self))
            if len(out) > self.LIMIT:
                raise Undecided('too many combinations of undecided conditions')
            for i in range(len(self.script), len(self.trail) if first is None else min(first, len(self.trail))):
                todo.append(tuple(self.trail[:i]) + (not self.trail[i],))
        return out

    def choose(self, v, e):
        if self.script is None:
            return None
        i = len(self.trail)
        r = self.script[i] if i < len(self.script) else True
        self.trail.append(r)
        return r

    def int(self, e, env):
        v = self.ev(e, env)
        return self.D.conc(v, e['t'].s) if self.D.num(v) else None

    # ---- lvalues
    def lv(self, e, env):
        k = e['k']
        if k == 'ref':
            if e['id'] in env if 'id' in e else False:
                return env[e['id']]
            return self.outer(e)
        if k == 'idx':
            b = self.ev(e['b'], env)
            i = self.int(e['i'], env)
            return self.at(b, i, e)
        if k == 'un' and e['op'] == '*':
            return self.at(self.ev(e['e'], env), 0, e)
        if k == 'un' and e['op'] in ('++', '--'):
            self.bump(e, env)
            return self.lv(e['e'], env)
        if k == 'mem':
            b = env['this'] if e['b']['k'] == 'this' else self.ev(e['b'], env)
            if isinstance(b, Ptr):
                b = b.arr.at(b.off, e['l']).get(e['l'])
            if isinstance(b, Rec):
                return b.f.setdefault(e['n'], Cell())
        if k == 'call':
            if e.get('op') == '[]' or e.get('n') in ('at', 'operator[]'):
                b = self.ev(e['obj'], env)
                i = self.int(e['args'][0], env)
                return self.at(b, i, e)
            if e.get('op') == '*' and e.get('obj'):
                return self.at(self.ev(e['obj'], env), 0, e)
        if k == 'bin' and e['op'].endswith('='):
            self.ev(e, env)
            return self.lv(e['a'], env)
        if k in ('cast', 'paren', 'upcast'):
            return self.lv(e['e'], env)
        return Cell(self.ev(e, env))

    def outer(self, e):
        raise Undecided('variable %s at line %s' % (e.get('n'), e.get('l')))

    def at(self, b, i, e):
        if i is None:
            raise Undecided('an index is not known at line %s' % e.get('l'))
        if isinstance(b, Arr):
            b = Ptr(b)
        if isinstance(b, Ptr):
            return b.arr.at(b.off + i, e['l'])
        raise Undecided('index into an unknown object at line %s' % e.get('l'))

    def bump(self, e, env):
        cl = self.lv(e['e'], env)
        o = cl.get(e['l'])
        up = e['op'] in ('++', 'p++')
        if isinstance(o, Ptr):
            n = Ptr(o.arr, o.off + (1 if up else -1))
        else:
            n = self.D.add1(o, 1 if up else -1, e['t'])
        cl.set(n)
        return o, n

    # ---- expressions
    def ev(self, e, env):
        self.steps += 1
        k = e['k']
        t = e.get('t')
        if e.get('cv') is not None and t is not None and t.isint and k != 'call':
            return self.D.const(int(e['cv']), self.w(t))
        if k == 'ref' or k == 'idx' or k == 'mem':
            return self.lv(e, env).get(e['l'])
        if k == 'null':
            return None
        if k == 'this':
            return env['this']
        if k in ('paren', 'upcast'):
            return self.ev(e['e'], env)
        if k == 'cast':
            return self.cast(e, env)
        if k == 'un':
            return self.un(e, env)
        if k == 'bin':
            return self.bin(e, env)
        if k == 'cond':
            return self.ev(e['a'] if self.test(e['c'], env) else e['b'], env)
        if k == 'init':
            if t.c == 'arr':
                vs = [self.ev(x, env) for x in e['elems']]
                return array(vs + [self.D.const(0, self.w(t.p))] * ((t.len or 0) - len(vs)) if t.p is not None and t.p.isint else vs)
            if e.get('fields') is not None:
                return Rec({f: Cell(self.ev(x, env)) for f, x in zip(e['fields'], e['elems'])})
            if len(e['elems']) == 1:
                return self.ev(e['elems'][0], env)
            return self.D.const(0, self.w(t))
        if k == 'zero':
            return self.D.const(0, self.w(t)) if t.isint else None
        if k == 'ctor':
            return self.ctor(e, env)
        if k == 'call':
            return self.docall(e, env)
        if k == 'lambda':
            return Closure(e, {c['id'] if 'id' in c else 'this': self.capture(c, env) for c in e['caps']}, env['this'])
        if k == 'throw':
            raise Raised(e['e']['t'] if e.get('e') else None)
        raise Undecided('expression %s at line %s' % (k, e.get('l')))

    def cast(self, e, env):
        t, f = e['t'], e['e']['t']
        ck = e['ck']
        if ck in ('BitCast', 'LValueBitCast') and t.c == 'ptr':
            p = self.ev(e['e'], env)
            if t.p is not None and f.p is not None and t.p.isint and f.p.isint and isinstance(p, Ptr) and self.w(t.p) != self.w(f.p):
                if self.w(t.p) != 8:
                    raise Undecided('pointer cast at line %s' % e['l'])
                k = self.w(f.p) // 8
                cells = [ByteCell(cl, i) for cl in p.arr.cells[p.off:] for i in range(k)]
                return Ptr(Arr(cells, p.arr.name))
            return p
        v = self.ev(e['e'], env)
        if not self.D.num(v) or t is None:
            return v
        if ck == 'IntegralToBoolean':
            r = self.D.nonzero(v)
            if r is None:
                return self.truth(v, t)
            return self.D.const(1 if r else 0, self.w(t))
        if t.isint:
            return self.D.resize(v, f, t)
        if ck in ('NoOp', 'LValueToRValue', 'ToVoid'):
            return v
        raise Undecided('cast %s at line %s' % (ck, e['l']))

    def un(self, e, env):
        op = e['op']
        if op in ('++', '--'):
            return self.bump(e, env)[1]
        if op in ('p++', 'p--'):
            return self.bump(e, env)[0]
        if op == '&':
            cl = self.lv(e['e'], env)
            if e['e']['k'] in ('idx',) or e['e']['k'] == 'call':
                b = e['e']
                base = self.ev(b['b'] if b['k'] == 'idx' else b['obj'], env)
                i = self.int(b['i'] if b['k'] == 'idx' else b['args'][0], env)
                base = base if isinstance(base, Ptr) else Ptr(base)
                return Ptr(base.arr, base.off + i)
            return Ptr(Arr([cl]))
        if op == '*':
            return self.lv(e, env).get(e['l'])
        if op == '!':
            return self.D.const(0 if self.test(e['e'], env) else 1, self.w(e['t']))
        v = self.ev(e['e'], env)
        if op == '~':
            return self.D.inv(v, e['t'])
        if op == '-':
            return self.D.neg(v, e['t'])
        if op == '+':
            return v
        raise Undecided('operator %s at line %s' % (op, e['l']))

    def bin(self, e, env):
        op = e['op']
        if op == ',':
            self.ev(e['a'], env)
            return self.ev(e['b'], env)
        if op == '=':
            v = self.ev(e['b'], env)
            cl = self.lv(e['a'], env)
            v = self.fit(v, e['a']['t'])
            cl.set(v)
            return v
        if op in ('&&', '||'):
            a = self.test(e['a'], env)
            if op == '&&':
                return self.D.const(1 if a and self.test(e['b'], env) else 0, self.w(e['t']))
            return self.D.const(1 if a or self.test(e['b'], env) else 0, self.w(e['t']))
        if op[-1] == '=' and op not in ('==', '!=', '<=', '>='):
            b = self.ev(e['b'], env)
            cl = self.lv(e['a'], env)
            o = cl.get(e['l'])
            ct = e.get('clt') or e['a']['t']
            rt = e.get('crt') or ct
            if isinstance(o, Ptr):
                n = self.D.conc(b, e['b']['t'].s)
                v = Ptr(o.arr, o.off + (n if op == '+=' else -n))
            else:
                x = self.D.resize(o, e['a']['t'], ct)
                y = b if op in ('<<=', '>>=') else self.D.resize(b, e['b']['t'], ct)
                v = self.D.resize(self.D.arith(op[:-1], x, y, ct, e, e['b']['t'].s), ct, e['a']['t'])
            cl.set(v)
            return v
        a, b = self.ev(e['a'], env), self.ev(e['b'], env)
        if isinstance(a, Arr):
            a = Ptr(a)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.arr is b.arr:
                d = a.off - b.off
                if op == '-':
                    return self.D.const(d, 64)
                r = {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
                return self.D.const(r, self.w(e['t']))
            if op in '+-' and isinstance(a, Ptr):
                n = self.D.conc(b, e['b']['t'].s)
                if n is not None:
                    return Ptr(a.arr, a.off + (n if op == '+' else -n))
            if op == '+' and isinstance(b, Ptr):
                n = self.D.conc(a, e['a']['t'].s)
                if n is not None:
                    return Ptr(b.arr, b.off + n)
            raise Undecided('pointer arithmetic at line %s' % e['l'])
        s = e['a']['t'].s
        if op in ('==', '!=', '<', '<=', '>', '>='):
            r = self.D.compare(op, a, b, s)
            if r is None:
                return self.related(op, a, b, e)
            return self.D.const(1 if r else 0, self.w(e['t']))
        return self.D.arith(op, a, b, e['t'], e, e['b']['t'].s)

    def truth(self, v, t):
        return self.D.unknown(self.w(t))

    def related(self, op, a, b, e):
        return self.D.unknown(self.w(e['t']) if e['t'] is not None else 8)

    # ---- calls
    def ctor(self, e, env):
        cls = e.get('cls') or ''
        if cls.startswith('rainman::ptr<'):
            if len(e['args']) == 1 and e['args'][0]['t'].isint:
                n = self.int(e['args'][0], env)
                if n is None:
                    raise Undecided('allocation of unknown size at line %s' % e['l'])
                return Ptr(array([None] * n, 'allocated'))
            if not e['args']:
                return None
        if cls.startswith('std::pair<') and len(e['args']) == 2:
            ts = e['t'].targs
            return Rec({k: Cell(self.fit(self.copy(self.ev(a, env)), t)) for k, a, t in zip(('first', 'second'), e['args'], ts)})
        f = self.P.fns.get(e.get('fn'))
        if f is not None and f.body is not None and not e.get('copy'):
            return self.construct(f, [self.lv(a, env) if p['t'].c == 'ref' else Cell(self.ev(a, env)) for a, p in zip(e['args'], f.params)])
        if len(e['args']) == 1:
            return self.copy(self.ev(e['args'][0], env))
        if cls.startswith('std::vector<') and e['args']:
            n = self.int(e['args'][0], env)
            if n is not None:
                return Ptr(array([self.D.const(0, self.w(t)) if (t := e['t'].targs[0]).isint else None] * n))
        return Rec()

    def construct(self, f, cells):
        r = Rec()
        self.call(f, cells, r)
        return r

    def docall(self, e, env):
        q, n = e.get('q') or '', e.get('n') or ''
        if e.get('op') == '[]' or e.get('op') == '*' and e.get('obj'):
            return self.lv(e, env).get(e['l'])
        if self.extern is not None:
            r = self.extern(self, e, q, env)
            if r is not None:
                return r[0]
        if e.get('op') == '()' or e.get('clo') or (e.get('obj') is not None and n == 'operator()'):
            f = self.ev(e['obj'], env)
            if isinstance(f, Closure):
                return self.invoke(f, e['args'], e, env)
            if callable(f):
                return self.fit(f(*[self.ev(a, env) for a in e['args']]), e.get('t'))
        if e.get('op') == '=' and e.get('obj'):
            v = self.ev(e['args'][0], env)
            self.lv(e['obj'], env).set(v)
            return v
        if e.get('obj') is not None and n in ('size', 'length', 'pointer', 'data', 'c_str', 'get'):
            o = self.ev(e['obj'], env)
            if isinstance(o, Arr):
                o = Ptr(o)
            if isinstance(o, Ptr):
                return self.D.const(len(o.arr.cells) - o.off, 64) if n in ('size', 'length') else o
        r = self.std(q, e, env)
        if r is not None:
            return r[0]
        f = self.P.fns.get(e.get('fn'))
        if f is not None and f.body is not None:
            args = [self.lv(a, env) if p['t'].c == 'ref' else Cell(self.ev(a, env)) for a, p in zip(e['args'], f.params)]
            this = self.ev(e['obj'], env) if e.get('obj') is not None else None
            return self.call(f, args, this)
        raise Undecided('call of %s at line %s' % (q, e['l']))

    def std(self, q, e, env):
        """Small library functions; None if q is not one of them."""
        if not q.startswith('std::'):
            return None
        n, a = q[5:], e['args']
        if n in ('move', 'forward', 'as_const') and len(a) == 1:
            return self.ev(a[0], env),
        if n == 'make_pair':
            ts = e['t'].targs
            return Rec({k: Cell(self.fit(self.copy(self.ev(x, env)), t)) for k, x, t in zip(('first', 'second'), a, ts)}),
        if n in ('min', 'max') and len(a) == 2:
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if self.D.num(x) and self.D.num(y):
                less = self.cmp('<', y if n == 'min' else x, x if n == 'min' else y, a[0]['t'].s, e)
                return (y if less else x),
        if n in ('swap', 'exchange') and len(a) == 2:
            p, q = self.lv(a[0], env), self.lv(a[1], env)
            x, y = p.get(e['l']), q.get(e['l'])
            p.set(y)
            if n == 'swap':
                q.set(x)
                return None,
            return x,
        return None

    def cmp(self, op, a, b, s, e):
        r = self.D.compare(op, a, b, s)
        if r is None:
            v = self.related(op, a, b, dict(e, t=None))
            r = self.D.nonzero(v)
            r = self.choose(v, e) if r is None else r
        if r is None:
            raise Undecided('a comparison at line %s depends on unknown values' % e.get('l'))
        return r
