"""Structured, disjunctive dataflow over function bodies: states carry a set of tracked facts chosen by the client and the truth of
pure conditions, so that tests repeated on one path (flags, guards) agree with each other."""
from .engine import signature
from .prog import walk

CAP = 40


class S:
    __slots__ = ('un', 'facts')

    def __init__(self, un=frozenset(), facts=None):
        self.un, self.facts = un, facts or {}

    def copy(self):
        return S(self.un, dict(self.facts))

    def key(self):
        return (self.un, frozenset((k, v[0]) for k, v in self.facts.items()))


def dedupe(ss):
    r, seen = [], set()
    for s in ss:
        k = s.key()
        if k not in seen:
            seen.add(k)
            r.append(s)
    if len(r) > CAP:
        by = {}
        for s in r:
            o = by.get(s.un)
            if o is None:
                by[s.un] = s.copy()
            else:
                o.facts = {k: v for k, v in o.facts.items() if s.facts.get(k) == v}
        r = list(by.values())
        if len(r) > CAP:
            m = r[0].copy()
            for s in r[1:]:
                m.un = m.un | s.un
                m.facts = {k: v for k, v in m.facts.items() if s.facts.get(k) == v}
            r = [m]
    return r


class Out:
    def __init__(self, normal=()):
        self.n, self.brk, self.cont, self.ret, self.thr = list(normal), [], [], [], []

    def absorb(self, o, loop=False):
        if not loop:
            self.brk += o.brk
            self.cont += o.cont
        self.ret += o.ret
        self.thr += o.thr


ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
MEM = 'mem'


class Flow:
    """Walks one body. Subclasses override the hooks read/wrote/called/declared/returned/escaped."""

    def __init__(self, p, noreturn=()):
        self.p = p
        self.noreturn = noreturn
        self.alias = {}
        self.trys = []

    # ---- hooks -----------------------------------------------------------
    def read(self, st, place, e):
        pass

    def wrote(self, st, place, e, value):
        pass

    def called(self, st, e, args, obj):
        """args: list of (node, mode, place); returns False when the call never returns."""
        return True

    def declared(self, st, v):
        pass

    def returned(self, st, e, node):
        pass

    def escaped(self, st, place, e):
        pass

    def leave(self, st, ids):
        pass

    # ---- places and pure conditions --------------------------------------
    def place(self, e):
        k = e.get('k') if e else None
        if k == 'ref' and 'id' in e and e.get('d') != 'fn':
            a = self.alias.get(e['id'])
            return a if a else (e['id'],)
        if k == 'ref' and e.get('d') == 'global':
            return ('g:' + e['q'],)
        if k == 'mem':
            b = e.get('b')
            if b is None:
                return None
            if b.get('k') == 'this':
                return ('this', e['n'])
            if e.get('arrow'):
                return None
            p = self.place(b)
            return p + (e['n'],) if p else None
        if k in ('upcast',) or (k == 'cast' and e.get('lv')):
            return self.place(e['e'])
        if k == 'idx':
            b = e['b']
            while b.get('k') == 'cast' and not b.get('lv'):
                b = b['e']
            p = self.place(b)
            if p is None:
                return None
            return p if p[-1] == '[]' else p + ('[]',) if b.get('k') in ('ref', 'mem') else None
        if k == 'un' and e.get('op') == '*' and e['e'].get('k') == 'this':
            return ('this',)
        return None

    def canon(self, e):
        """(text, roots) of a pure expression."""
        if e is None:
            return None
        k = e.get('k')
        if e.get('cv') is not None:
            return '#%s' % e['cv'], frozenset()
        pl = self.place(e) if k in ('ref', 'mem') else None
        if pl is not None and '[]' not in pl:
            return '.'.join(map(str, pl)), frozenset([pl[0]])
        if k == 'this':
            return 'this', frozenset()
        if k == 'mem':
            b = self.canon(e['b'])
            return b and ('%s->%s' % (b[0], e['n']), b[1] | {MEM})
        if k == 'un' and e['op'] in ('!', '-', '~', '*', '&'):
            b = self.canon(e['e'])
            return b and (e['op'] + b[0], b[1] | ({MEM} if e['op'] == '*' else set()))
        if k == 'bin' and e['op'] not in ASSIGN and e['op'] != ',':
            a, b = self.canon(e['a']), self.canon(e['b'])
            return a and b and ('(%s%s%s)' % (a[0], e['op'], b[0]), a[1] | b[1])
        if k in ('cast', 'upcast'):
            return self.canon(e['e'])
        if k == 'idx':
            a, b = self.canon(e['b']), self.canon(e['i'])
            return a and b and ('%s[%s]' % (a[0], b[0]), a[1] | b[1] | {MEM})
        if k == 'call' and e.get('cmeth') and e.get('obj') and all(self.canon(x) for x in e.get('args', [])):
            a = self.canon(e['obj'])
            if a is None:
                return None
            xs = [self.canon(x) for x in e.get('args', [])]
            return '%s.%s(%s)' % (a[0], e['n'], ','.join(x[0] for x in xs)), frozenset().union(a[1], {MEM}, *[x[1] for x in xs])
        return None

    def value(self, e, st):
        if e is None:
            return None
        if e.get('cv') is not None:
            return int(e['cv'])
        k = e.get('k')
        c = self.canon(e)
        if c and c[0] in st.facts:
            return st.facts[c[0]][0]
        if k in ('cast', 'upcast'):
            return self.value(e['e'], st)
        if k == 'un' and e['op'] == '!':
            v = self.value(e['e'], st)
            return None if v is None else int(not v)
        if k == 'bin':
            a, b, op = self.value(e['a'], st), self.value(e['b'], st), e['op']
            if op == '&&':
                return 0 if a == 0 or b == 0 else 1 if a and b else None
            if op == '||':
                return 1 if a or b else 0 if a == 0 and b == 0 else None
            if a is None or b is None:
                return None
            return {'==': int(a == b), '!=': int(a != b), '<': int(a < b), '>': int(a > b), '<=': int(a <= b), '>=': int(a >= b)}.get(op)
        return None

    def learn(self, e, truth, st):
        c = self.canon(e)
        if c and e.get('cv') is None and c[1]:
            st.facts[c[0]] = (int(truth), c[1])
        k = e.get('k')
        if k == 'un' and e['op'] == '!':
            self.learn(e['e'], not truth, st)
        if k in ('cast',) and c:
            self.learn(e['e'], truth, st)
        if k == 'bin' and (e['op'] == '==' and truth or e['op'] == '!=' and not truth):
            for a, b in ((e['a'], e['b']), (e['b'], e['a'])):
                ca, vb = self.canon(a), self.value(b, st)
                if ca and vb is not None and a.get('cv') is None and ca[1]:
                    st.facts[ca[0]] = (vb, ca[1])

    def forget(self, st, root):
        for k in [k for k, v in st.facts.items() if root in v[1]]:
            del st.facts[k]

    def forget_mem(self, st):
        for k in [k for k, v in st.facts.items() if MEM in v[1] or any(isinstance(r, str) for r in v[1])]:
            del st.facts[k]

    # ---- expressions -----------------------------------------------------
    def cond(self, e, st):
        """(states where e holds, states where it does not)"""
        if e is None:
            return [st], []
        k = e.get('k')
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], st)
            return f, t
        if k == 'bin' and e['op'] in ('&&', '||'):
            t, f = self.cond(e['a'], st)
            if e['op'] == '&&':
                ts, fs = [], list(f)
                for s in t:
                    a, b = self.cond(e['b'], s)
                    ts += a
                    fs += b
            else:
                ts, fs = list(t), []
                for s in f:
                    a, b = self.cond(e['b'], s)
                    ts += a
                    fs += b
            return dedupe(ts), dedupe(fs)
        ts, fs = [], []
        for s in self.expr(e, [st]):
            v = self.value(e, s)
            if v is None or v:
                a = s.copy()
                self.learn(e, True, a)
                ts.append(a)
            if v is None or not v:
                a = s.copy()
                self.learn(e, False, a)
                fs.append(a)
        return ts, fs

    def expr(self, e, sts, rd=True):
        if e is None or not sts:
            return sts
        k = e.get('k')
        if k == 'bin' and e['op'] in ('&&', '||') or k == 'cond':
            r = []
            for st in sts:
                if k == 'cond':
                    t, f = self.cond(e['c'], st)
                    r += self.expr(e['a'], t, rd) + self.expr(e['b'], f, rd)
                else:
                    t, f = self.cond(e, st)
                    r += t + f
            return dedupe(r)
        if k in ('ref', 'mem'):
            pl = self.place(e)
            if k == 'mem' and pl is None:
                sts = self.expr(e['b'], sts, rd=bool(e.get('arrow')))
            if pl is not None and rd and 'fn' not in e:
                for st in sts:
                    self.read(st, pl, e)
            return sts
        if k == 'idx':
            b = e['b']
            while b.get('k') == 'cast' and not b.get('lv'):
                b = b['e']
            sts = self.expr(b, sts, rd=b.get('t') is None or b['t'].c != 'arr')
            sts = self.expr(e['i'], sts)
            pl = self.place(e)
            if pl is not None and rd:
                for st in sts:
                    self.read(st, pl, e)
            return sts
        if k == 'bin' and e['op'] in ASSIGN:
            sts = self.expr(e['b'], sts)
            pl = self.place(e['a'])
            if e['a'].get('k') == 'idx':
                sts = self.expr(e['a'], sts, rd=False)
            elif pl is None:
                sts = self.expr(e['a'], sts, rd=False)
            for st in sts:
                if e['op'] != '=' and pl is not None:
                    self.read(st, pl, e['a'])
                self.assign(st, pl, e, e['b'] if e['op'] == '=' else None)
            return sts
        if k == 'un' and e['op'] in ('++', '--', 'p++', 'p--'):
            pl = self.place(e['e'])
            if pl is None or e['e'].get('k') == 'idx':
                sts = self.expr(e['e'], sts, rd=False)
            for st in sts:
                if pl is not None:
                    self.read(st, pl, e['e'])
                self.assign(st, pl, e, None)
            return sts
        if k == 'un' and e['op'] == '&':
            pl = self.place(e['e'])
            if pl is None or e['e'].get('k') == 'idx':
                sts = self.expr(e['e'], sts, rd=False)
            if pl is None:
                return sts
            for st in sts:
                self.escaped(st, pl, e)
                self.forget(st, pl[0])
            return sts
        if k == 'call':
            return self.call(e, sts)
        if k == 'ctor':
            return self.call(e, sts)
        if k == 'lambda':
            for c in e.get('caps', []):
                pl = (c['id'],) if 'id' in c else None
                for st in sts:
                    if pl:
                        if c.get('ref') or c.get('byref'):
                            self.escaped(st, self.alias.get(c['id'], pl), e)
                            self.forget(st, pl[0])
                        else:
                            self.read(st, self.alias.get(c['id'], pl), e)
            return sts
        if k == 'throw':
            sts = self.expr(e.get('e'), sts)
            self.raised(sts)
            self._thr += [s.copy() for s in sts]
            return []
        if k in ('sizeof', 'lit', 'str', 'this', 'flt', 'zero'):
            return sts
        for x in ('e', 'a', 'b', 'i', 'init'):
            v = e.get(x)
            if isinstance(v, dict):
                sts = self.expr(v, sts, rd if k in ('cast', 'upcast') else True)
        for x in ('elems', 'args'):
            for v in e.get(x) or []:
                if isinstance(v, dict):
                    sts = self.expr(v, sts)
        if k == 'new':
            self.raised(sts)
        return sts

    def assign(self, st, pl, e, value):
        if pl is None:
            self.forget(st, MEM)
            return
        v = self.value(value, st) if value is not None else None
        self.forget(st, pl[0])
        if '[]' in pl:
            self.forget(st, MEM)
            v = None
        self.wrote(st, pl, e, value)
        if v is not None:
            st.facts['.'.join(map(str, pl))] = (v, frozenset([pl[0]]))

    def raised(self, sts):
        if self.trys:
            self.trys[-1].extend(s.copy() for s in sts)

    def modes(self, e):
        sig = signature(e.get('fn'))
        r = []
        for i, a in enumerate(e.get('args') or []):
            t = sig[i] if sig and i < len(sig) else ''
            t = t.strip()
            if t.endswith('&&'):
                m = 'move'
            elif t.endswith('&'):
                m = 'cref' if t.startswith('const ') else 'ref'
            else:
                m = 'val'
            r.append(m)
        return r

    def call(self, e, sts):
        args = e.get('args') or []
        modes = self.modes(e)
        op = e.get('op')
        if e.get('k') == 'call' and op and not e.get('obj') and modes and len(modes) != len(args):
            modes = ['ref'] * len(args)
        obj = e.get('obj')
        opl = None
        if obj is not None:
            opl = self.place(obj)
            if opl is None or e.get('arrow'):
                sts = self.expr(obj, sts, rd=bool(e.get('arrow')))
                if e.get('arrow'):
                    opl = None
                if obj.get('k') == 'this':
                    opl = ('this',)
        elif e.get('fn') is None and isinstance(e.get('f'), dict):
            sts = self.expr(e['f'], sts)
        info = []
        for a, m in zip(args, modes):
            if a is None:
                continue
            pl = self.place(a) if a.get('k') in ('ref', 'mem', 'cast', 'upcast', 'idx') and not (a.get('k') == 'cast' and not a.get('lv')) else None
            if pl is None or (m == 'val'):
                sts = self.expr(a, sts, rd=m in ('val', 'cref') or pl is None)
            elif m == 'cref':
                for st in sts:
                    self.read(st, pl, a)
            info.append((a, m, pl))
        self.raised(sts)
        r = []
        for st in sts:
            ok = self.called(st, e, info, opl)
            for a, m, pl in info:
                if pl is not None and m in ('ref', 'move'):
                    self.forget(st, pl[0])
            if not e.get('cmeth'):
                if opl is not None:
                    self.forget(st, opl[0])
                self.forget_mem(st)
            if ok is False or e.get('noret') or e.get('fn') in self.noreturn:
                self._thr.append(st)
                continue
            r.append(st)
        return r

    # ---- statements ------------------------------------------------------
    def stmt(self, s, sts):
        o = Out()
        if s is None:
            o.n = sts
            return o
        if not sts and s.get('k') not in ('label', 'case', 'default', 'block'):
            return o
        k = s['k']
        if k == 'block':
            cur = sts
            ids = []
            for x in s['b']:
                if x and x.get('k') == 'decl':
                    ids += [v['id'] for v in x['vars'] if 'id' in v]
                r = self.stmt(x, cur)
                o.absorb(r)
                cur = dedupe(r.n)
            o.n = cur
            for st in o.n + o.brk + o.cont:
                self.leave(st, ids)
            return o
        if k == 'expr':
            o.n = dedupe(self.expr(s['e'], sts, rd=s['e'].get('k') not in ('ref', 'mem') if s['e'] else True))
            return o
        if k == 'decl':
            for v in s['vars']:
                sts = self.decl(v, sts)
            o.n = dedupe(sts)
            return o
        if k == 'if':
            if s.get('init'):
                sts = self.stmt(s['init'], sts).n
            if s.get('var'):
                sts = self.decl(s['var'], sts)
            t, f = [], []
            for st in sts:
                a, b = self.cond(s['c'], st)
                t += a
                f += b
            ra = self.stmt(s['a'], dedupe(t))
            o.absorb(ra)
            o.n = ra.n
            if s.get('b'):
                rb = self.stmt(s['b'], dedupe(f))
                o.absorb(rb)
                o.n = o.n + rb.n
            else:
                o.n = o.n + f
            o.n = dedupe(o.n)
            return o
        if k in ('for', 'while', 'do'):
            if s.get('init'):
                r = self.stmt(s['init'], sts)
                sts = r.n
            return self.loop(s, sts, o)
        if k == 'range':
            if s.get('init'):
                sts = self.stmt(s['init'], sts).n
            sts = self.expr(s['r'], sts, rd=False)
            return self.loop(s, sts, o)
        if k == 'switch':
            if s.get('init'):
                sts = self.stmt(s['init'], sts).n
            return self.switch(s, sts, o)
        if k in ('case', 'default'):
            return self.stmt(s['s'], sts)
        if k == 'break':
            o.brk = list(sts)
            return o
        if k == 'continue':
            o.cont = list(sts)
            return o
        if k == 'return':
            if s.get('e'):
                pl = self.place(s['e'])
                rec = s['e'].get('t') is not None and s['e']['t'].c == 'rec'
                if not (pl and rec):
                    sts = self.expr(s['e'], sts)
            for st in sts:
                self.returned(st, s.get('e'), s)
            o.ret = list(sts)
            return o
        if k == 'try':
            self.trys.append([])
            r = self.stmt(s['b'], sts)
            snap = dedupe(self.trys.pop())
            o.absorb(r)
            o.n = r.n
            if self.trys:
                self.trys[-1].extend(x.copy() for x in snap)
            for h in s['h']:
                for x in snap:
                    x.facts = {}
                rh = self.stmt(h['b'], [x.copy() for x in snap])
                o.absorb(rh)
                o.n = o.n + rh.n
            o.n = dedupe(o.n)
            return o
        if k == 'label':
            return self.stmt(s['s'], sts)
        if k == 'goto':
            self.unsupported = True
            o.n = sts
            return o
        o.n = sts
        return o

    def decl(self, v, sts):
        e = v.get('init')
        t = v.get('t')
        if 'id' not in v:
            return sts
        if v.get('static') and e is not None:
            return sts
        if t is not None and t.c == 'ref' and e is not None:
            pl = self.place(e)
            if pl is not None:
                self.alias[v['id']] = pl
                return sts
            return self.expr(e, sts, rd=False)
        if e is not None and not (t is not None and t.c == 'rec' and e.get('k') == 'ctor' and not e.get('args')):
            pl = self.place(e)
            if not (pl and t is not None and t.c == 'rec'):
                sts = self.expr(e, sts)
        for st in sts:
            self.forget(st, v['id'])
            val = self.value(e, st) if e is not None else None
            self.declared(st, v)
            if val is not None:
                st.facts[str(v['id'])] = (val, frozenset([v['id']]))
        return sts

    def loop(self, s, sts, o):
        k = s['k']
        seen = set()
        work = dedupe([x.copy() for x in sts])
        exits = []
        rounds = 0
        first = True
        while work:
            rounds += 1
            t = []
            if k == 'do' and first:
                t = work
            elif k == 'range':
                for st in work:
                    exits.append(st.copy())
                    t.append(st)
            else:
                for st in work:
                    a, b = self.cond(s.get('c'), st) if s.get('c') is not None else ([st], [])
                    t += a
                    exits += b
            first = False
            if k == 'range':
                for st in t:
                    self.forget(st, s['var'].get('id'))
            r = self.stmt(s['b'], dedupe(t))
            o.absorb(r, loop=True)
            exits += r.brk
            back = r.n + r.cont
            if s.get('inc'):
                back = self.expr(s['inc'], back, rd=False)
            work = []
            for st in dedupe(back):
                if rounds > 12:
                    st.facts = {}
                kk = st.key()
                if kk not in seen:
                    seen.add(kk)
                    work.append(st.copy())
            if rounds > 60:
                break
        o.n = dedupe(exits)
        return o

    def covers(self, s, vals):
        t = s.get('ct')
        if t is None or t.c != 'enum':
            return False
        en = self.p.enums.get(t.q) or self.p.enums.get(t.n)
        return bool(en) and {v for _, v, *_ in en['vals']} <= vals

    def switch(self, s, sts, o):
        r = []
        for st in sts:
            r += self.expr(s['c'], [st])
        sts = dedupe(r)
        body = s['b']['b'] if s['b'] and s['b'].get('k') == 'block' else [s['b']]
        vals, hasdef = set(), False

        def labels(x):
            ls = []
            while x and x.get('k') in ('case', 'default'):
                ls.append(x)
                x = x.get('s')
            return ls, x
        for x in body:
            for l in labels(x)[0]:
                if l['k'] == 'default':
                    hasdef = True
                elif l['v'] and l['v'].get('cv') is not None:
                    vals.add(int(l['v']['cv']))
        cur = []
        ids = []
        for x in body:
            ls, inner = labels(x)
            for l in ls:
                for st in sts:
                    v = self.value(s['c'], st)
                    a = st.copy()
                    if l['k'] == 'case' and l['v'].get('cv') is not None:
                        if v is not None and v != int(l['v']['cv']):
                            continue
                        c = self.canon(s['c'])
                        if c and c[1]:
                            a.facts[c[0]] = (int(l['v']['cv']), c[1])
                    elif l['k'] == 'default' and v is not None and v in vals:
                        continue
                    cur.append(a)
            q = self.stmt(inner, dedupe(cur))
            o.absorb(q, loop=False)
            cur = q.n
        ex = list(cur) + o.brk
        o.brk = []
        if not hasdef and not self.covers(s, vals):
            for st in sts:
                v = self.value(s['c'], st)
                if v is None or v not in vals:
                    ex.append(st.copy())
        o.n = dedupe(ex)
        return o

    def body(self, b, sts):
        self._thr = []
        self.unsupported = any(x.get('k') == 'goto' for x in walk(b) if isinstance(x, dict))
        o = self.stmt(b, sts)
        o.thr += self._thr
        return o
