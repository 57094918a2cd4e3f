"""Which exceptions can leave which functions: a whole-program fixpoint over throw expressions, handlers and calls."""
from .prog import walk


class Site:
    __slots__ = ('type', 'rel', 'q', 'line')

    def __init__(self, t, rel, q, line):
        self.type, self.rel, self.q, self.line = t, rel, q, line


class Lam:
    def __init__(self, f, e):
        self.id = '%s: lambda at line %d' % (f.id, e['l'])
        self.q, self.rel, self.line, self.params, self.body, self.rt, self.kind, self.cls = \
            f.q, f.rel, e['l'], e['params'], e['body'], e['rt'], 'fn', f.cls
        self.inits, self.d, self.n = [], {}, 'lambda'
        self.e = e


def recname(t):
    while t is not None and t.c in ('ref', 'ptr'):
        t = t.p
    if t is None:
        return None
    return (t.rec or t.q or t.n).replace('const ', '') if t.c == 'rec' else t.n


class Excs:
    """escapes[id]: {exception type: Site of one throw}. Lambdas handed to std::function are possible targets of every such call
    of the same type."""

    def __init__(self, p, fns):
        self.p = p
        self.fns = {f.id: f for f in fns}
        self.lams = {}
        self.over = {}
        self.boxed = []
        for f in fns:
            for o in f.d.get('over') or []:
                self.over.setdefault(o, []).append(f.id)
            for e in walk([f.body, f.inits]):
                if isinstance(e, dict) and e.get('k') == 'lambda' and e.get('body'):
                    l = Lam(f, e)
                    self.lams[id(e)] = l
                    self.fns[l.id] = l
                if isinstance(e, dict) and (e.get('k') == 'ctor' and (e.get('q') or '').startswith('std::function') or
                                            e.get('k') == 'call' and e.get('op') == '=' and (e.get('cq') or '').startswith('std::function')):
                    for a in e.get('args') or []:
                        for x in walk(a):
                            if isinstance(x, dict) and x.get('k') == 'lambda':
                                self.boxed.append((e.get('cls'), x))
        self.escapes = {i: {} for i in self.fns}
        self.caught = {}
        changed = True
        n = 0
        while changed and n < 60:
            changed = False
            n += 1
            for f in self.fns.values():
                r = {}
                for i in f.inits:
                    self.expr(i.get('e'), f, r, None)
                self.stmt(f.body, f, r, None)
                if set(r) != set(self.escapes[f.id]):
                    self.escapes[f.id] = r
                    changed = True

    def bases(self, name):
        r, todo = [], [name]
        while todo:
            n = todo.pop()
            if n in r:
                continue
            r.append(n)
            q = self.p.records.get(n)
            for b in (q or {}).get('bases') or []:
                if b.get('acc') == 'public':
                    todo.append(recname(b['t']))
        return r

    def catches(self, handler, t):
        if handler.get('t') is None:
            return True
        h = recname(handler['t'])
        return h in self.bases(t) or (h == 'std::exception' and t.startswith('std::'))

    def targets(self, e):
        fid = e.get('fn')
        r = []
        if e.get('virt'):
            todo = [fid]
            while todo:
                x = todo.pop()
                if x in self.fns and self.fns[x].body is not None:
                    r.append(x)
                todo += self.over.get(x, [])
            return r
        if fid in self.fns:
            return [fid]
        if (e.get('cq') or '').startswith('std::function') and e.get('op') == '()':
            return [self.lams[id(x)].id for c, x in self.boxed if c == e.get('cls') and id(x) in self.lams]
        if fid and fid.startswith('(lambda at') and e.get('obj') is not None:
            line = fid.split(':')[1:2]
            return [l.id for l in self.lams.values() if str(l.e['l']) in line]
        return []

    def expr(self, e, f, out, rethrow):
        if e is None:
            return
        stack = [e]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
                continue
            if not isinstance(x, dict):
                continue
            k = x.get('k')
            if k == 'lambda':
                for c in x.get('caps') or []:
                    stack.append(c.get('init'))
                continue
            if k == 'throw':
                if x.get('e') is None:
                    for t, s in (rethrow or {}).items():
                        out.setdefault(t, s)
                else:
                    out.setdefault(recname(x.get('tt') or x['e'].get('t')), Site(recname(x.get('tt') or x['e'].get('t')), f.rel, f.q, x['l']))
            if k in ('call', 'ctor'):
                for t in self.targets(x):
                    for ty, s in self.escapes[t].items():
                        out.setdefault(ty, s)
            stack.extend(v for kk, v in x.items() if kk != 'tu' and isinstance(v, (dict, list)))

    def stmt(self, s, f, out, rethrow):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.stmt(x, f, out, rethrow)
            return
        k = s.get('k')
        if k == 'try':
            inner = {}
            self.stmt(s['b'], f, inner, rethrow)
            left = dict(inner)
            per = []
            for h in s['h']:
                got = {t: x for t, x in left.items() if self.catches(h, t)}
                for t in got:
                    left.pop(t)
                per.append(got)
            self.caught[id(s)] = per
            out.update({t: x for t, x in left.items() if t not in out})
            for h, got in zip(s['h'], per):
                g = dict(got)
                if h.get('t') is None or not g:
                    pass
                self.stmt(h['b'], f, out, g)
            return
        for kk, v in s.items():
            if kk in ('tu', 't', 'ct'):
                continue
            if isinstance(v, dict):
                (self.stmt if is_stmt(v) else self.expr)(v, f, out, rethrow)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        (self.stmt if is_stmt(x) else self.expr)(x, f, out, rethrow)


STMTS = {'block', 'if', 'for', 'while', 'do', 'range', 'switch', 'case', 'default', 'try', 'label', 'goto', 'return', 'expr', 'decl', 'break',
         'continue', 'null'}


def is_stmt(x):
    return x.get('k') in STMTS
