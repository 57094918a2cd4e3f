"""Loads dumps of translation units into one resolved program."""
import json
from .extract import AnalysisError, ParseFailure, extract_many, REPO


class Type:
    __slots__ = ('n', 'c', 'w', 's', 'p', 'len', 'rec', 'q', 'targs', 'const', 'lam', 'rv', 'trivdtor')

    def __init__(self, d):
        self.n = d['n']
        self.c = d['c']
        self.w = d.get('w', 0)
        self.s = d.get('s', False)
        self.len = d.get('len')
        self.rec = d.get('rec')
        self.q = d.get('q')
        self.const = d.get('const', False)
        self.lam = d.get('lambda', False)
        self.rv = d.get('rv', False)
        self.trivdtor = d.get('trivdtor', False)
        self.p = d.get('p')
        self.targs = d.get('targs', [])

    def __repr__(self):
        return '<%s>' % self.n

    @property
    def isint(self):
        return self.c in ('int', 'bool', 'enum')

    @property
    def nonneg(self):
        return self.c == 'bool' or (self.c in ('int', 'enum') and not self.s)

    def strip(self):
        return self.p if self.c == 'ref' else self


TYPEKEYS = ('t', 'rt', 'at', 'tt', 'of', 'ct', 'clt', 'crt')


class Fn:
    """One function definition."""

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.id = d['id']
        self.q = d['q']
        self.n = d['n']
        self.line = d['l']
        self.end = d['end']
        self.file = tu.files[d['file']]
        self.params = d['params']
        self.body = d['body']
        self.rt = d['rt']
        self.kind = d['kind']
        self.cls = d.get('cls')
        self.cq = d.get('cq')
        self.acc = d.get('acc')
        self.inits = d.get('inits', [])

    def __repr__(self):
        return 'Fn(%s)' % self.id

    @property
    def rel(self):
        return rel(self.file)


def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + '/') else path


class TU:
    def __init__(self, path, name, config):
        self.name, self.config = name, config
        with open(path) as f:
            d = json.load(f)
        self.types = [Type(t) for t in d['types']]
        for t in self.types:
            if t.p is not None:
                t.p = self.types[t.p] if t.p >= 0 else None
            t.targs = [self.types[i] for i in t.targs]
        self.files = d['files']
        self.d = d
        for k in ('functions', 'records', 'globals'):
            for x in d[k]:
                self._fix(x)

    def _fix(self, root):
        stack = [root]
        types = self.types
        while stack:
            n = stack.pop()
            if isinstance(n, dict):
                for k in TYPEKEYS:
                    v = n.get(k)
                    if v is not None and isinstance(v, int):
                        n[k] = types[v] if v >= 0 else None
                if 'k' in n or 'id' in n:
                    n['tu'] = self
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        stack.append(v)
            else:
                for v in n:
                    if isinstance(v, (dict, list)):
                        stack.append(v)


class Program:
    def __init__(self, tus):
        self.tus = tus
        self.fns = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.byq = {}
        for tu in tus:
            for d in tu.d['functions']:
                if d['id'] not in self.fns:
                    f = Fn(d, tu)
                    self.fns[f.id] = f
                    self.byq.setdefault(f.q, []).append(f)
            for r in tu.d['records']:
                if r['n'] not in self.records:
                    r['relfile'] = rel(tu.files[r['file']])
                    self.records[r['n']] = r
            for e in tu.d['enums']:
                if e['q'] not in self.enums:
                    e['relfile'] = rel(tu.files[e['file']])
                    self.enums[e['q']] = e
            for g in tu.d['globals']:
                g['relfile'] = rel(tu.files[g['file']])
                o = self.globals.get(g['q'])
                if o is None or (g.get('def') and not o.get('def')) or ('init' in g and 'init' not in o):
                    self.globals[g['q']] = g

    def fn(self, q):
        """All definitions with this qualified name; missing anchor = analysis error."""
        r = self.byq.get(q)
        if not r:
            raise AnalysisError('anchor function %s not found' % q)
        return r

    def one(self, q):
        r = self.fn(q)
        if len(r) != 1:
            raise AnalysisError('anchor function %s is not unique: %s' % (q, [x.id for x in r]))
        return r[0]

    def rec(self, n):
        r = self.records.get(n)
        if r is None:
            raise AnalysisError('anchor record %s not found' % n)
        return r

    def enum(self, q):
        r = self.enums.get(q)
        if r is None:
            raise AnalysisError('anchor enum %s not found' % q)
        return r

    def bases(self, n, seen=None):
        """All (transitive) base names of a record, with whether each is reachable publicly."""
        out = {}
        r = self.records.get(n)
        if r is None:
            return out
        for b in r['bases']:
            bn = b['t'].rec
            pub = b['acc'] == 'public'
            out[bn] = out.get(bn, False) or pub
            for k, v in self.bases(bn).items():
                out[k] = out.get(k, False) or (pub and v)
        return out

    def overriders(self, fid):
        """Definitions that override the virtual method fid (transitively)."""
        out, todo = [], [fid]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for f in self.fns.values():
                if x in f.d.get('over', []):
                    out.append(f)
                    todo.append(f.id)
        return out


def load(jobs):
    """jobs: list of (tu, config) -> Program. A unit that cannot be parsed is an analysis error."""
    res = extract_many(jobs)
    tus = []
    for j, r in zip(jobs, res):
        if isinstance(r, ParseFailure):
            raise AnalysisError('cannot parse %s (%s): %s' % (r.tu, r.config, r.msg[-1500:]))
        tus.append(TU(r, j[0], j[1]))
    return Program(tus)


def walk(n):
    """All dict nodes of a syntax tree, pre-order."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            for k, v in x.items():
                if k != 'tu' and isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    stack.append(v)
