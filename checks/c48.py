"""Abstract interpretation of the path validator for a symbolic path of any length. Every loop over the path is summarised by the
positions that it visits and by what each round has found out about the characters there. A normal return must have excluded, at
every position, each forbidden character and, at every pair of neighbouring positions, two slashes, and must have seen the leading
slash; a refusal must have found one of these defects at a position inside the path, and must be a validation error."""
TECHNIQUE = 'abstract interpretation of the validator with loop summaries over all positions of the path'
NOTE = 'Holds for paths of every length below 2^31 and every byte; trusts std::string.'

from hz import archive, prog, engine
from hz.terms import *

UNITS = [('src/hzip_network/api/handlers/query.cpp', 'cpu')]
NPOS = c(2 ** 64 - 1)
SLASH = 47
FORBIDDEN = {0: 'a zero byte', 92: 'a backslash', 32: 'a space'}


class Client(engine.Client):
    keep_loops = True


class Lang:
    """What a state knows about the characters of the path."""

    def __init__(self, I, path, n):
        self.I, self.path, self.n = I, path, n

    def at(self, s, i):
        return self.I.at(s, self.path, i)

    def is_(self, s, ch, v):
        """Character term ch equals v: True, False or not known."""
        r = s.facts.decide(eq(ch, c(v)))
        if r is None and v >= 128:
            r = s.facts.decide(eq(ch, c(v - 256)))
        return r

    def chars(self, s):
        """(index, term) of every character of the path that facts mention."""
        r = {}
        def visit(t):
            if not isinstance(t, T):
                return
            if t.op == 'at' and t.a[0] is self.path:
                r[t] = t.a[1]
            for x in t.a:
                if isinstance(x, T):
                    visit(x)
                elif isinstance(x, tuple):
                    for y in x:
                        visit(y[0] if isinstance(y, tuple) else y)
        for t in s.facts.truths:
            visit(t)
        return r

    def finds(self, s):
        """(searched text, found or not) of every search that a fact decides."""
        for t in s.facts.truths:
            for x in subterms(t):
                if x.op == 'fn' and str(x.a[0]).startswith('string::find') and x.a[1] is self.path:
                    d = s.facts.decide(eq(x, NPOS))
                    if d is not None and (len(x.a) < 4 or x.a[3] is ZERO):
                        yield x.a[0], text(self.I, x.a[2]), not d


def subterms(t):
    yield t
    for x in t.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, T):
                    yield from subterms(z)


def text(I, t):
    r = I.lib.strval(t)
    if r is not t:
        return text(I, r)
    if t.op == 'c':
        return chr(t.a[0] & 255)
    if t.op == 'str':
        return t.a[0]
    if t.op == 'ptr' or t.op == 'cstr':
        return text(I, t.a[0])
    return None


def leading(L, s):
    """The path is known to start with a slash (True), known not to (False), or neither."""
    for t, v in s.facts.truths.items():
        if t.op == 'starts' and t.a[0] is L.path and (t.a[1] is c(SLASH) or text(L.I, t.a[1]) == '/'):
            return v
    if s.facts.decide(eq(L.n, ZERO)) is True:
        return False
    return L.is_(s, L.at(s, ZERO), SLASH)


def inside(L, s, i):
    return s.facts.decide(le(ZERO, i)) is True and s.facts.decide(lt(i, L.n)) is True


def defect(L, s, prevs):
    """What a refusing path has found wrong with the path, or None."""
    if leading(L, s) is False:
        return 'no leading slash'
    cs = L.chars(s)
    for t, i in cs.items():
        for v, name in FORBIDDEN.items():
            if L.is_(s, t, v) is True and inside(L, s, i):
                return name
    for t, i in cs.items():
        if L.is_(s, t, SLASH) is True and inside(L, s, i):
            for u, j in list(cs.items()):
                if L.is_(s, u, SLASH) is True and s.facts.decide(eq(j, add(i, ONE))) is True and inside(L, s, j):
                    return 'repeated slashes'
            for ev, entry in prevs:
                if linear(i, ev.kvar) and any(ask(s, entry.mem[l]) is True for l, ask, lo in trackers(L, ev, i) if l in entry.mem):
                    return 'repeated slashes'
    for how, txt, found in L.finds(s):
        if found and txt is not None:
            if how == 'string::find' and txt in ('//', '\\', ' ', '\0'):
                return 'found %r' % txt
            if how == 'string::find_first_of' and txt and set(txt) <= set('\\ \0'):
                return 'found one of %r' % txt
    return None


def trackers(L, ev, idx):
    """Places that, at the end of every round, hold the character at position idx, or whether it is a slash, as (place, how to ask a
    state whether a value of the place means a slash, first pair of positions, named by the second, that the place covers)."""
    conts = [s for k, _, s in ev.body if k == 'cont']
    first = subst(idx, ev.kvar, ZERO)
    asks = [lambda s, v: L.is_(s, v, SLASH), lambda s, v: s.facts.decide(v) if v.op != 'c' else bool(v.a[0]) if v.a[0] in (0, 1) else None]
    r = []
    for l, v in ev.pre.items():
        if not conts or v is None or any(s.mem.get(l) is None for s in conts):
            continue
        if all(s.facts.decide(eq(s.mem[l], L.at(s, idx))) is True for s in conts):
            ask = asks[0]
        elif all(L.is_(s, L.at(s, idx), SLASH) is not None and asks[1](s, s.mem[l]) is L.is_(s, L.at(s, idx), SLASH) for s in conts):
            ask = asks[1]
        else:
            continue
        if v.op == 'c' and ask(conts[0], v) is False:
            r.append((l, ask, ZERO))
        elif ask is asks[0] and v is L.at(conts[0], sub(first, ONE)):
            r.append((l, ask, ONE))
    return r


def covers(L, s, ev, idx, lo, hi):
    """The rounds of the loop visit idx for every position from lo up to, not including, hi."""
    first = subst(idx, ev.kvar, ZERO)
    last = subst(idx, ev.kvar, sub(ev.trips, ONE))
    d = linear(idx, ev.kvar)
    return d and s.facts.decide(le(first, lo)) is True and s.facts.decide(le(sub(hi, ONE), last)) is True


def linear(t, k):
    kk, items = lin(t)
    return dict(items).get(k) == 1


def subst(t, k, v):
    kk, items = lin(t)
    r = c(kk)
    for a, n in items:
        r = add(r, mul(c(n), v if a is k else a))
    return r


def excluded(L, s, test):
    """Is there a loop on this path (or a single search) that excludes, at every position from lo to hi, what test looks for?"""
    for ev in s.events():
        if ev.k != 'loop' or ev.get('partial'):
            continue
        conts = [(x, x0) for (k, _, x), x0 in zip(ev.body, ev.starts) if k == 'cont']
        if not conts:
            continue
        idxs = {i for x, _ in conts for i in L.chars(x).values() if linear(i, ev.kvar)}
        for i in sorted(idxs, key=lambda t: t.id):
            lo, hi, ok = test(ev, i, conts)
            if ok and covers(L, s, ev, i, lo, hi):
                return True
    return False


def run(ctx):
    ctx.rule('accepts', 'a path is accepted only when every position has been found free of every defect', 4)
    ctx.rule('refuses', 'a path is refused only for a defect that it has', 4)
    ctx.rule('error', 'a refusal is a validation error', 1)
    ctx.rule('returns', 'well-formed paths can be accepted', 1)
    p = prog.load(UNITS)
    ctx.program(p)
    for f in p.fn('hz_validate_path'):
        ctx.analysed(f)
        I = engine.Interp(p, Client())
        outs = I.run(f)
        path = None
        for k, s, v in outs:
            pl = mk('obj', 'arg:' + f.params[0]['n'])
            path = I.load(engine.State(), pl)
            break
        n = mk_len(path)
        L = Lang(I, path, n)
        ctx.ob('returns', f.q, any(k == 'r' for k, _, _ in outs), f.rel, f.q, f.line, 'no path is accepted')
        for kind, s, v in outs:
            trace = archive.pathdesc(s.events())
            if kind == 't':
                at = dict(file=f.rel, func=f.q, line=v.line)
                prevs = [(ev, ev.entry) for ev in s.events() if ev.k == 'loop' and ev.get('partial')][-1:]
                d = defect(L, s, prevs)
                ctx.ob('refuses', 'line %d: %s' % (v.line, d), d is not None, msg='a well-formed path can be refused here', path=trace, detail=str(v.line), **at)
                ctx.ob('error', 'line %d' % v.line, v.type == 'UtilErrors::ValidationError', msg='%s is raised instead of a validation error' % v.type, path=trace, **at)
                continue
            at = dict(file=f.rel, func=f.q, line=f.line)
            ctx.ob('accepts', 'leading slash', leading(L, s) is True, msg='a path that does not start with a slash can be accepted', path=trace, detail='leading', **at)
            found = list(L.finds(s))
            for ch, name in FORBIDDEN.items():
                def single(ev, i, conts, ch=ch):
                    return (ZERO if leading(L, s) is not True else ONE), n, all(L.is_(x, L.at(x, i), ch) is False for x, _ in conts)
                ok = excluded(L, s, single) or any(not y and t is not None and (how == 'string::find' and t == chr(ch) or how == 'string::find_first_of' and chr(ch) in t) for how, t, y in found)
                ctx.ob('accepts', 'no ' + name, ok, msg='a path with %s at some position can be accepted' % name, path=trace, detail=name, **at)

            def pair(ev, i, conts):
                def no(x, x0, a, b):
                    if x.facts.decide(le(ZERO, a)) is False or x.facts.decide(lt(b, n)) is False:
                        return True
                    return L.is_(x, L.at(x, a), SLASH) is False or L.is_(x, L.at(x, b), SLASH) is False
                if all(no(x, x0, i, add(i, ONE)) for x, x0 in conts):
                    return ZERO, sub(n, ONE), True
                for l, ask, lo in trackers(L, ev, i):
                    if all(L.is_(x, L.at(x, i), SLASH) is False or l in x0.mem and ask(x, x0.mem[l]) is False for x, x0 in conts):
                        return lo, n, True
                return ZERO, n, False
            ok = excluded(L, s, pair) or any(not y and how == 'string::find' and t == '//' for how, t, y in found)
            ctx.ob('accepts', 'no repeated slashes', ok, msg='a path with two slashes in a row can be accepted', path=trace, detail='repeated', **at)
