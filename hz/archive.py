"""Traces of the public operations of an archive."""
from . import engine, prog
from .engine import Exc
from .terms import *
from .prog import rel
from .extract import AnalysisError

FILE = 'src/hzip_storage/archive/archive.cpp'
UNITS = [(FILE, 'cpu'), ('src/hzip_core/blob/blob.cpp', 'cpu')]


class ArchiveClient(engine.Client):
    """The path index is replaced by its contract (which C14 checks); everything else is analysed."""
    trie_contract = True

    def want_inline(self, fn, st):
        return not (self.trie_contract and fn.cq == 'HZ_ArchiveTrie')

    def call(self, I, e, name, st, obj, args, fr, out):
        if not self.trie_contract or e.get('cq') != 'HZ_ArchiveTrie' or obj is None:
            return None
        op = e['n']
        if op not in ('get', 'set', 'check_target', 'contains', 'erase', 'children', 'all'):
            return None
        v = I.load(st, obj)
        path = I.val(st, args[0]) if args else ZERO
        if isloc(path):
            path = I.load(st, path)
        if op == 'contains':
            I.C.on_read(I, st, obj, e, fr)
            return [(st, I.lib.contains(st, v, path))]
        if op in ('children', 'all'):
            I.C.on_read(I, st, obj, e, fr)
            if op == 'children':
                self.fail(I, st, I.lib.contains(st, v, path), 'ArchiveErrors::TargetNotFoundException', e, fr, out)
            I.emit(st, 'trie', e, fr, op=op, m=obj, path=path)
            return [(st, I.fresh('list', e['t']))]
        if op == 'get':
            I.C.on_read(I, st, obj, e, fr)
            r = []
            for s, b in I.split(st, self.leaf(st, v, path)):
                if b:
                    s.facts.assume(I.lib.contains(s, v, path), True)
                    r.append((s, I.typed(self.value(s, v, path), e['t'])))
                else:
                    out.append(('t', s, Exc('ArchiveErrors::InvalidOperationException', None, e['l'], rel(fr.file), fr.name, 'get: not an entry')))
            return r
        if op in ('set', 'check_target'):
            r = []
            for s, b in I.split(st, mk('opred', 'settable', v, path)):
                if not b:
                    out.append(('t', s, Exc('ArchiveErrors::InvalidOperationException', None, e['l'], rel(fr.file), fr.name, op + ': not a possible target')))
                    continue
                if op == 'set':
                    I.C.on_write(I, s, obj, None, e, fr)
                    known = s.facts.decide(I.lib.contains(s, v, path))
                    val = args[1]
                    fields = {}
                    if isloc(val):
                        fields['sof'] = I.load(s, I.fld(val, 'sof'))
                        dl = I.fld(val, 'data')
                        fields['data'] = I.load(s, dl)
                        fields['ids'] = I.load(s, I.fld(dl, 'blob_ids'))
                        val = I.load(s, val)
                    elif val.op in ('recv', 'aggr'):
                        fields = {n: x for n, x in val.a}
                    I.emit(s, 'trie', e, fr, op='set', m=obj, path=path, known=known, sof=fields.get('sof'), data=fields.get('data'), ids=fields.get('ids'))
                    s.mem[obj] = mk('ins', v, path)
                r.append((s, ZERO))
            return r
        if op == 'erase':
            r = []
            for s, b in I.split(st, I.lib.contains(st, v, path)):
                if not b:
                    out.append(('t', s, Exc('ArchiveErrors::TargetNotFoundException', None, e['l'], rel(fr.file), fr.name, 'erase: not there')))
                    continue
                I.C.on_write(I, s, obj, None, e, fr)
                old = self.value(s, v, path)
                I.emit(s, 'trie', e, fr, op='erase', m=obj, path=path, leaf=s.facts.decide(self.leaf(s, v, path)),
                       sof=I.sel(old, 'sof'), data=I.sel(old, 'data'))
                s.mem[obj] = mk('del', v, path)
                r.append((s, ZERO))
            return r

    def on_event(self, I, st, ev):
        if ev.k == 'verase' and ev.c is M('fragments'):
            el = mk('el', ev.c, ev.idx)
            for n in ('sof', 'length'):
                ev.d[n] = I.typed(I.load(st, I.fld(el, n)), None)
        elif ev.k == 'maperase' and ev.m is M('mstate_map'):
            ev.d['needed'] = st.facts.decide(I.lib.contains(st, I.load(st, M('dep_counter')), ev.key))
            ev.d['addressed'] = st.facts.decide(I.lib.contains(st, I.load(st, M('mstate_inv_aux_map')), ev.key))
            ev.d['pos'] = I.load(st, mk('el', ev.m, ev.key))
        elif ev.k == 'maperase':
            ev.d['pos'] = I.load(st, mk('el', ev.m, ev.key))

    def on_write(self, I, st, loc, v, e, fr):
        x = loc
        while x.op in ('fld', 'el', 'mitem'):
            if x.op == 'fld' and x.a[0].op == 'fld' and x.a[0].a[1] == 'metadata':
                n = x.a[1]
                if n == 'eof' and x is loc:
                    I.emit(st, 'eof', e, fr, old=I.load(st, loc), new=v)
                elif n == 'fragments' and v is not None:
                    if loc.op == 'el' and v.op in ('recv', 'aggr'):
                        for fn_, fv in v.a:
                            l2 = I.fld(loc, fn_)
                            I.emit(st, 'fragw', e, fr, loc=l2, old=I.load(st, l2), new=fv)
                    else:
                        I.emit(st, 'fragw', e, fr, loc=loc, old=I.load(st, loc), new=v)
                elif v is not None and n in ('dep_counter', 'blob_map', 'mstate_map', 'mstate_inv_aux_map'):
                    I.emit(st, 'mapw', e, fr, m=x, loc=loc, key=loc.a[1] if loc.op == 'el' else None, old=I.load(st, loc), new=v)
                elif v is not None and n not in ('eof', 'fragments'):
                    I.emit(st, 'metaw', e, fr, name=n, loc=loc, new=v)
                return
            x = x.a[0]

    def leaf(self, s, v, path):
        while v.op in ('ins', 'del'):
            r = s.facts.decide(eq(v.a[1], path))
            if r is True:
                return ONE if v.op == 'ins' else ZERO
            if r is False:
                v = v.a[0]
                continue
            break
        return mk('opred', 'leaf', v, path)

    def value(self, s, v, path):
        return mk('at', v, path)

    def fail(self, I, st, cond, ty, e, fr, out):
        s2 = st.copy()
        if s2.facts.assume(cond, False):
            out.append(('t', s2, Exc(ty, None, e['l'], rel(fr.file), fr.name, e['n'])))
        st.facts.assume(cond, True)


THIS = mk('obj', 'archive')


def program(ctx=None, units=UNITS):
    p = prog.load(units)
    if ctx:
        ctx.program(p)
    return p


def publics(p):
    r = [f for f in p.fns.values() if f.cq == 'HZ_Archive' and f.kind in ('method', 'ctor') and f.acc == 'public' and not f.d.get('implicit') and not f.d.get('defaulted')]
    if not r:
        raise AnalysisError('no public operation of HZ_Archive found')
    return sorted(r, key=lambda f: f.line)


def M(name):
    return mk('fld', mk('fld', THIS, 'metadata'), name)


def flat(evs, depth=0, loops=()):
    """All events, with the loops around them."""
    for ev in evs:
        yield ev, loops
        if ev.k == 'loop':
            for kind, body, s in ev.body:
                yield from flat(body, depth + 1, loops + ((ev, kind, s),))


def run(p, fn, client=None):
    I = engine.Interp(p, client or ArchiveClient())
    outs = I.run(fn, this=THIS)
    return I, outs


def levels(ctx, p, skip=('load',), ctor=False):
    """Every stretch of every path of every public operation, with the segments it touches."""
    from . import segments
    for f in publics(p):
        if f.n in skip or f.kind == 'ctor' and not ctor:
            continue
        ctx.analysed(f)
        I, outs = run(p, f)
        for kind, st, v in outs:
            for evs, s, k, loop in segments.levels(st.events(), st):
                L = segments.Level(evs, s, k, loop)
                L.result = v if loop is None and kind == 'r' else None
                yield f, I, L, st, kind


def pathdesc(evs):
    return ['%s %s' % (ev.at(), ev.k + ''.join(' %s=%s' % (k, show(v)) for k, v in ev.d.items() if isinstance(v, T))) for ev, _ in flat(evs)]
