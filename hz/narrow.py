"""Sizes that are put into variables too small for them: a dataflow over the local variables of a function.

A size is a parameter or a member of 64 bits the caller names; a local variable that is computed from sizes (not from elements of an
array) is a size too; a loop counter that is compared with a size must be able to reach it. Fewer than 32 bits are too few."""
from . import prog


def sizes(e, is_size):
    """Does the value of e come from a size, other than through an element or a call?"""
    k = e.get('k')
    if is_size(e):
        return True
    if k in ('idx', 'call', 'ctor', 'lambda', 'cond') or e.get('cv') is not None:
        return k == 'cond' and (sizes(e['a'], is_size) or sizes(e['b'], is_size))
    if k == 'bin' and e['op'] in ('&', '%', '&&', '||', '==', '!=', '<', '>', '<=', '>=', '>>', '='):
        return False
    return any(sizes(v, is_size) for n, v in e.items() if n in ('a', 'b', 'e') and isinstance(v, dict))


def check(f, members=(), params=()):
    """[(line, text)] for function f."""
    seen, out = set(), []

    def is_size(e):
        return e.get('k') == 'ref' and e.get('id') in seen or e.get('k') == 'mem' and e['n'] in members

    for p in f.params:
        if p['n'] in params:
            seen.add(p['id'])
    for _ in range(4):
        n = len(seen)
        for x in prog.walk(f.body):
            if x.get('k') == 'decl':
                for v in x['vars']:
                    if v.get('init') and v['t'].isint and sizes(v['init'], is_size):
                        seen.add(v['id'])
                        if (v['t'].w or 64) < 32:
                            out.append((v['init'].get('l', f.line), 'a size is put into %s, which has only %d bits' % (v['n'], v['t'].w)))
        if len(seen) == n:
            break
    for x in prog.walk(f.body):
        if x.get('k') == 'bin' and x['op'] in ('<', '<=', '!=', '>', '>='):
            for a, b in ((x['a'], x['b']), (x['b'], x['a'])):
                c = a
                while c.get('k') in ('cast', 'paren'):
                    c = c['e']
                if c.get('k') == 'ref' and c.get('t') is not None and c['t'].isint and (c['t'].w or 64) < 32 and sizes(b, is_size):
                    out.append((x['l'], '%s has only %d bits and is compared with a size of up to 64' % (c['n'], c['t'].w)))
    return sorted(set(out))
