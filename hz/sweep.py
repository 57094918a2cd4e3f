"""Loops that go over an array: which positions they visit, in which order, and what they store there."""
from .terms import *


def subst(t, k, v):
    """t with the counter k replaced by v (only in linear positions)."""
    kk, items = lin(t)
    r = c(kk)
    for a, n in items:
        r = add(r, scale(v if a is k else a, n))
    return r


def coeff(t, k):
    return dict(lin(t)[1]).get(k, 0)


def depends(t, k):
    """Does k occur in t other than linearly?"""
    return any(a is not k and occurs(a, k) for a, n in lin(t)[1])


def occurs(t, k):
    if t is k:
        return True
    for x in t.a:
        if isinstance(x, T):
            if occurs(x, k):
                return True
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T) and occurs(y, k) or isinstance(y, tuple) and any(isinstance(z, T) and occurs(z, k) for z in y):
                    return True
    return False


def covers(s, ev, idx, lo, hi):
    """In state s, after the loop, idx has taken every value from lo up to, not including, hi."""
    d = coeff(idx, ev.kvar)
    if d not in (1, -1) or depends(idx, ev.kvar):
        return False
    a, b = subst(idx, ev.kvar, ZERO), subst(idx, ev.kvar, sub(ev.trips, ONE))
    if d < 0:
        a, b = b, a
    D = s.facts.decide
    if D(le(hi, lo)) is True:
        return True
    return D(le(a, lo)) is True and D(le(sub(hi, ONE), b)) is True


def inside(s, idx, lo, hi):
    return s.facts.decide(le(lo, idx)) is True and s.facts.decide(lt(idx, hi)) is True


def conts(ev):
    return [(s, s0, evs) for (k, evs, s), s0 in zip(ev.body, ev.starts) if k == 'cont']


def carried(ev):
    """Variables that every round sets: {term at the start of a round: (value set in the round, value before the loop)}."""
    r = {}
    cs = conts(ev)
    for l in ev.pre:
        vals = [s.mem.get(l) for s, _, _ in cs]
        if any(v is None for v in vals):
            continue
        for s, s0, _ in cs:
            t = s0.mem.get(l)
            if t is not None and t.op != 'c':
                r[t] = (l, vals, ev.pre[l])
    return r
