"""Folds: the set of terms a value is the minimum or maximum of, through nested loops and forks."""
from .engine import *
from .engine import Ev, Cond, Loop, Leave
from .seqs import subst, trip
from fractions import Fraction

DROPPED = []     # (loop, candidate, path): better candidates that a path does not take


def dropped():
    out = list(DROPPED)
    DROPPED.clear()
    return out


NEUTRAL = {'max': ('lowest', '-inf'), 'min': ('max',)}


def loopmap(paths, out=None):
    """head symbol -> (loop, decl)"""
    out = {} if out is None else out
    for p in paths:
        for it in p.trace:
            if isinstance(it, Loop):
                for d, (nm, sy) in it.syms.items():
                    out.setdefault(sy, (it, d))
                loopmap(it.paths, out)
    return out


def order(q, a, b):
    """-1/0/1/None: what the path knows about a and b"""
    r = None
    for it in q.trace:
        if isinstance(it, Cond) and isinstance(it.t, tuple) and it.t[0] == 'cmp':
            x, y = unld(it.t[2]), unld(it.t[3])
            if {key(x), key(y)} != {key(a), key(b)} or x == y:
                continue
            if it.t[1] == '<':
                if it.pol:
                    r = -1 if x == a else 1
                else:
                    r = 1 if x == a else -1       # ties: either value is the same
            elif it.t[1] == '==' and it.pol:
                r = 0
    return r


def fold(t, loops, seen=None):
    """(operation, set of folded terms) or None; operation is None for a single term"""
    seen = set() if seen is None else seen
    t = unld(t)
    if isinstance(t, tuple) and t:
        if t[0] == 'app' and t[1].split('::')[-1] in ('max', 'min') and len(t[2]) == 2:
            op = t[1].split('::')[-1]
            out = set()
            for a in t[2]:
                r = fold(a, loops, seen)
                if r is None or r[0] not in (None, op):
                    return None
                out |= r[1]
            return op, out
        if t[0] == 'app' and t[1].split('::')[-1] in ('max', 'min') and len(t[2]) == 1:
            x = unld(t[2][0])
            if isinstance(x, tuple) and x and x[0] in ('new', 'app') and len(x[2]) >= 1 and isinstance(x[2][0], tuple) and x[2][0] and x[2][0][0] == 'list':
                x = x[2][0]
            if not (isinstance(x, tuple) and x and x[0] == 'list'):
                return None
            op, out = t[1].split('::')[-1], set()
            for a in x[1]:
                r = fold(a, loops, seen)
                if r is None or r[0] not in (None, op):
                    return None
                out |= r[1]
            return op, out
        if t in loops:
            if t in seen:
                return None, set()
            seen = seen | {t}
            L, d = loops[t]
            out, op = set(), None
            r = fold(L.start[d], loops, seen)
            if r is None:
                return None
            op = r[0]
            out |= r[1]
            for q in L.paths:
                if q.exit not in ('n', 'c'):
                    continue
                nx = unld(q.env.get(d))
                r = fold(nx, loops, seen)
                if r is None:
                    return None
                o = r[0]
                if o is None and r[1] and nx != t:
                    # assignment of one term under a comparison with the old value
                    x = next(iter(r[1]))
                    c = order(q, t, x)
                    o = {-1: 'max', 1: 'min'}.get(c)
                    if o is None:
                        return None
                    # the path that keeps the old value has to exist for the same term
                if op is not None and o is not None and o != op:
                    return None
                op = op or o
                out |= r[1]
            # a path that keeps the value must have a reason
            for q in L.paths:
                if q.exit in ('n', 'c') and unld(q.env.get(d)) == t and op:
                    fs = [x for x in out if order(q, t, x) is not None]
                    for x in fs:
                        if order(q, t, x) == (-1 if op == 'max' else 1):
                            # the comparison asked for the candidate, another test refuses it
                            if all(isinstance(it.t, tuple) and it.t[0] == 'cmp' for it in q.trace if isinstance(it, Cond)):
                                DROPPED.append((L, x, q))
                            return None
                    if not fs and any(isinstance(it, Cond) for it in q.trace) and not any(isinstance(it, Loop) for it in q.trace):
                        return None
            return op, expand(out, L)
    return None, {t}


def expand(ts, L):
    """terms with the variable of a loop over a constant list replaced by every value"""
    rng = unld(L.rng) if L.rng is not None else None
    vals = None
    if isinstance(rng, tuple) and rng and rng[0] == 'list':
        vals = rng[1]
    elif isinstance(rng, tuple) and rng and rng[0] in ('new', 'app') and rng[2] and isinstance(rng[2][0], tuple) and rng[2][0][0] == 'list':
        vals = rng[2][0][1]
    if vals is None:
        tr = trip(L) if rng is None else None
        if tr and all(isinstance(x, (int, Fraction)) and not isinstance(x, bool) for x in tr[1:]) and tr[3] and 0 < (tr[2] - tr[1]) / tr[3] <= 16:
            vs = []
            x = tr[1]
            while (x < tr[2]) if tr[3] > 0 else (x > tr[2]):
                vs.append(x)
                x += tr[3]
            out = set()
            for t in ts:
                for v in (vs if any(s == tr[0] for s in subterms(t)) else [None]):
                    out.add(t if v is None else subst(t, tr[0], v))
            return out
        return set(ts)
    el = ('ix', rng, L.var)
    out = set()
    for t in ts:
        if any(s == el for s in subterms(t)):
            for v in vals:
                out.add(subst(t, el, v))
        else:
            out.add(t)
    return out


def neutral(t):
    """is t a numeric limit: returns its name"""
    if isinstance(t, tuple) and t and t[0] == 'app' and 'numeric_limits' in t[1]:
        return t[1].split('::')[-1]
    if isinstance(t, tuple) and t and t[0] == 'poly':
        m = dict(t[1])
        if len(m) == 1:
            (k, c), = m.items()
            if c == -1 and len(k) == 1 and neutral(k[0]) == 'max':
                return 'lowest'
            if c == -1 and len(k) == 1 and neutral(k[0]) == 'infinity':
                return '-inf'
    return None


def extremum(t, loops):
    """(op, leaves, ok) with the neutral start removed; ok is False for a start that is not neutral"""
    r = fold(t, loops)
    if r is None:
        return None
    op, ts = r
    lim = {x: neutral(x) for x in ts if neutral(x)}
    out = ts - set(lim)
    good = {'max': ('lowest', '-inf'), 'min': ('max', 'infinity')}
    ok = all(n in good.get(op, ()) for n in lim.values())
    return op, out, ok
