"""What a sequence contains: the events of a path, read as a list of segments.

('el', t)                     one element t
('for', x, lo, hi, t)         t with x = lo .. hi-1 (ascending), x a canonical symbol
('rof', x, lo, hi, t)         the same in descending order
('all', C)                    whatever C held at the start
None                          not understood
"""
from .engine import *
from .engine import Ev, Cond, Loop, Leave

_n = [0]


def X(i=0):
    return ('sym', '_x%d' % i, 0)


def subst(t, a, b):
    """t with the atom a replaced by b (polynomials are renormalised)"""
    if t == a:
        return b
    if isinstance(t, tuple) and t:
        if t[0] == 'poly':
            r = 0
            for m, c in t[1]:
                x = c
                for at in m:
                    x = mul(x, inv(subst(at[1], a, b)) if isinstance(at, tuple) and at[0] == 'inv' else subst(at, a, b))
                r = add(r, x)
            return r
        if t[0] in ('sym', 'v', 'this', 'str', 'float'):
            return t
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def coef(t, x):
    """t == c*x + r with c an integer, r free of x  ->  (c, r)"""
    c, r = 0, {}
    for m, k in poly(t).items():
        if m == (x,):
            c = k
        else:
            r[m] = k
    r = mk(r)
    if any(s == x for s in subterms(r)):
        return None
    return c, r


def counters(L):
    """loop variables stepping by one:  decl -> (symbol, first value, +1/-1)"""
    out = {}
    cont = [q for q in L.paths if q.exit in ('n', 'c')]
    for d, (nm, sy) in L.syms.items():
        s0 = L.start.get(d)
        if s0 is None or not cont:
            continue
        it = isinstance(s0, tuple) and s0 and s0[0] == 'it'
        st = set()
        for q in cont:
            v = q.env.get(d)
            if it:
                v = v[2] if isinstance(v, tuple) and v and v[0] == 'it' else None
            st.add(None if v is None else sub(v, sy))
        if len(st) == 1:
            s = st.pop()
            if is_num(s) and s != 0:
                out[d] = (sy, s0[2] if it else s0, s)
    return out


def trip(L):
    """(symbol, lo, hi, step, exact): the loop runs with symbol = lo, lo+step, .. below hi
    (or from hi-1 down to lo for step -1); None when unknown"""
    if L.kind == 'rfor':
        return (L.var, 0, ('size', unld(L.rng), 0), 1)
    cs = counters(L)
    for q in L.exit:
        cc = [it for it in q.trace if isinstance(it, Cond)]
        if len(cc) != 1:
            continue
        c = cc[0]
        t = c.t
        if t[0] != 'cmp':
            continue
        op, a, b = t[1], unld(t[2]), unld(t[3])
        for d, (sy, s0, st) in cs.items():
            s0 = unld(s0)
            ca, cb = coef(a, sy), coef(b, sy)
            if ca is None or cb is None:
                continue
            # the loop condition is the negation of the exit condition
            if op == '<':
                if c.pol:                                    # leaves when a < b: goes on while b < a + 1
                    ca, cb = cb, (ca[0], add(ca[1], 1))
                k, r = ca[0] - cb[0], sub(cb[1], ca[1])     # k*sy < r continues
                if st > 0 and k == 1:
                    return (sy, s0, r, st)
                if st == -1 and k == -1:                     # sy > -r
                    return (sy, add(neg(r), 1), add(s0, 1), -1)
            elif op == '==' and c.pol:
                k = ca[0] - cb[0]
                r = sub(cb[1], ca[1]) if k == 1 else sub(ca[1], cb[1]) if k == -1 else None
                if r is None:
                    continue
                if st == 1:
                    return (sy, s0, r, 1)
                if st == -1:
                    return (sy, add(r, 1), add(s0, 1), -1)
    return None


def lock(L, t, tr=None):
    """t with every counter of the loop written in terms of the counter that bounds it"""
    tr = tr or trip(L)
    if tr is None:
        return t
    t = unld(t)
    for d, (sy, s0, st) in counters(L).items():
        if sy != tr[0] and st in (1, -1) and tr[3] in (1, -1):
            n = sub(tr[0], tr[1]) if tr[3] == 1 else sub(sub(tr[2], 1), tr[0])
            t = subst(t, sy, add(unld(s0), n if st == 1 else neg(n)))
    return t


def visits(L, t):
    """the set of values of the affine index t over the loop: (lo, hi, direction) or None"""
    tr = trip(L)
    if tr is None:
        return None
    sy, lo, hi, st = tr
    c = coef(lock(L, t, tr), sy)
    if c is None or abs(c[0]) != 1 or abs(st) != 1:
        return None
    if c[0] == 1:
        return add(lo, c[1]), add(hi, c[1]), st
    return add(sub(c[1], hi), 1), add(sub(c[1], lo), 1), -st


def shift(seg, by):
    k, x, lo, hi, t = seg
    return (k, x, add(lo, by), add(hi, by), subst(t, x, sub(x, by)))


def seg(lo, hi, t, x, down=False):
    """canonical segment"""
    return ('rof' if down else 'for', X(), unld(lo), unld(hi), unld(subst(unld(t), x, X())))


def rng(C, lo=0, hi=None):
    C = unld(C)
    return ('for', X(), unld(lo), ('size', C, 0) if hi is None else unld(hi), ('ix', C, X()))


def length(segs):
    if segs is None:
        return None
    n = 0
    for s in segs:
        if s[0] == 'el':
            n = add(n, 1)
        elif s[0] in ('for', 'rof'):
            n = add(n, sub(s[3], s[2]))
        elif s[0] == 'all':
            n = add(n, ('size', s[1], 0))
        else:
            return None
    return n


def norm(segs):
    """join adjacent runs, drop empty ones"""
    if segs is None:
        return None
    out = []
    for s in segs:
        if s[0] in ('for', 'rof'):
            if s[2] == s[3]:
                continue
            if sub(s[3], s[2]) == 1:
                s = ('el', subst(s[4], X(), s[2]))
        out.append(s)
    ch = True
    while ch:
        ch = False
        for i in range(len(out) - 1):
            a, b = out[i], out[i + 1]
            if a[0] == 'for' and b[0] == 'for' and a[4] == b[4] and a[3] == b[2]:
                out[i:i + 2] = [('for', X(), a[2], b[3], a[4])]
            elif a[0] == 'for' and b[0] == 'el' and subst(a[4], X(), a[3]) == b[1]:
                out[i:i + 2] = [('for', X(), a[2], add(a[3], 1), a[4])]
            elif a[0] == 'el' and b[0] == 'for' and subst(b[4], X(), sub(b[2], 1)) == a[1]:
                out[i:i + 2] = [('for', X(), sub(b[2], 1), b[3], b[4])]
            else:
                continue
            ch = True
            break
    return out


def slice_(segs, lo, hi):
    """elements lo..hi-1 of a sequence made of one run (or the whole)"""
    segs = norm(segs)
    if segs is None:
        return None
    if lo == 0 and hi == length(segs):
        return segs
    if len(segs) == 1 and segs[0][0] == 'for':
        _, x, a, b, t = segs[0]
        return [('for', x, add(a, lo), add(a, hi), t)]
    return None


class Seqs:
    """replays events and keeps the content of every sequence it understands"""

    def __init__(self, const=lambda C: True):
        self.env = {}
        self.const = const

    def get(self, C):
        C = unld(C)
        if C in self.env:
            return self.env[C]
        v = self.value(C)
        if v is not None:
            return v
        for k in self.env:
            if self.related(k, C):
                return None
        return [('all', C)]

    def related(self, a, b):
        """could one be (part of) the other"""
        ra, rb = root(a), root(b)
        if ra != rb:
            return False
        return self.part(a, b) or self.part(b, a)

    def part(self, a, b):
        while isinstance(b, tuple) and b and b[0] in ('f', 'ix', 'ld'):
            if b == a:
                return True
            b = b[1]
        return a == b

    def runs(self, segs):
        """'all' as an index run"""
        return None if segs is None else [rng(s[1]) if s[0] == 'all' else s for s in segs]

    def value(self, t):
        """content of a value term"""
        t = unld(t)
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == 'list':
            return [('el', x) for x in t[1]]
        if t[0] == 'app' and t[1] in ('new std::vector', 'std::vector'):
            a = [x for x in t[2] if not (isinstance(x, tuple) and x and x[0] == 'app' and 'allocator' in x[1])]
            if not a:
                return []
            if len(a) == 2 and all(isinstance(x, tuple) and x and x[0] == 'it' for x in a) and a[0][1] == a[1][1]:
                return slice_(self.runs(self.get(a[0][1])), a[0][2], a[1][2])
            if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'list':
                return [('el', x) for x in a[0][1]]
            if len(a) == 1 and (is_num(a[0]) or isinstance(a[0], tuple) and a[0][0] in ('size', 'sym', 'poly')):
                return [('for', X(), 0, a[0], 0)]
            if len(a) == 1:
                return None
            if len(a) == 2:
                return [('for', X(), 0, a[0], a[1])]
            return None
        return None

    def smash(self, C):
        C = unld(C)
        for k in list(self.env):
            if k == C or self.related(k, C):
                self.env[k] = None
        self.env[C] = None

    def run(self, items):
        for it in items:
            self.item(it)
        return self

    def item(self, it):
        if isinstance(it, Loop):
            return self.loop(it)
        if isinstance(it, Leave):
            return
        if not isinstance(it, Ev):
            return
        n = it.name.split('::')[-1]
        if it.k == 'set':
            if it.name in ('init', ':=', 'init:=') or True:
                o = unld(it.obj)
                v = it.args[0] if it.args else None
                if v is not None:
                    c = self.value(v)
                    if c is None and isinstance(v, tuple) and v and unld(v)[0] in ('v', 'f', 'ix') and it.name == 'init':
                        c = self.get(v)
                    if c is not None:
                        for k in list(self.env):
                            if k != o and self.part(o, k):
                                self.env[k] = None
                        self.env[o] = c
                        return
                if isinstance(o, tuple) and o[0] == 'ix':
                    b = unld(o[1])
                    segs = self.env.get(b, 'no')
                    if segs != 'no':
                        self.env[b] = self.point(segs, o[2], unld(v) if v is not None else None)
                        return
                    if self.tracked(b):
                        self.env[b] = self.point(self.runs(self.get(b)), o[2], unld(v) if v is not None else None)
                        return
                if v is not None and o in self.env:
                    self.env[o] = self.get(v) if isinstance(v, tuple) and v and unld(v)[0] in ('v', 'f', 'ix') else None
                    return
                self.smash_known(o)
            return
        if it.k == 'pure' and n == 'copy' and len(it.args) == 3:
            b, e, d = (unld(x) for x in it.args)
            return self.copy(b, e, d)
        if it.k in ('pure',):
            return
        if it.k == 'call':
            C = unld(it.obj) if it.obj is not None else None
            if it.name.startswith('std::') and C is not None:
                return self.std(n, C, it.args)
            if n == 'copy' and len(it.args) == 3:
                b, e, d = (unld(x) for x in it.args)
                return self.copy(b, e, d)
            if it.name.startswith('std::') and n in ('back_inserter', 'inserter', 'move', 'forward'):
                return
            # an unknown callee may change its mutable arguments
            for a in it.args:
                a = unld(a)
                if isinstance(a, tuple) and a and a[0] == 'it':
                    a = a[1]
                if isinstance(a, tuple) and a and a[0] in ('v', 'f', 'ix') and a in self.env and not self.const(a):
                    self.smash_known(a)

    def tracked(self, b):
        return True

    def smash_known(self, o):
        for k in list(self.env):
            if self.related(k, o):
                self.env[k] = None

    def point(self, segs, i, v):
        """segs with position i replaced by v"""
        segs = norm(segs)
        if segs is None or v is None:
            return None
        off = 0
        i = unld(i)
        for n, s in enumerate(segs):
            if s[0] == 'all':
                s = rng(s[1])
            if s[0] == 'el':
                if i == off:
                    return segs[:n] + [('el', v)] + segs[n + 1:]
                if not is_num(sub(i, off)):
                    return None
                off = add(off, 1)
                continue
            if s[0] == 'for':
                _, x, lo, hi, t = s
                p = add(sub(i, off), lo)
                ps, rest = poly(sub(i, off)), 0
                inside = True if (n == len(segs) - 1 and all(z[0] in ('all', 'for') for z in segs)) else None
                # a symbolic position: inside the run when it is not one of the single elements
                d = sub(p, lo)
                e = sub(sub(hi, 1), p)
                if is_num(d) and d < 0 or is_num(e) and e < 0:
                    off = add(off, sub(hi, lo))
                    continue
                if is_num(d) and d >= 0 or len(segs) == 1 or is_num(e) and e >= 0:
                    return segs[:n] + [('for', x, lo, p, t), ('el', v), ('for', x, add(p, 1), hi, t)] + segs[n + 1:]
                return None
            return None
        return None

    def copy(self, b, e, d):
        def dest(C, at):
            if b and isinstance(b, tuple) and b[0] == 'it' and isinstance(e, tuple) and e[0] == 'it' and b[1] == e[1]:
                s = slice_(self.runs(self.get(b[1])), b[2], e[2])
                if at is None:
                    cur = self.get(C)
                    self.env[C] = None if cur is None or s is None else cur + s
                    return
                if at == 0 and s is not None:
                    n, m = self.size(C), length(s)
                    if n == m or n is None:
                        self.env[C] = s if n == m else None
                        return
            self.env[C] = None
        if isinstance(d, tuple) and d and d[0] == 'app' and d[1] == 'std::back_inserter':
            return dest(unld(d[2][0]), None)
        if isinstance(d, tuple) and d and d[0] == 'it':
            return dest(unld(d[1]), d[2])

    def size(self, C):
        if C in self.sizes:
            return self.sizes[C]
        return length(self.env.get(C))

    sizes = {}

    def std(self, n, C, args):
        a = [unld(x) for x in args]
        if n == 'clear':
            self.env[C] = []
            self.sizes = dict(self.sizes)
            self.sizes.pop(C, None)
        elif n in ('emplace_back', 'push_back') and len(a) == 1:
            cur = self.get(C)
            self.env[C] = None if cur is None else cur + [('el', a[0])]
        elif n == 'resize':
            self.sizes = dict(self.sizes)
            self.sizes[C] = a[0]
            cur = self.get(C)
            if cur == []:
                self.env[C] = [('for', X(), 0, a[0], a[1] if len(a) > 1 else 0)]
            elif a[0] == length(cur):
                pass
            elif a[0] == 0:
                self.env[C] = []
            else:
                self.env[C] = None
        elif n == 'assign' and len(a) == 2:
            if isinstance(a[0], tuple) and a[0][0] == 'it' and isinstance(a[1], tuple) and a[1][0] == 'it' and a[0][1] == a[1][1]:
                self.env[C] = slice_(self.runs(self.get(a[0][1])), a[0][2], a[1][2])
            else:
                self.env[C] = [('for', X(), 0, a[0], a[1])]
        elif n == 'insert' and len(a) == 3 and isinstance(a[0], tuple) and a[0][0] == 'it' and a[0][1] == C:
            cur = self.get(C)
            s = None
            if isinstance(a[1], tuple) and a[1] and a[1][0] == 'it' and isinstance(a[2], tuple) and a[2][0] == 'it' and a[1][1] == a[2][1]:
                s = slice_(self.runs(self.get(a[1][1])), a[1][2], a[2][2])
            if cur is None or s is None:
                self.env[C] = None
            elif a[0][2] == ('size', C, 0) or a[0][2] == length(cur):
                self.env[C] = cur + s
            elif a[0][2] == 0:
                self.env[C] = s + cur
            else:
                self.env[C] = None
        elif n == 'erase' and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'it' and a[0][1] == C:
            cur = self.runs(norm(self.get(C)))
            if cur is not None and len(cur) == 1 and cur[0][0] == 'for':
                _, x, lo, hi, t = cur[0]
                p = add(lo, a[0][2])
                self.env[C] = [('for', x, lo, p, t), ('for', x, add(p, 1), hi, t)]
            else:
                self.env[C] = None
        elif n == 'pop_back':
            cur = self.get(C)
            self.env[C] = cur[:-1] if cur and cur[-1][0] == 'el' else None
        elif n in ('reserve', 'shrink_to_fit', 'begin', 'end', 'size', 'capacity', 'at', 'back', 'front', 'empty', 'count', 'find'):
            pass
        elif C in self.env or n in ('swap', 'operator='):
            self.smash_known(C)
            self.env[C] = None

    def loop(self, L):
        cont = [q for q in L.paths if q.exit in ('n', 'c')]
        brk = [q for q in L.paths if q.exit == 'b']
        tr = trip(L)
        touched = set()
        for q in L.paths:
            for it in deep(q.trace):
                if isinstance(it, Ev) and it.obj is not None and it.k in ('set', 'call'):
                    o = unld(it.obj)
                    if it.k == 'set' and isinstance(o, tuple) and o[0] == 'ix' and it.name != 'init':
                        touched.add(unld(o[1]))
                        touched.add(o)
                    else:
                        touched.add(o)
                if isinstance(it, Ev) and it.name.split('::')[-1] == 'copy' and len(it.args) == 3:
                    d = unld(it.args[2])
                    if isinstance(d, tuple) and d[0] == 'app' and d[2]:
                        touched.add(unld(d[2][0]))
                    elif isinstance(d, tuple) and d[0] == 'it':
                        touched.add(unld(d[1]))
        touched = {o for o in touched if isinstance(o, tuple)}
        pend = {}
        for C in touched:
            pend[C] = self.loopeff(L, C, tr, cont, brk)
        for C, e in pend.items():
            if e is None:
                if C in self.env or True:
                    for k in list(self.env):
                        if k != C and self.part(C, k):
                            self.env[k] = None
                    self.env[C] = None
            elif e == 'same':
                pass
            else:
                cur = self.get(C)
                if e[0] == 'push':
                    self.env[C] = None if cur is None else cur + e[1]
                elif e[0] == 'put':
                    _, lo, hi, s = e
                    n = self.size(C) if self.size(C) is not None else length(cur)
                    self.env[C] = [s] if lo == 0 and n is not None and hi == n else None

    def loopeff(self, L, C, tr, cont, brk):
        """effect of the loop on C: 'same', ('push', segs), ('put', lo, hi, seg), None"""
        if not tr or brk or len(L.exit) > 1 or not cont or abs(tr[3]) != 1:
            return None
        sy, lo, hi, st = tr
        effs = []
        for q in cont:
            ev = []
            for it in deep(q.trace):
                if isinstance(it, Loop):
                    continue
                if isinstance(it, Ev) and it.k in ('set', 'call') and it.obj is not None and (unld(it.obj) == C or it.k == 'set' and it.name != 'init' and unld(it.obj)[0] == 'ix' and unld(unld(it.obj)[1]) == C):
                    ev.append((it, it in q.trace))
            effs.append((q, ev))
        if all(not ev for _, ev in effs):
            return None
        busy = [(q, ev) for q, ev in effs if ev]
        if len(busy) == 1:
            q, ev = busy[0]
            if len(ev) == 1 and ev[0][1]:
                it = ev[0][0]
                n = it.name.split('::')[-1]
                others = [o for o, e in effs if o is not q]
                cc = [c for c in q.trace if isinstance(c, Cond)]
                extra = [c for c in cc if not headcond(c, L)]
                skip = None
                if others:
                    # one element left out:  if (j != e) push
                    if len(others) == 1 and len(extra) == 1 and extra[0].t[0] == 'cmp' and extra[0].t[1] == '==' and not extra[0].pol:
                        a = sub(unld(extra[0].t[2]), unld(extra[0].t[3]))
                        c = coef(a, sy)
                        if c and abs(c[0]) == 1:
                            skip = neg(c[1]) if c[0] == 1 else c[1]
                    if skip is None:
                        return None
                if it.k == 'call' and n in ('emplace_back', 'push_back') and len(it.args) == 1:
                    t = lock(L, it.args[0], tr)
                    if self.stale(t, L, sy):
                        return None
                    if st == 1:
                        if skip is not None:
                            return ('push', [seg(lo, skip, t, sy), seg(add(skip, 1), hi, t, sy)])
                        return ('push', [seg(lo, hi, t, sy)])
                    if skip is None:
                        return ('push', [seg(lo, hi, t, sy, True)])
                if it.k == 'set' and it.name != 'init' and skip is None and not others:
                    i = lock(L, unld(it.obj)[2], tr) if unld(it.obj)[0] == 'ix' else None
                    v = lock(L, it.args[0], tr) if it.args else None
                    if i is not None and v is not None and not self.stale(v, L, sy):
                        c = coef(i, sy)
                        if c and c[0] == 1:
                            return ('put', add(lo, c[1]), add(hi, c[1]), seg(add(lo, c[1]), add(hi, c[1]), subst(v, sy, sub(sy, c[1])), sy))
                        if c and c[0] == -1:
                            a, b = add(sub(c[1], hi), 1), add(sub(c[1], lo), 1)
                            return ('put', a, b, seg(a, b, subst(v, sy, sub(c[1], sy)), sy))
        return None

    def stale(self, t, L, sy):
        """does the term depend on other loop variables"""
        own = {s for _, (nm, s) in L.syms.items()}
        return any(s in own and s != sy for s in subterms(t))


def headcond(c, L):
    """is c the loop condition itself"""
    for q in L.exit:
        for x in q.trace:
            if isinstance(x, Cond) and x.t == c.t and x.pol != c.pol:
                return True
    return False


def deep(items):
    for it in items:
        yield it
        if isinstance(it, Loop):
            for q in it.paths:
                yield from deep(q.trace)


def without(segs, C):
    """segs == C minus one index -> the index"""
    segs = norm(segs)
    C = unld(C)
    if segs is None:
        return None
    n = ('size', C, 0)
    t = ('ix', C, X())
    runs = [rng(s[1]) if s[0] == 'all' else s for s in segs]
    if any(s[0] != 'for' or s[4] != t for s in runs):
        return None
    if len(runs) == 2 and runs[0][2] == 0 and runs[1][3] == n and runs[1][2] == add(runs[0][3], 1):
        return runs[0][3]
    return False


def eqs(a, b):
    """True / False / None"""
    a, b = norm(a), norm(b)
    if a is None or b is None:
        return None
    a = [rng(s[1]) if s[0] == 'all' else s for s in a]
    b = [rng(s[1]) if s[0] == 'all' else s for s in b]
    return norm(a) == norm(b)


def shows(segs):
    if segs is None:
        return '?'
    o = []
    for s in norm(segs):
        if s[0] == 'el':
            o.append(show(s[1]))
        elif s[0] == 'all':
            o.append('*' + show(s[1]))
        else:
            o.append('%s(%s for %s in [%s,%s))' % ('' if s[0] == 'for' else 'reversed', show(s[4]), show(s[1]), show(s[2]), show(s[3])))
    return '[' + ', '.join(o) + ']'
