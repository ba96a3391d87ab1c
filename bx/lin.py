"""Linear forms over symbols and a small Fourier-Motzkin feasibility test."""
from math import gcd


class Lin:
    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0):
        self.c = {s: v for s, v in (c or {}).items() if v}
        self.k = k

    @staticmethod
    def sym(s):
        return Lin({s: 1})

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k + o)
        c = dict(self.c)
        for s, v in o.c.items():
            c[s] = c.get(s, 0) + v
        return Lin(c, self.k + o.k)

    def __neg__(self):
        return Lin({s: -v for s, v in self.c.items()}, -self.k)

    def __sub__(self, o):
        return self + (-o if isinstance(o, Lin) else -o)

    def scale(self, n):
        return Lin({s: v * n for s, v in self.c.items()}, self.k * n)

    def const(self):
        return self.k if not self.c else None

    def subst(self, m):
        out = Lin({}, self.k)
        for s, v in self.c.items():
            r = m.get(s)
            if r is None:
                r = Lin.sym(s)
            elif not isinstance(r, Lin):
                return None
            out = out + r.scale(v)
        return out

    def key(self):
        return (tuple(sorted(((str(s), v) for s, v in self.c.items()))), self.k)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.k == o.k

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        t = []
        for s, v in sorted(self.c.items(), key=lambda x: str(x[0])):
            n = s[1] if isinstance(s, tuple) and len(s) > 1 else s
            t.append(("%+d*%s" % (v, n)) if abs(v) != 1 else ("+" if v > 0 else "-") + str(n))
        if self.k or not t:
            t.append("%+d" % self.k)
        s = "".join(t)
        return s[1:] if s.startswith("+") else s


def _norm(l):
    g = 0
    for v in l.c.values():
        g = gcd(g, abs(v))
    if g > 1:
        return Lin({s: v // g for s, v in l.c.items()}, l.k // g)   # floor: valid over the integers
    return l


def relevant(cons, syms, limit=80):
    syms = set(syms)
    out, left = [], list(cons)
    changed = True
    while changed and len(out) < limit:
        changed = False
        rest = []
        for c in left:
            if syms & set(c.c):
                out.append(c)
                syms |= set(c.c)
                changed = True
            else:
                rest.append(c)
        left = rest
    return out


def infeasible(cons, budget=4000):
    """True when the conjunction of (l >= 0) has no integer solution (sound, incomplete)."""
    cur = {}
    for l in cons:
        l = _norm(l)
        if not l.c:
            if l.k < 0:
                return True
            continue
        k = tuple(sorted(l.c.items(), key=lambda x: str(x[0])))
        if k not in cur or cur[k].k > l.k:
            cur[k] = l
    cs = list(cur.values())
    while True:
        syms = {}
        for l in cs:
            for s, v in l.c.items():
                p = syms.setdefault(s, [0, 0])
                p[v < 0] += 1
        if not syms:
            return False
        s = min(syms, key=lambda x: (syms[x][0] * syms[x][1] - sum(syms[x]), str(x)))
        pos = [l for l in cs if l.c.get(s, 0) > 0]
        neg = [l for l in cs if l.c.get(s, 0) < 0]
        rest = [l for l in cs if not l.c.get(s, 0)]
        if len(pos) * len(neg) + len(rest) > budget:
            return False
        cur = {}
        for l in rest:
            k = tuple(sorted(l.c.items(), key=lambda x: str(x[0])))
            if k not in cur or cur[k].k > l.k:
                cur[k] = l
        for a in pos:
            for b in neg:
                l = _norm(a.scale(-b.c[s]) + b.scale(a.c[s]))
                if not l.c:
                    if l.k < 0:
                        return True
                    continue
                k = tuple(sorted(l.c.items(), key=lambda x: str(x[0])))
                if k not in cur or cur[k].k > l.k:
                    cur[k] = l
        cs = list(cur.values())
        if not cs:
            return False


def entails(cons, goal):
    """cons |= goal >= 0"""
    neg = -goal - 1
    cs = relevant(cons, neg.c) + [neg]
    return infeasible(cs)
