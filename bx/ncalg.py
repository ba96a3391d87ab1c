"""Non-commutative polynomials over matrices, and a replay of matrix code into them.

A letter is (name, t, j, i, kind): the matrix `name`, transposed (t), conjugated by the exchange matrix (j),
inverted (i).  Transposition and inversion reverse products, conjugation keeps them; the three commute with one
another.  kind 'p' is a permutation: its inverse is its transpose.  A polynomial is {word: integer}.  Matrices
that the replay cannot follow become fresh letters, so equalities are only ever claimed between what is known."""
from .engine import *
from .engine import Ev, Cond, Loop, Leave
import itertools

_n = itertools.count(1)
ONE = {(): 1}
ZERO = {}


def letter(name, kind=''):
    return {((name, 0, 0, 0, kind),): 1}


def fresh(what, kind=''):
    return letter('%s#%d' % (what, next(_n)), kind)


def _cancel(w):
    out = []
    for l in w:
        if l[4] == 'p' and l[3]:
            l = (l[0], 1 - l[1], l[2], 0, 'p')
        if out:
            k = out[-1]
            if k[0] == l[0] and k[2] == l[2] and (k[4] == 'p' and k[1] != l[1] or k[4] != 'p' and k[1] == l[1] and k[3] != l[3]):
                out.pop()
                continue
        out.append(l)
    return tuple(out)


def norm(p):
    out = {}
    for w, c in p.items():
        w = _cancel(w)
        out[w] = out.get(w, 0) + c
    return {w: c for w, c in out.items() if c}


def nmul(a, b):
    if a is None or b is None:
        return None
    out = {}
    for u, x in a.items():
        for v, y in b.items():
            w = _cancel(u + v)
            out[w] = out.get(w, 0) + x * y
    return {w: c for w, c in out.items() if c}


def nadd(a, b, s=1):
    if a is None or b is None:
        return None
    out = dict(a)
    for w, c in b.items():
        out[w] = out.get(w, 0) + s * c
    return {w: c for w, c in out.items() if c}


def nT(a):
    return None if a is None else norm({tuple((n, 1 - t, j, i, k) for n, t, j, i, k in reversed(w)): c for w, c in a.items()})


def nJ(a):
    return None if a is None else {tuple((n, t, 1 - j, i, k) for n, t, j, i, k in w): c for w, c in a.items()}


def ninv(a):
    if a is None or len(a) != 1:
        return None
    (w, c), = a.items()
    if c not in (1, -1):
        return None
    return norm({tuple((n, t, j, 1 - i, k) for n, t, j, i, k in reversed(w)): c})


def prod(*xs):
    r = ONE
    for x in xs:
        r = nmul(r, x)
    return r


def showp(p):
    if p is None:
        return '?'
    out = []
    for w, c in sorted(p.items(), key=str):
        s = ' '.join(n.split('#')[0] + (('^' + 'T' * t + 'J' * j + '-1' * i) if t or j or i else '') for n, t, j, i, k in w) or 'I'
        out.append(('' if c == 1 else '-' if c == -1 else '%d ' % c) + s)
    return ' + '.join(out) or '0'


def single(p):
    """the letter of a one letter polynomial"""
    if p is not None and len(p) == 1:
        (w, c), = p.items()
        if c == 1 and len(w) == 1:
            return w[0]
    return None


FIELDS = ('L', 'E', 'U', 'P')


class Replay:
    """follows the matrices of one path.  init: location -> polynomial; shape: letter name -> 'l'/'u'"""

    def __init__(self, init=None, shape=None, hooks=None):
        self.loc = dict(init or {})
        self.memo = {}
        self.shape = dict(shape or {})
        self.same = []          # (structure, product as polynomial) established by a factorization
        self.msgs = []
        self.lost = []
        self.hooks = hooks or {}
        self.nuse = 0
        self.dims = {}          # location -> argument of the identity stored there

    # ---- values
    def get(self, t):
        if isinstance(t, tuple) and t in self.memo:
            return self.memo[t]
        s = strip_ld(t)
        if isinstance(s, tuple) and s in self.memo:
            return self.memo[s]
        if isinstance(s, tuple) and s and s[0] == 'tup':
            return {k: self.get(v) for k, v in s[1]}
        if isinstance(s, tuple) and s and s[0] in ('f', 'ix', 'v', 'this'):
            if s[0] == 'f' and s[2] in FIELDS:
                for b in (s[1], strip_ld(s[1])):
                    if isinstance(b, tuple) and isinstance(self.memo.get(b), dict) and s[2] in self.memo[b]:
                        return self.memo[b][s[2]]
            s = unld(s)
            if s in self.loc:
                return self.loc[s]
            sub = {f: self.loc[('f', s, f)] for f in FIELDS if ('f', s, f) in self.loc}
            if sub:
                return {f: sub.get(f) for f in FIELDS}
            self.loc[s] = letter(show(s))
            return self.loc[s]
        return None

    def mat(self, t):
        v = self.get(t)
        return v if v is None or not (set(v) & set(FIELDS)) else None

    def put(self, loc, v):
        loc = unld(strip_ld(loc))
        for k in [k for k in self.loc if k != loc and prefix_alias(loc, k)]:
            del self.loc[k]
        if isinstance(v, dict) and v and set(v) <= set(FIELDS) | {None}:
            for f in FIELDS:
                self.loc[('f', loc, f)] = v.get(f)
        else:
            self.loc[loc] = v

    def isshape(self, p, want):
        """True / False / None: is the polynomial lower ('l') / upper ('u') triangular"""
        if p is None:
            return None
        if p == ONE:
            return True
        if len(p) != 1:
            return None
        (w, c), = p.items()
        got = set()
        for n, t, j, i, k in w:
            s = self.shape.get(n)
            if s is None:
                return None
            got.add(s if (t + j) % 2 == 0 else {'l': 'u', 'u': 'l'}.get(s, s))
        return got == {want}

    def factor(self, A, line):
        L, E, U, P = fresh('L'), fresh('E'), fresh('U'), fresh('P', 'p')
        self.shape[single(L)[0]] = 'l'
        self.shape[single(U)[0]] = 'u'
        v = dict(L=L, E=E, U=U, P=P)
        self.same.append((prod(L, E, U, P), A))
        return v

    # ---- operations
    def op(self, name, obj, args, ev):
        n = name.split('::')[-1]
        if n in self.hooks:
            return self.hooks[n](self, obj, args, ev)
        if n in ('T', 'transpose') and obj is not None and not args:
            return nT(self.mat(obj))
        if n == 'J_conjugation' and not args:
            return nJ(self.mat(obj))
        if n in ('u_inv', 'l_inv') and len(args) == 1:
            x = self.mat(args[0])
            s = self.isshape(x, n[0])
            if s is False:
                self.msgs.append((ev.line, '%s is applied to a matrix of the other triangular shape (%s)' % (n, showp(x))))
            return ninv(x)
        if n == 'inv' and len(args) == 1:
            return ninv(self.mat(args[0]))
        if n in ('u_solve', 'l_solve', 'ut_solve') and len(args) == 2:
            return nmul(ninv(self.mat(args[0])), self.mat(args[1]))
        if n == 'identity':
            return dict(ONE)
        if n == 'operator*' and obj is not None and len(args) == 1:
            return nmul(self.mat(obj), self.mat(args[0]))
        if n == 'operator*' and obj is None and len(args) == 2:
            return nmul(self.mat(args[0]), self.mat(args[1]))
        if n in ('operator-', 'operator+'):
            a = ([obj] if obj is not None else []) + list(args)
            if len(a) == 2:
                return nadd(self.mat(a[0]), self.mat(a[1]), -1 if n == 'operator-' else 1)
            if len(a) == 1 and n == 'operator-':
                return nadd({}, self.mat(a[0]), -1)
        if n == 'EL_L_commute' and len(args) == 2:
            e = self.mat(args[0])
            return prod(e, self.mat(args[1]), ninv(e))
        if n in ('LEUP', 'LQU') and len(args) == 1:
            A = self.mat(args[0])
            v = self.factor(A, ev.line)
            if n == 'LQU':
                e = single(v['E'])
                v['E'] = {((e[0], 0, 0, 0, 'p'),): 1}
                self.same[-1] = (prod(v['L'], v['E'], v['U']), A)
                v['P'] = None
            return v
        return None

    def mutated(self, ev):
        """anything else that writes a matrix: its value is lost"""
        self.lost.append(ev)
        if ev.obj is not None:
            self.put(ev.obj, None)

    def step(self, it):
        if not isinstance(it, Ev):
            return
        n = it.name.split('::')[-1]
        if it.k == 'pure':
            v = self.op(it.name, it.obj, it.args, it)
            if it.res is not None:
                self.memo[it.res] = v
            return
        if it.k == 'set':
            if it.args:
                v = self.get(it.args[0])
                if v is not None:
                    self.put(it.obj, v)
                else:
                    l = unld(strip_ld(it.obj))
                    if l in self.loc or any(prefix_alias(l, k) for k in self.loc):
                        self.put(it.obj, None)
                    else:
                        self.loc[l] = None
                a = it.args[0]
                if isinstance(a, tuple) and a[0] == 'app' and a[1].endswith('::identity') and len(a[2]) == 1:
                    self.dims[unld(strip_ld(it.obj))] = unld(a[2][0])
            return
        if it.k == 'call':
            self.nuse += 1
            if n == 'swap' and it.obj is None and len(it.args) == 2:
                a, b = self.get(it.args[0]), self.get(it.args[1])
                self.put(it.args[0], b)
                self.put(it.args[1], a)
                return
            if n == 'operator=' and len(it.args) == 1:
                self.put(it.obj, self.get(it.args[0]))
                a = it.args[0]
                if isinstance(a, tuple) and a[0] == 'app' and a[1].endswith('::identity') and len(a[2]) == 1:
                    self.dims[unld(strip_ld(it.obj))] = unld(a[2][0])
                if it.res is not None:
                    self.memo[it.res] = self.get(it.args[0])
                return
            if n == 'J_conjugation_inplace' and not it.args:
                v = nJ(self.mat(it.obj))
                o = strip_ld(it.obj)
                if isinstance(o, tuple) and o[0] in ('f', 'ix', 'v', 'this'):
                    self.put(it.obj, v)
                else:
                    self.memo[it.obj] = v
                if it.res is not None:
                    self.memo[it.res] = v
                return
            if n == 'LEUP_inplace' and len(it.args) == 1:
                F = unld(strip_ld(it.args[0]))
                for x in 'LUP':
                    if self.loc.get(('f', F, x), ONE) != ONE:
                        self.msgs.append((it.line, 'factor %s is not the identity when the factorization starts' % x))
                v = self.factor(self.mat(('f', F, 'E')), it.line)
                self.put(F, v)
                return
            if n == 'LQU_inplace' and len(it.args) == 1:
                F = unld(strip_ld(it.args[0]))
                A = self.mat(('f', F, 'E'))
                v = self.op('LQU', None, (('f', F, 'E'),), it)
                self.put(F, v)
                return
            if n == 'CU_inplace' and len(it.args) == 2:
                x = fresh('X')
                self.shape[single(x)[0]] = 'u'
                for a in it.args:
                    self.put(a, nmul(self.mat(a), x))
                return
            if n in self.hooks:
                v = self.hooks[n](self, it.obj, it.args, it)
                if it.res is not None:
                    self.memo[it.res] = v
                return
            self.mutated(it)

    def run(self, items):
        for it in items:
            self.step(it)
        return self


def solve(A, lhs, rhs):
    """rhs is one letter A^flags; lhs == rhs -> A as polynomial in the letters of lhs"""
    l = single(rhs)
    if l is None:
        return None
    n, t, j, i, k = l
    p = lhs
    if t:
        p = nT(p)
    if j:
        p = nJ(p)
    if i:
        p = ninv(p)
    return n, p


def expand(p, known):
    """replace the letters of `known` (name -> polynomial) in p"""
    if p is None:
        return None
    out = {}
    for w, c in p.items():
        r = {(): c}
        for l in w:
            if l[0] in known:
                q = known[l[0]]
                if l[1]:
                    q = nT(q)
                if l[2]:
                    q = nJ(q)
                if l[3]:
                    q = ninv(q)
                if q is None:
                    return None
                r = nmul(r, q)
            else:
                r = nmul(r, {(l,): 1})
        out = nadd(out, r)
    return out
