"""Words over permutations.

An index vector p stands for the map i -> p[i]; (p q)[i] = p[q[i]].  A word is a tuple of
(generator, +1/-1).  Generators are terms; ('S', w) is the sorting permutation of the values
reached through w, ('E', w) the permutation that moves the listed indices to the end, RHO the
reversal i -> n-1-i.  Families (one permutation per dimension) are words whose generators are
families; indexing them gives the word of one dimension."""
from .engine import *
from .engine import Ev, Cond, Loop, Leave

RHO = ('rho',)


def reduce_(w):
    out = []
    for g, s in w:
        if g == RHO:
            s = 1
        if out and out[-1][0] == g and (g == RHO or out[-1][1] == -s):
            out.pop()
        else:
            out.append((g, s))
    return tuple(out)


def mulw(*ws):
    return reduce_(sum((tuple(w) for w in ws), ()))


def invw(w):
    return tuple((g, 1 if g == RHO else -s) for g, s in reversed(w))


def index_gen(g, e):
    if g == RHO:
        return g
    if g[0] in ('S', 'Sd', 'E'):
        return (g[0], index(g[1], e))
    if g[0] == 'ixrel':
        return ('ix', g[1], add(e, g[2]))
    return ('ix', g, e)


def index(w, e):
    return tuple((index_gen(g, e), s) for g, s in w)


def gen_gen(g, k):
    """generator of one dimension k -> generator of the family, or None"""
    if g == RHO:
        return g
    if g[0] in ('S', 'Sd', 'E'):
        w = general(g[1], k)
        return None if w is None else (g[0], w)
    if g[0] == 'ix':
        d = sub(g[2], k) if not (isinstance(g[2], tuple) and g[2] and g[2][0] in ('it', 'str')) else None
        if d == 0:
            return g[1]
        if is_num(d):
            return ('ixrel', g[1], d)
    if any(x == k for x in subterms(g)):
        return None
    return ('const', g)


def general(w, k):
    out = []
    for g, s in w:
        x = gen_gen(g, k)
        if x is None:
            return None
        out.append((x, s))
    return tuple(out)


def isunknown(w):
    return w is None or any(isinstance(x, tuple) and x and x[0] == 'unknown' for g, s in w for x in subterms(g))


def showw(w):
    if w is None:
        return '?'
    if not w:
        return 'identity'

    def sg(g):
        if g == RHO:
            return 'reverse'
        if g[0] == 'S':
            return 'sort(%s)' % showw(g[1])
        if g[0] == 'Sd':
            return 'sort-descending(%s)' % showw(g[1])
        if g[0] == 'E':
            return 'to-the-end(%s)' % showw(g[1])
        if g[0] == 'ixrel':
            return '%s[%s]' % (sg(g[1]), '.%+d' % g[2] if is_num(g[2]) else show(g[2]))
        if g[0] == 'const':
            return sg(g[1])
        return show(g)
    return ' '.join(sg(g) + ('^-1' if s < 0 else '') for g, s in w)


SORTS = {'sortperm', 'stable_sortperm', 'filtration_sortperm', 'sort_indexes'}
INVS = {'inv_perm', 'filtration_iperm'}
VOCAB = SORTS | INVS | {'fill_sortperm', 'apply_perm', 'apply_perm_swap', 'apply_iperm_swap', 'perm_to_the_end', 'extension_perm', 'identity_perm',
                        'permute_basis', 'ipermute_basis', 'permute_rows', 'permute_cols', 'ipermute_rows', 'ipermute_cols', 'permute_matrices',
                        'permute', 'ipermute'}
ACTS = {'permute_basis', 'ipermute_basis', 'permute_rows', 'permute_cols', 'ipermute_rows', 'ipermute_cols', 'permute_matrices', 'permute', 'ipermute'}


def sname(n):
    return n.split('::')[-1]


class Act:
    """a permutation applied to an object"""
    __slots__ = ('name', 'obj', 'idx', 'w', 'line', 'loop', 'ev')


class Replay:
    """interprets the trace of one path; env: location -> word"""

    def __init__(self, perms=()):
        self.env = {}
        self.app = {}
        self.acts = []
        self.perms = set(perms)      # generators known to be permutations
        self.loops = []              # enclosing (loop, symbol)
        self.unknown = 0
        self.made = set()            # locations declared on this path
        self.partial = []            # (location, loop): the loop provably skips indices

    # ------------------------------------------------------------ terms
    def norm(self, t):
        """pointer arithmetic on an unknown base is indexing of the base"""
        if isinstance(t, tuple) and t:
            if t[0] == 'ld':
                return self.norm(t[1])
            if t[0] == 'deref':
                p = poly(t[1])
                base = [m[0] for m, c in p.items() if c == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'sym' and m[0][2] == 0
                        and m[0][1] in ('begin', 'first', 'data', 'ptr', 'b')]
                if len(base) == 1:
                    return ('ix', base[0], self.norm(sub(t[1], base[0])))
            if t[0] == 'ix' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'poly':
                return self.norm(('deref', add(t[1], t[2])))
            if t[0] in ('f', 'ix', 'poly', 'app', 'size'):
                return unld(t)
        return t

    def letters(self, w):
        return w is not None and all(g == RHO or g in self.perms or g[0] in ('S', 'Sd', 'E') or g[0] == 'ix' and g[1] in self.perms for g, s in w)

    def S(self, w, kind='S'):
        if w is None:
            return None
        if kind == 'S' and self.letters(w):
            return invw(w)
        return (((kind, w), 1),)

    def W(self, t):
        """word of an index-vector valued term"""
        if t is None:
            return None
        if isinstance(t, tuple) and t and t[0] == 'lv':
            t = t[1]
        if isinstance(t, tuple) and t and t[0] == 'ld' and t[2] == 0:
            x = unld(t[1])
            b = x
            while isinstance(b, tuple) and b and b[0] == 'ix':
                b = b[1]
            if b in self.made:
                return self.word(x)      # a local: it has no state before its declaration
            return self.word0(x)
        if isinstance(t, tuple) and t and t[0] == 'it':
            return self.W(t[1]) if t[2] == 0 else self.atom(('rng', unld(t[1]), unld(t[2])))
        return self.word(self.norm(t))

    def atom(self, t):
        return self.env.get(t, ((t, 1),))

    def word0(self, t):
        if isinstance(t, tuple) and t and t[0] == 'ix':
            return index(self.word0(t[1]), t[2]) if self.word0(t[1]) is not None else None
        if isinstance(t, tuple) and t and t[0] == 'app':
            return self.word(t)
        return ((t, 1),)

    def word(self, t):
        if not isinstance(t, tuple) or not t:
            return None
        if t in self.env:
            return self.env[t]
        if t in self.app:
            return self.app[t]
        if t[0] == 'app':
            return self.applied(t[1], t[2])
        if t[0] == 'ix':
            b = self.word(t[1])
            return None if b is None else index(b, t[2])
        if t[0] in ('v', 'f', 'sym'):
            return ((t, 1),)
        return None

    def applied(self, name, args):
        n = sname(name)
        if n in SORTS and args:
            if len(args) >= 2 and isinstance(args[0], tuple) and args[0][0] == 'it':
                x = args[0]
                if len(args) > 2:
                    return None
                return self.S(self.W(x[1])) if x[2] == 0 and unld(args[1][2]) == ('size', unld(x[1]), 0) else self.S(self.atom(('rng', unld(x[1]), unld(x[2]))))
            if len(args) > 1:
                return None
            return self.S(self.W(args[0]))
        if n in INVS and len(args) == 1:
            w = self.W(args[0])
            return None if w is None else invw(w)
        if n == 'identity_perm':
            return ()
        if n == 'extension_perm':
            return self.W(args[0])
        if n == 'perm_to_the_end' and args:
            w = self.W(args[0])
            return None if w is None else ((('E', w), 1),)
        if name == 'new std::vector' and args and isinstance(args[0], tuple) and args[0] and args[0][0] in ('f', 'ix', 'v', 'ld', 'app'):
            return self.W(args[0])      # copy
        return None

    def iw(self, t, sy):
        """word of an index valued term as a function of the index sy"""
        t = self.norm(t)
        if t == sy:
            return ()
        if isinstance(t, tuple) and t and t[0] == 'ix':
            i = self.iw(t[2], sy)
            if i is None:
                return None
            b = self.word(t[1])
            return None if b is None else mulw(b, i)
        if isinstance(t, tuple) and t and t[0] == 'poly':
            ms = dict(t[1])
            idx = [m for m, c in ms.items() if c == -1 and len(m) == 1 and self.iw(m[0], sy) is not None]
            if len(idx) == 1 and ms.get((), 0) == -1 and len(ms) == 3:
                return mulw(((RHO, 1),), self.iw(idx[0][0], sy))
        return None

    # ------------------------------------------------------------ trace
    def run(self, items):
        for it in items:
            if isinstance(it, Loop):
                self.loop(it)
            elif isinstance(it, Ev):
                self.event(it)
        return self

    def setw(self, loc, w):
        loc = unld(loc)
        for x in [x for x in self.env if x != loc and any(y == loc for y in subterms(x))]:
            del self.env[x]
        if w is None:
            self.env[loc] = ((('unknown', loc, len(self.env)), 1),)
        else:
            self.env[loc] = w

    def event(self, e):
        n = sname(e.name)
        if e.k == 'pure':
            w = self.applied(e.name, e.args) if e.res is not None else None
            if w is not None:
                self.app[unld(e.res)] = w
            return
        if e.k == 'set':
            if e.name == 'init':
                self.made.add(unld(e.obj))
            self.setw(e.obj, self.W(e.args[0]))
            return
        if e.k != 'call':
            return
        if n == 'apply_perm' and len(e.args) in (2, 3):
            X, q = e.args[0], e.args[-1]
            self.apply(X, self.W(q))
        elif n == 'apply_perm_swap' and len(e.args) == 2:
            w = self.W(e.args[1])
            self.apply(e.args[0], None if w is None else invw(w))
        elif n == 'apply_iperm_swap' and len(e.args) == 2:
            self.apply(e.args[0], self.W(e.args[1]))
        elif n == 'fill_sortperm' and len(e.args) in (2, 3):
            if len(e.args) == 2:
                self.setw(e.args[1], self.S(self.W(e.args[0])))
            else:
                self.setw(e.args[2], self.applied('sortperm', e.args[:2]))
        elif e.name == 'std::reverse':
            X = e.args[0]
            full = isinstance(X, tuple) and X[0] == 'it' and X[2] == 0 and isinstance(e.args[1], tuple) and unld(e.args[1][2]) == ('size', unld(X[1]), 0)
            self.apply(X, ((RHO, 1),) if full else None)
        elif e.name == 'std::iota':
            X = e.args[0]
            full = isinstance(X, tuple) and X[0] == 'it' and X[2] == 0 and isinstance(e.args[1], tuple) and unld(e.args[1][2]) == ('size', unld(X[1]), 0)
            self.setw(X[1] if isinstance(X, tuple) and X[0] == 'it' else X, () if full and e.args[2] == 0 else None)
        elif e.name in ('std::sort', 'std::stable_sort'):
            X = e.args[0]
            full = isinstance(X, tuple) and X[0] == 'it' and X[2] == 0 and isinstance(e.args[1], tuple) and unld(e.args[1][2]) == ('size', unld(X[1]), 0)
            if isinstance(X, tuple) and X[0] == 'it':
                w0 = self.word(self.norm(X[1]))
                kw = None
                if full and w0 is not None:
                    kw = self.sortkey(e, w0)
                self.setw(X[1], None if kw is None else mulw(w0, kw))
        elif n in ACTS:
            a = Act()
            a.name, a.obj, a.line, a.ev = n, e.obj, e.line, e
            a.idx = unld(e.args[0]) if len(e.args) >= 2 and n in ('permute_basis', 'ipermute_basis', 'permute_matrices') else None
            a.w = self.W(e.args[1] if a.idx is not None else e.args[0]) if e.args else None
            a.loop = list(self.loops)
            self.acts.append(a)
        elif e.name == 'std::swap':
            pass
        elif n in ('resize', 'reserve', 'clear'):
            if n == 'clear':
                self.setw(e.obj, None)
        elif n in ('emplace_back', 'push_back', 'insert', 'erase', 'pop_back') and e.obj is not None:
            self.setw(e.obj, None)

    def sortkey(self, e, w0):
        if len(e.args) == 2:
            return self.S(w0)
        if e.lam is None:
            return None
        (a, b), res = e.lam[0][:2], e.lam[1]
        if len(res) != 2:
            return None
        for tr, v in res:
            cs = [x for x in tr if isinstance(x, Cond)]
            if len(cs) != 1 or v not in (0, 1) or cs[0].t[0] != 'cmp' or cs[0].t[1] != '<':
                return None
            if (v == 1) != cs[0].pol:
                return None
            x, y = cs[0].t[2], cs[0].t[3]
        wx, wy = self.iw(x, a), self.iw(y, b)
        if wx is not None and wx == wy:
            return self.S(mulw(wx, w0))
        wx, wy = self.iw(x, b), self.iw(y, a)
        if wx is not None and wx == wy:
            return self.S(mulw(wx, w0), 'Sd')
        return None

    def apply(self, X, w):
        if isinstance(X, tuple) and X and X[0] == 'it':
            X = X[1] if X[2] == 0 else ('rng', unld(X[1]), unld(X[2]))
        X = self.norm(X)
        w0 = self.env.get(X) or self.word(X) if X[0] != 'rng' else self.atom(X)
        if X in self.env:
            w0 = self.env[X]
        self.setw(X, None if w is None or w0 is None else mulw(w0, w))

    # ------------------------------------------------------------ loops
    def symbol(self, L):
        """(symbol, covers) of an indexed loop: covers True / False (provably misses indices) / None"""
        if L.kind == 'rfor':
            return L.var, True
        cand = []
        for d, (nm, sy) in L.syms.items():
            s0 = L.start.get(d)
            isit = isinstance(s0, tuple) and s0 and s0[0] == 'it'
            steps = set()
            for q in L.paths:
                if q.exit in ('n', 'c'):
                    v = q.env.get(d)
                    v = v[2] if isinstance(v, tuple) and v and v[0] == 'it' else v
                    steps.add(sub(v, sy) if v is not None and not isinstance(v, tuple) or isinstance(v, tuple) and v[0] in ('poly', 'sym') else None)
            start = s0[2] if isit else s0
            if steps == {1}:
                cand.append((d, sy, start, 1))
            elif steps == {-1}:
                cand.append((d, sy, start, -1))
            elif len(steps) == 1 and None not in steps:
                cand.append((d, sy, start, next(iter(steps))))
        best = None
        for d, sy, start, step in cand:
            bound = None
            for q in L.exit:
                for c in q.trace:
                    if isinstance(c, Cond) and c.t[0] == 'cmp' and any(x == sy for x in subterms(c.t)):
                        bound = c
            if bound is None:
                continue
            cov = None
            if step == 1:
                hi = None
                x, y = unld(bound.t[2]), unld(bound.t[3])
                if bound.t[1] == '<' and x == sy and bound.pol is False:
                    hi = y
                elif bound.t[1] == '==' and bound.pol is True:
                    hi = y if x == sy else x if y == sy else None
                elif bound.t[1] == '<' and bound.pol is True and y == sy:
                    hi = add(x, 1)
                if start == 0 and hi is not None:
                    c = poly(hi).get((), 0)
                    cov = True if c == 0 else False if c < 0 and len(poly(hi)) > 1 else None
                    self.hi = hi
                elif is_num(start) and start > 0:
                    cov = False
            best = (sy, cov)
            if cov is True:
                break
        return best or (None, None)

    def loop(self, L):
        sy, cov = self.symbol(L)
        paths = [q for q in L.paths if q.exit in ('n', 'c', 'b')]
        if not paths or L.omp:
            pass
        pre = dict(self.env)
        if sy is not None:
            el = self.elementwise(L, sy, paths)
            if el is not None:
                for loc, w in el.items():
                    self.setw(loc, w if cov is True else None)
                    if cov is False:
                        self.partial.append((loc, L))
                return
        results = []
        nacts = len(self.acts)
        self.loops.append((L, sy, cov))
        for q in paths:
            self.env = dict(pre)
            self.run(q.trace)
            results.append((self.env, q))
        self.loops.pop()
        self.env = pre
        changed = {}
        for env, q in results:
            for loc, w in env.items():
                if pre.get(loc) != w:
                    changed.setdefault(loc, [])
        for loc in changed:
            ws = [env.get(loc, pre.get(loc)) for env, q in results]
            if sy is not None and loc[0] == 'ix' and any(x == sy for x in subterms(loc[2])):
                F, e = loc[1], loc[2]
                # a path that leaves the location alone keeps its word
                ws = [w if w is not None else index(self.word(F), e) for w in ws]
                gs = {general(w, sy) if e == sy else None for w in ws}
                if len(gs) == 1 and cov is True and None not in gs:
                    self.setw(F, next(iter(gs)))
                else:
                    self.setw(F, None)
                    self.unknown += 1
                    if cov is False:
                        self.partial.append((F, L))
            elif any(sy is not None and x == sy for x in subterms(loc)) or loc[0] == 'v' and loc not in pre and not any(True for _ in ()):
                # local of the body
                self.env.pop(loc, None)
            else:
                if len(set(ws)) == 1 and (sy is None or not any(x == sy for g, s in ws[0] for x in subterms(g))) and loc in pre and ws[0] == pre[loc]:
                    continue
                self.setw(loc, None)

    def elementwise(self, L, sy, paths):
        """X[a(i)] = Y[b(i)] for every i, or one push per iteration"""
        if len(paths) != 1 or paths[0].exit not in ('n', 'c'):
            return None
        evs = [it for it in paths[0].trace if not isinstance(it, Cond)]
        out = {}
        env0 = dict(self.env)
        done = False
        for e in evs:
            if isinstance(e, (Loop, Leave)):
                return None
            if e.k == 'pure':
                continue
            if e.k == 'set' and isinstance(e.obj, tuple):
                o = self.norm(e.obj)
                if o[0] == 'f' or o[0] == 'v':
                    return None
                if o[0] != 'ix':
                    return None
                a, b = self.iw(o[2], sy), self.iw(e.args[0], sy)
                if a is None or b is None:
                    return None
                out[o[1]] = mulw(b, invw(a))
                done = True
            elif e.k == 'call' and e.name == 'std::swap':
                x, y = self.norm(e.args[0]), self.norm(e.args[1])
                if x[0] != 'ix' or y[0] != 'ix':
                    return None
                a, b = self.iw(x[2], sy), self.iw(y[2], sy)
                wx, wy = self.word(x[1]), self.word(y[1])
                if None in (a, b, wx, wy) or x[1] == y[1]:
                    return None
                out[x[1]] = mulw(wy, b, invw(a))
                out[y[1]] = mulw(wx, a, invw(b))
                done = True
            elif e.k == 'call' and sname(e.name) in ('emplace_back', 'push_back') and len(e.args) == 1:
                b = self.iw(e.args[0], sy)
                if b is None:
                    w = self.W(e.args[0]) if isinstance(e.args[0], tuple) else None
                    b = general(w, sy) if w is not None else None
                    if b is None:
                        return None
                out[unld(e.obj)] = b
                done = True
            else:
                return None
        return out if done else None
