"""Sparse vectors and sorted containers, decided per operation over all operands.  Two-cursor merges
are summarised by their transition table: on every path of the merging loop the order of the two
current indices is known from the path conditions, and cursor steps, emitted entries, accumulators
and returns must be those of the operation; the cursors must start at the beginning, chain through
the tail loops, and end exhausted.  Filters, index maps and range operations are checked on the
index they keep, drop or rewrite, and every non-monotone rewrite of indices must be followed by a
sort (or reversal) on every path before the vector is used again.  Point updates are evaluated
symbolically over the four presence cases, including validity of iterators after an erase."""
from rules.common import *
from bx.seqs import subst

PROP = dict(
    id="R04", title="Sparse vectors and sorted sets stay ordered, zero-free and combine exactly",
    statement="For all operands with increasing indices and nonzero entries, sparse-vector operations (scaled addition in every form, products, intersections, comparison, restriction to a range or to selected or kept indices, re-indexing by a permutation, shift or reversal, insertion and deletion of rows, row swaps and two-row combinations, Kronecker products) return exactly the mathematical result. The resulting vector again lists each index once in increasing order, and sums that vanish are dropped rather than stored as zero entries. Vectors built from lists of indices and values hold exactly the given entries whose value is nonzero in the field, so that a value such as 2 over the field of two elements leaves no entry. Intersections and complements of sorted sets contain exactly the elements asked for, also below a bound.",
    over=["inputs"],
    text="all index patterns and coefficient values of the operands",
    why="fixed small vectors in the tests do not reach particular index interleavings, vanishing sums, ranges that end exactly on a nonzero or exhausted operands",
    files=["include/linalg/sparse_vector.hpp", "include/util/sorted.hpp"],
    mechanism=[("merge loops", "SparseVector::axpy, operator*, nnz_intersection, intersect_sorted"), ("sorted storage", "SparseVector::indval, sort, lower_bound")],
)
LEVEL = "proof"
TECHNIQUE = "transition tables of two-cursor merges and symbolic per-path evaluation of point updates"
MINIMUM = {"operations": 25}
ASSUMPTIONS = ["operands satisfy the representation invariant (indices strictly increasing, no stored zeros)",
               "std::lower_bound/upper_bound/sort behave as specified on sorted input"]
THIS = ('this',)
C = ('f', THIS, 'indval')


class VE(Engine):
    def __init__(self, u, **kw):
        kw.setdefault('maxpaths', 6000)
        Engine.__init__(self, u, **kw)


def pair(v):
    v = unld(v)
    return unld(fld(v, 'ind')), unld(fld(v, 'val'))


# ------------------------------------------------------------------------ merges
class M:
    """a loop that walks two sorted containers A and B with one cursor each"""

    def __init__(self, L, A, B):
        self.L, self.A, self.B = L, A, B
        self.ca = self.cb = None
        cs = cursors(L)
        for which, cont in (('ca', A), ('cb', B)):
            for d, (nm, sy, s0, cc) in cs.items():
                if cc == cont or (cc is None and any(self.uses(q, cont, sy) for q in L.paths)):
                    setattr(self, which, (d, sy, s0))
                    break

    @staticmethod
    def uses(q, cont, sy):
        x = ('ix', cont, sy)
        for it in flat(q):
            ts = [it.t] if isinstance(it, Cond) else ([it.obj] + list(it.args) if isinstance(it, Ev) else [])
            for t in ts:
                if t is not None and any(s == x for s in subterms(unld(t))):
                    return True
        return False

    def step(self, q, c):
        if c is None:
            return 0
        r = idx_of(q.env.get(c[0]))
        return sub(r, c[1]) if r is not None else None

    def inrange(self, fa, c, cont):
        if c is None:
            return None
        r = fa.holds('==', c[1], size_of(cont))
        if r is not None:
            return not r
        r = fa.holds('<', c[1], size_of(cont))
        return r


def merge(ctx, k0, w, paths, A, B, keyof, effect, union, bstart=None, bactive=None, done=None):
    """check every function path; effect(m, q, rel) -> error text or None for the iteration q.
    rel: 0 same index, -1 only/first A, 1 only/first B.  Returns True if merges were recognised."""
    if not any(M(L, A, B).ca and M(L, A, B).cb for L, p, c in loops_of(paths)):
        ctx.count("merges not recognised")
        return False
    checked = set()
    for p in paths:
        posa, posb = 0, bstart if bstart is not None else 0
        donea = doneb = False
        some = False
        both = any(isinstance(it, Loop) and M(it, A, B).ca and M(it, A, B).cb for it in p.trace)
        for it in p.trace if both else []:
            if isinstance(it, Loop):
                m = M(it, A, B)
                if not m.ca and not m.cb:
                    continue
                some = True
                if m.ca:
                    if it.id not in checked and not (unld(m.ca[2]) == unld(posa)):
                        ctx.bad('merge', w, '%s: the first cursor starts at %s instead of %s' % (k0, show(m.ca[2]), show(posa)), k0)
                    posa = m.ca[1]
                if m.cb:
                    if it.id not in checked and not (unld(m.cb[2]) == unld(posb) or (bstart == 'any' and posb == 'any')):
                        ctx.bad('merge', w, '%s: the second cursor starts at %s instead of %s' % (k0, show(m.cb[2]), show(posb)), k0)
                    posb = m.cb[1]
                if it.id in checked:
                    continue
                checked.add(it.id)
                for q in it.paths:
                    if q.exit == 'throw':
                        continue
                    fa = Facts(q.trace)
                    ina, inb = m.inrange(fa, m.ca, A), m.inrange(fa, m.cb, B)
                    act = True
                    if m.cb and inb and bactive is not None:
                        act = bactive(fa, ('ix', B, m.cb[1]))
                    da, db = m.step(q, m.ca), m.step(q, m.cb)
                    r = None
                    if m.ca and m.cb and ina and inb:
                        r = rel(fa, keyof(('ix', A, m.ca[1])), keyof(('ix', B, m.cb[1])))
                    elif ina and (m.cb is None or inb is False):
                        r = -1
                    elif inb and (m.ca is None or ina is False):
                        r = 1
                    if r is None and ina and act is False:
                        r = -1
                    if r == -1 and inb and act is False:
                        pass
                    ctx.count("merge transitions")
                    if r is None:
                        if q.exit in ('n', 'c') and not (da == 0 and db == 0):
                            ctx.bad('merge', w, '%s: cursors advance by (%s, %s) although the order of the two current entries is not known [%s]' % (k0, show(da), show(db), showconds(q)), k0)
                        continue
                    if r >= 0 and (act is False or bactive is not None and act is None):
                        ctx.bad('merge', w, '%s: takes an entry of the second operand not known to lie in the requested range' % k0, k0)
                    if q.exit in ('n', 'c'):
                        want = {0: (1, 1), -1: (1, 0), 1: (0, 1)}[r]
                        ctx.check((da, db) == want, 'merge', w, '%s: when the %s, cursors advance by (%s, %s) instead of %s' % (
                            k0, {0: 'indices agree', -1: 'first index is smaller', 1: 'second index is smaller'}[r], show(da), show(db), want), k0)
                    err = effect(m, q, r)
                    ctx.check(err is None, 'merge', w, '%s: %s' % (k0, err), k0)
            elif isinstance(it, Leave):
                m = M(it.loop, A, B)
                fa = Facts(it.path.trace)
                if m.ca and m.inrange(fa, m.ca, A) is False:
                    donea = True
                if m.cb and m.inrange(fa, m.cb, B) is False:
                    doneb = True
                if m.cb and bactive is not None and m.inrange(fa, m.cb, B) and bactive(fa, ('ix', B, m.cb[1])) is False:
                    doneb = True
            elif isinstance(it, Ev) and it.k == 'call' and short(it.name) in ('insert', 'copy', 'append') and len(it.args) >= 2:
                for x, y in zip(it.args, it.args[1:]):
                    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'it' and y[0] == 'it' and unld(y[2]) == size_of(unld(x[1])):
                        if unld(x[1]) == A and unld(x[2]) == unld(posa):
                            donea = True
                        if unld(x[1]) == B and unld(x[2]) == unld(posb):
                            doneb = True
        if p.exit == 'throw':
            continue
        if done is not None:
            err = done(p, some, donea, doneb)
            ctx.check(err is None, 'merge', w, '%s: %s' % (k0, err), k0)
    return True


def out_pushes(q, A, B):
    """(index, value) pairs emitted by an iteration"""
    return [pair(e.vals[-1]) if short(e.name) not in ('emplace_back',) or len(e.args) == 1 else (unld(e.vals[0]), unld(e.vals[1]))
            for e in pushes(q) if unld(e.obj) not in (A, B)]


def ipair(X, i):
    e = ('ix', X, i)
    return ('f', e, 'ind'), ('f', e, 'val')


def axpy_effect(A, B, a):
    def eff(m, q, r):
        out = out_pushes(q, A, B)
        if r == -1:
            want = [ipair(A, m.ca[1])]
        elif r == 1:
            i, v = ipair(B, m.cb[1])
            want = [(i, unld(mul(a, v)))]
        else:
            i, v = ipair(A, m.ca[1])
            j, x = ipair(B, m.cb[1])
            s = unld(add(v, mul(a, x)))
            z = Facts(q.trace).holds('==', s, 0)
            if z is True:
                return None if out == [] else 'an entry is stored although the sum vanishes'
            if len(out) == 1 and out[0][0] in (i, j) and out[0][1] == s:
                return None if z is False else 'a vanishing sum is stored as a zero entry'
            return 'common index: stores %s instead of index and y+a*x' % [tuple(map(show, o)) for o in out]
        return None if out == want else 'stores %s instead of %s' % ([tuple(map(show, o)) for o in out], [tuple(map(show, o)) for o in want])
    return eff


def taken(p, A):
    """the merged container ends up in A: (ok, name of the container)"""
    tgt = None
    for it in p.trace:
        if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'swap':
            xs = [unld(x) for x in it.args if x is not None] + ([unld(it.obj)] if it.obj is not None else [])
            if A in xs and len(xs) == 2:
                tgt = [x for x in xs if x != A][0]
        elif isinstance(it, Ev) and it.k == 'set' and unld(it.obj) == A:
            tgt = unld(it.args[0])
    return tgt


def fresh(p, T):
    """container T is empty when the first loop of p starts"""
    for it in p.trace:
        if isinstance(it, Loop):
            break
        if isinstance(it, Ev):
            if unld(it.obj) == T and it.k == 'call' and short(it.name) == 'clear':
                return True
            if unld(it.obj) == T and it.k == 'set' and it.name == 'init' and show(it.args[0]).startswith('new'):
                return True
    return not (isinstance(T, tuple) and T[0] == 'v' and T[2] == 0)      # local without initialiser


def par(f, i, lv=True):
    n = f.d['ps'][i]['n']
    return ('v', n, 0) if lv else ('sym', n, 0)


def scal(f, i, u):
    """value of a scalar parameter"""
    p = f.d['ps'][i]
    return ('v', p['n'], 0) if p.get('ref') or '&' in u.type(p['t']) else ('sym', p['n'], 0)


def h_axpy(ctx, u, f, paths, k0, w):
    ps = f.d['ps']
    if 'SparseVector' in u.type(ps[0]['t']):
        return indexed_axpy(ctx, u, f, paths, k0, w)
    a = scal(f, 0, u)
    B = ('f', par(f, 1), 'indval')
    rng = len(ps) >= 4
    first, lastt = (scal(f, 2, u), scal(f, 3, u)) if rng else (None, None)

    def bactive(fa, e):
        return fa.holds('<', ('f', e, 'ind'), lastt)

    def done(p, some, da, db):
        fa = Facts(p.trace)
        if not some:
            if fa.holds('==', a, 0) is True:
                for it in p.trace:      # dropping zeros is allowed
                    if isinstance(it, Ev) and it.k == 'set' and unld(it.obj) != A0 and root(unld(it.obj)) == THIS:
                        return 'changes the vector for a zero coefficient'
                    if isinstance(it, Ev) and it.k == 'call' and it.obj is not None and unld(it.obj) == A0 and short(it.name) in ('clear', 'resize', 'pop_back', 'push_back', 'emplace_back'):
                        return 'changes the vector for a zero coefficient'
                return None
            if fa.empty(B) is True:
                return None
            if rng:
                for it in p.trace:
                    if isinstance(it, Cond):
                        pass
                for sy in starts:
                    e = ('ix', B, sy)
                    if fa.holds('==', sy, size_of(B)) is True or fa.holds('<', ('f', e, 'ind'), lastt) is False:
                        return None
            return 'returns without adding although the coefficient and the operand may be nonzero [%s]' % showconds(p)
        if not (da and db):
            return 'stops before the %s operand is exhausted' % ('first' if not da else 'second')
        T = taken(p, C)
        if T is None:
            return 'the merged entries are not stored back'
        return None if fresh(p, T) else 'the merge appends to a buffer that may still hold old entries'
    A0 = C
    starts = []
    bstart = 0
    if rng:
        for q, _ in all_paths(paths):
            for it in q.trace:
                if isinstance(it, Ev) and it.k == 'pure' and short(it.name) == 'lower_bound' and it.res[0] == 'it' and unld(it.res[1]) == B:
                    kx = pair(it.args[2])[0] if isinstance(it.args[2], tuple) and it.args[2][0] == 'tup' else unld(it.args[2])
                    if kx == first:
                        bstart = unld(it.res[2])
                        starts.append(bstart)
                    elif kx != lastt:
                        ctx.bad('range', w, '%s: the range of the second operand starts at index %s instead of %s' % (k0, show(kx), show(first)), k0)
                        return
        if not starts:
            ctx.count("merges not recognised")
            return
    merge(ctx, k0, w, paths, C, B, lambda e: ('f', e, 'ind'), axpy_effect(C, B, a), True, bstart, bactive if rng else None, done)


def indexed_axpy(ctx, u, f, paths, k0, w):
    """y[k] += coeff[k] * x[inds[k]]"""
    X = ('f', par(f, 0), 'indval')
    co, inds = par(f, 1), par(f, 2)
    for L, p, _ in loops_of(paths):
        m = M(L, C, X)
        if not (m.ca and m.cb):
            continue
        k = [(d, sy) for d, (nm, sy, s0, cc) in cursors(L).items() if d not in (m.ca[0], m.cb[0])]
        if len(k) != 1:
            ctx.count("merges not recognised")
            return
        kd, ks = k[0]
        for q in L.paths:
            if q.exit not in ('n', 'c'):
                continue
            fa = Facts(q.trace)
            da, db, dk = m.step(q, m.ca), m.step(q, m.cb), sub(q.env[kd], ks)
            ei, ev = ipair(C, m.ca[1])
            xi, xv = ipair(X, m.cb[1])
            ha = fa.holds('==', ei, ks)
            hx = rel(fa, ('ix', inds, ks), xi)
            if ha is None and fa.holds('<', ks, ei) is True:
                ha = False
            if ha is None or hx is None:
                ctx.check((da, db, dk) == (0, 0, 0), 'merge', w, '%s: advances without knowing which entries match' % k0, k0)
                continue
            hx = hx == 0
            out = out_pushes(q, C, X)
            ctx.check((da, db, dk) == (1 if ha else 0, 1 if hx else 0, 1), 'merge', w, '%s: cursors advance by %s' % (k0, (show(da), show(db), show(dk))), k0)
            s = add(ev if ha else 0, mul(('ix', co, ks), xv) if hx else 0)
            z = fa.holds('==', s, 0) if s != 0 else True
            if ha and not hx:
                ok = out == [(ei, ev)]
            elif z is True:
                ok = out == []
            else:
                ok = len(out) == 1 and out[0][1] == unld(s) and out[0][0] in (ks, ei if ha else ks) and (z is False)
            ctx.check(ok, 'merge', w, '%s: stores %s, expected value %s' % (k0, [tuple(map(show, o)) for o in out], show(unld(s))), k0)
    ctx.count("merge transitions")


def h_dot(ctx, u, f, paths, k0, w):
    B = ('f', par(f, 0), 'indval')

    def eff(m, q, r):
        accs = [(d, sy) for d, (nm, sy, s0, cc) in cursors(m.L).items() if d not in (m.ca[0], m.cb[0])]
        if len(accs) != 1:
            return None
        d, sy = accs[0]
        ds = unld(sub(q.env[d], sy))
        want = unld(mul(ipair(C, m.ca[1])[1], ipair(B, m.cb[1])[1])) if r == 0 else 0
        return None if ds == want else 'the accumulator changes by %s instead of %s' % (show(ds), show(want))

    def done(p, some, da, db):
        if not some:
            return None
        return None if da or db else 'stops before either operand is exhausted'
    merge(ctx, k0, w, paths, C, B, lambda e: ('f', e, 'ind'), eff, False, done=done)
    ret_acc(ctx, paths, k0, w, 0)


def ret_acc(ctx, paths, k0, w, start):
    """the accumulator of the last loop is returned and started at `start`"""
    for p in paths:
        Ls = [it for it in p.trace if isinstance(it, Loop)]
        if not Ls or p.exit != 'ret':
            continue
        accs = [(d, sy) for d, (nm, sy) in Ls[-1].syms.items() if sy == p.val]
        if accs:
            ctx.check(unld(Ls[-1].start.get(accs[0][0])) == start, 'merge', w, '%s: the accumulator starts at %s' % (k0, show(Ls[-1].start.get(accs[0][0]))), k0)
        elif any(it.syms for it in Ls) and is_num(p.val):
            ctx.bad('merge', w, '%s: returns %s instead of what was accumulated' % (k0, show(p.val)), k0)


def h_nnzi(ctx, u, f, paths, k0, w):
    B = ('f', par(f, 0), 'indval')

    def eff(m, q, r):
        accs = [(d, sy) for d, (nm, sy, s0, cc) in cursors(m.L).items() if d not in (m.ca[0], m.cb[0])]
        if len(accs) != 1:
            return None
        d, sy = accs[0]
        ds = unld(sub(q.env[d], sy))
        return None if ds == (1 if r == 0 else 0) else 'the count changes by %s' % show(ds)
    merge(ctx, k0, w, paths, C, B, lambda e: ('f', e, 'ind'), eff, False,
          done=lambda p, some, da, db: None if da or db or not some and (Facts(p.trace).empty(B) is True or Facts(p.trace).empty(C) is True) else 'stops before either operand is exhausted')
    ret_acc(ctx, paths, k0, w, 0)


def h_coeff(ctx, u, f, paths, k0, w):
    B = ('f', par(f, 0), 'indval')
    ct = par(f, 1)

    def eff(m, q, r):
        refs = [it for it in q.trace if isinstance(it, Ev) and it.k == 'set' and isinstance(unld(it.obj), tuple) and unld(it.obj)[0] == 'ix' and unld(it.obj)[1] == ct]
        if r != 0:
            return None if not refs else 'counts a coefficient for an index of only one vector'
        if len(refs) != 1:
            return 'does not count the coefficient of a common index once'
        k = unld(refs[0].obj)[2]
        v1, v2 = ipair(C, m.ca[1])[1], ipair(B, m.cb[1])[1]
        q_ = quotient(k)
        okk = q_ == (1, v1, v2) or (isinstance(k, tuple) and k[0] == 'app' and k[1] == '/' and tuple(k[2]) == (v1, v2))
        if not okk:
            return 'counts %s instead of the quotient of the two values' % show(k)
        return None if unld(sub(refs[0].args[0], refs[0].obj)) == 1 else 'the count does not grow by one'
    merge(ctx, k0, w, paths, C, B, lambda e: ('f', e, 'ind'), eff, False,
          done=lambda p, some, da, db: None if da or db else ('stops before either operand is exhausted' if some else None))


def h_eq(ctx, u, f, paths, k0, w, negate=False):
    B = ('f', par(f, 0), 'indval')
    lo = [(L, p) for L, p, _ in loops_of(paths) if M(L, C, B).ca]
    for L, p in lo:
        m = M(L, C, B)
        cb = m.cb or m.ca
        for q in L.paths:
            fa = Facts(q.trace)
            x, y = ipair(C, m.ca[1]), ipair(B, cb[1])
            si, sv = fa.holds('==', x[0], y[0]), fa.holds('==', x[1], y[1])
            same = True if si and sv else (False if si is False or sv is False else None)
            if same is None:
                if q.exit in ('n', 'c'):
                    ctx.bad('compare', w, '%s: goes on without comparing index and value' % k0, k0)
                continue
            if q.exit == 'ret':
                ctx.check(is_num(q.val) and bool(q.val) == (same != negate) and same is False, 'compare', w, '%s: returns %s when entries %s' % (k0, show(q.val), 'agree' if same else 'differ'), k0)
            elif q.exit in ('n', 'c'):
                ctx.check(same is True, 'compare', w, '%s: goes on after different entries' % k0, k0)
    for p in paths:
        if any(isinstance(it, Leave) and it.path.exit == 'ret' for it in p.trace) or not any(isinstance(it, Loop) for it in p.trace):
            continue
        da = db = None
        fa = Facts(p.trace)
        for it in p.trace:
            if isinstance(it, Loop):
                m = M(it, C, B)
                if m.ca:
                    da = m.inrange(fa, m.ca, C)
                    db = m.inrange(fa, m.cb or m.ca, B)
        if is_num(p.val):
            if bool(p.val) != negate:
                ok = da is False and db is False
                if not ok and fa.holds('==', size_of(C), size_of(B)) is True and (da is False or db is False):
                    ok = True
                ctx.check(ok, 'compare', w, '%s: reports equality before both vectors are exhausted' % k0, k0)


# ------------------------------------------------------------------------ filters and index maps
def elem_loop(L, X=C):
    """(index symbol, element term) of a loop over all entries of X"""
    i = iterates(L, X)
    return None if i is None else (i, ('ix', X, i))


def h_filter(keep):
    """keep(fa, e, f) -> True keep / False drop / None unknown"""
    def h(ctx, u, f, paths, k0, w):
        seen = False
        for p in paths:
            Ls = [(it, elem_loop(it)) for it in p.trace if isinstance(it, Loop)]
            Ls = [x for x in Ls if x[1]]
            if len(Ls) != 1:
                continue
            seen = True
            L, (i, e) = Ls[0]
            for q in L.paths:
                out = out_pushes(q, C, None)
                kp = keep(Facts(q.trace), e, f, u)
                if q.exit not in ('n', 'c'):
                    ctx.bad('filter', w, '%s: leaves the loop before all entries were seen' % k0, k0)
                    continue
                if kp is None:
                    ctx.bad('filter', w, '%s: keeps or drops an entry without deciding the condition [%s]' % (k0, showconds(q)), k0)
                    continue
                want = [ipair(C, i)] if kp else []
                ctx.check(out == want, 'filter', w, '%s: stores %s, expected %s' % (k0, [tuple(map(show, o)) for o in out], [tuple(map(show, o)) for o in want]), k0)
            T = taken(p, C)
            ctx.check(T is not None and fresh(p, T), 'filter', w, '%s: the kept entries are not what the vector holds afterwards' % k0, k0)
        if not seen:
            ctx.count("filters not recognised")
    return h


def keep_nonzero(fa, e, f, u):
    r = fa.holds('==', ('f', e, 'val'), 0)
    return None if r is None else not r


def keep_unmarked(fa, e, f, u):
    c = ('ix', ('v', f.d['ps'][0]['n'], 0), ('f', e, 'ind'))
    r = None
    for t, pol in fa.st.facts.items():
        if isinstance(t, tuple) and t and t[0] == 'truth' and t[1] == c:
            r = pol
        elif isinstance(t, tuple) and t and t[0] == 'cmp' and c in t[2:]:
            o = t[2] if t[3] == c else t[3]
            if is_num(o):
                r = pol if (o != 0) else (not pol)
    return None if r is None else not r


def inverse_of(p, perm, got, i):
    """is `got` the position of index i in perm?  None: not recognised"""
    if got is None or got == ('ix', perm, i):
        return False
    if not (isinstance(got, tuple) and got[0] == 'ix' and unld(got[2]) == i):
        return None
    inv = got[1]
    for it in p.trace:
        if isinstance(it, Ev) and it.k in ('call', 'pure') and short(it.name) in ('inv_perm', 'filtration_iperm') and it.res is not None and unld(it.res) == inv:
            return unld(it.args[0]) == perm
        if isinstance(it, Loop):
            for q in it.paths:
                for x in q.trace:
                    if isinstance(x, Ev) and x.k == 'set':
                        o = unld(x.obj)
                        if o[0] == 'ix' and o[1] == inv:
                            j = unld(x.args[0])
                            return unld(o[2]) == ('ix', perm, j)
    return None


def h_reindex(fn, mono, base=C, inverse=None):
    """every index i becomes fn(i); mono: +1 increasing, -1 decreasing, 0 arbitrary"""
    def h(ctx, u, f, paths, k0, w):
        for p in paths:
            done_loop = None
            X = base
            for n_, it in enumerate(p.trace):
                if isinstance(it, Loop):
                    for cand in (base, result_vec(p)):
                        if cand is None:
                            continue
                        el = elem_loop(it, cand)
                        if el:
                            done_loop, X = n_, cand
                            i, e = el
                            for q in it.paths:
                                sets = [x for x in q.trace if isinstance(x, Ev) and x.k == 'set' and unld(x.obj) == ('f', e, 'ind')]
                                if q.exit not in ('n', 'c'):
                                    ctx.bad('reindex', w, '%s: leaves the loop before all indices were rewritten' % k0, k0)
                                    continue
                                want = unld(fn(f, u, ('f', e, 'ind')))
                                whole = [x for x in q.trace if isinstance(x, Ev) and x.k == 'set' and unld(x.obj) == e]
                                if len(sets) == 1 and not whole:
                                    got = unld(sets[0].args[0])
                                elif len(whole) == 1 and not sets:
                                    got = pair(whole[0].args[0])[0]
                                else:
                                    got = None
                                if inverse is not None:
                                    v = inverse(p, par(f, 0), got, ('f', e, 'ind'))
                                    if v is None:
                                        ctx.count("reindexings not recognised")
                                        continue
                                    ctx.check(v, 'reindex', w, '%s: index %s becomes %s instead of the position of that index in the permutation' % (k0, show(('f', e, 'ind')), show(got) if got is not None else 'itself'), k0)
                                    continue
                                ctx.check(got == want, 'reindex', w, '%s: index %s becomes %s instead of %s' % (k0, show(('f', e, 'ind')), show(got) if got is not None else 'itself', show(want)), k0)
                            break
            if done_loop is None:
                if not any(isinstance(it, Loop) for it in p.trace) and Facts(p.trace).empty(base) is True:
                    continue
                ctx.count("reindexings not recognised")
                continue
            if mono > 0:
                continue
            after = p.trace[done_loop + 1:]
            fa = Facts(p.trace)
            srt = any(isinstance(x, Ev) and x.k == 'call' and x.name in (('std::sort', 'std::stable_sort') if mono == 0 else ('std::sort', 'std::stable_sort', 'std::reverse')) and whole_range(x.args, X) for x in after)
            small = fa.empty(X) is True or fa.holds('==', size_of(X), 1) is True or fa.holds('<', size_of(X), 2) is True or fa.holds('<', 1, size_of(X)) is False
            ctx.check(srt or small, 'order', w, '%s: indices are rewritten but not put back in order' % k0, k0)
            if srt and mono < 0:
                n = sum(isinstance(x, Ev) and x.k == 'call' and x.name == 'std::reverse' for x in after)
                ctx.check(n <= 1, 'order', w, '%s: reverses the entries more than once' % k0, k0)
    return h


def whole_range(args, X):
    return len(args) >= 2 and isinstance(args[0], tuple) and args[0][0] == 'it' and unld(args[0][1]) == X and args[0][2] == 0 \
        and isinstance(args[1], tuple) and args[1][0] == 'it' and unld(args[1][1]) == X and unld(args[1][2]) == size_of(X)


def result_vec(p):
    v = unld(p.val) if isinstance(p.val, tuple) else None
    if isinstance(v, tuple) and v and v[0] == 'v':
        return ('f', v, 'indval')
    return None


# ------------------------------------------------------------------------ point updates
class Vec:
    """symbolic content of this->indval at the indices i, j of a point update"""

    def __init__(self, names):
        self.names = names


def lb_of(t):
    """index i if t is the position lower_bound(C, i) over the whole container"""
    t0 = t
    t = unld(t)
    if isinstance(t, tuple) and t[0] == 'it':
        t = t[2]
    if isinstance(t, tuple) and t[0] == 'app' and t[1] == 'lower_bound' and t[2][0] == C and t[2][1] == 0 and t[2][2] == size_of(C):
        k = t[2][3]
        return pair(k)[0] if isinstance(k, tuple) and k[0] in ('tup',) else k
    return None


def lbpos(i):
    return ('app', 'lower_bound', (C, 0, size_of(C), ('tup', (('ind', i), ('val', 0)))), 0)


def present(fa, i):
    pos = None
    for t in fa.st.facts:
        for s in subterms(t):
            if isinstance(s, tuple) and s and s[0] == 'app' and s[1] == 'lower_bound' and lb_of(s) == i:
                pos = s
    if pos is None:
        return None
    if fa.holds('==', pos, size_of(C)) is True or fa.holds('<', pos, size_of(C)) is False:
        return False
    return fa.holds('==', ('f', ('ix', C, pos), 'ind'), i)


def point(ctx, f, paths, k0, w, inds, spec):
    """spec(vals: dict index -> old value) -> dict index -> new value"""
    for p in paths:
        if p.exit == 'throw':
            continue
        # presence is decided by the conditions before the first change
        head = []
        for it in p.trace:
            if isinstance(it, Ev) and it.k in ('set', 'call') and it.obj is not None and root(unld(it.obj)) == THIS or isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'swap':
                break
            head.append(it)
        fa = Facts(head)
        pres = {i: present(fa, i) for i in inds}
        cur = {}
        poss = {}
        for i in inds:
            cand = [s for it in p.trace if isinstance(it, (Ev, Cond)) for t in ([it.t] if isinstance(it, Cond) else list(it.args) + [it.obj])
                    if isinstance(t, tuple) for s in subterms(unld(t)) if isinstance(s, tuple) and s and s[0] == 'app' and s[1] == 'lower_bound' and lb_of(s) == i]
            poss[i] = cand[0] if cand else None
        if any(pres[i] is None and poss[i] is not None for i in inds):
            # undecided presence: only allowed if nothing is changed for it
            pass
        old = {i: (('f', ('ix', C, poss[i]), 'val') if pres[i] else 0) for i in inds}
        new = dict(old)
        here = dict(pres)
        dirty = {}            # positions invalidated by structural changes
        bad = None
        sorted_after = True
        allf = Facts()
        for it in p.trace:
            if isinstance(it, Cond):
                t = it.t
                if t[0] == 'cmp' and t[1] == '==' and is_num(t[3]) or t[0] == 'cmp' and t[1] == '==' and is_num(t[2]):
                    x, z = (t[2], t[3]) if is_num(t[3]) else (t[3], t[2])
                    x = unld(x)
                    if isinstance(x, tuple) and x[0] == 'f' and x[2] == 'val' and isinstance(x[1], tuple) and x[1][0] == 'ix' and lb_of(x[1][2]) in new:
                        i = lb_of(x[1][2])
                        if i in dirty:
                            bad = 'uses a position found before an entry was inserted or erased'
                        if here.get(i):
                            t = ('cmp', '==', new[i], z)
                allf.add(Cond(t, it.pol, it.line))
                continue
            if not isinstance(it, Ev):
                continue
            o = unld(it.obj) if it.obj is not None else None
            if it.k == 'pure' and short(it.name) == 'lower_bound' and it.res is not None:
                i = lb_of(it.res)
                dirty.pop(i, None)
            elif it.k == 'set' and isinstance(o, tuple) and root(o) == THIS:
                t, i = o, None
                while isinstance(t, tuple) and t[0] == 'f':
                    t = t[1]
                if isinstance(t, tuple) and t[0] == 'ix' and t[1] == C:
                    i = lb_of(t[2])
                if i is None or i not in new:
                    ctx.count("point updates not recognised")
                    bad = 'skip'
                    break
                if i in dirty:
                    bad = 'uses a position found before an entry was inserted or erased'
                if o[2] == 'ind' and o[1] == t:
                    j = unld(it.args[0])
                    if j not in new or here.get(j) is not False:
                        bad = 'moves an entry onto an index that may be occupied'
                        break
                    new[j], new[i] = new[i], 0
                    here[j], here[i] = True, False
                    sorted_after = False
                else:
                    v = unld(it.args[0])
                    v = v[1] if isinstance(v, tuple) and v[0] == 'f' and v[2] == 'val' and o[1] != t else v
                    new[i] = v
            elif it.k == 'call' and short(it.name) == 'swap':
                xs = [unld(x) for x in it.args]
                ii = [lb_of(x[1][2]) if isinstance(x, tuple) and x[0] == 'f' and isinstance(x[1], tuple) and x[1][0] == 'ix' else None for x in xs]
                if None in ii or len(ii) != 2 or any(x not in new for x in ii):
                    bad = 'skip'
                    break
                new[ii[0]], new[ii[1]] = new[ii[1]], new[ii[0]]
            elif it.k == 'call' and o == C:
                nm = short(it.name)
                i = lb_of(it.args[0]) if it.args and isinstance(it.args[0], tuple) else None
                if nm == 'erase' and len(it.args) == 1 and i in new:
                    if i in dirty:
                        bad = 'erases at a position found before another entry was inserted or erased'
                    new[i] = 0
                    here[i] = False
                    dirty = {x: 1 for x in inds if x != i}
                elif nm in ('insert', 'emplace') and i in new:
                    ind, val = pair(it.args[1]) if len(it.args) == 2 else (unld(it.args[1]), unld(it.args[2]))
                    if i in dirty:
                        bad = 'inserts at a position found before another entry was inserted or erased'
                    if ind != i or here.get(i) is not False:
                        bad = bad or 'inserts index %s at the position of %s' % (show(ind), show(i))
                    new[i] = val
                    here[i] = True
                    dirty = {x: 1 for x in inds}
                else:
                    bad = 'skip'
                    break
            elif it.k == 'call' and it.name in ('std::sort', 'std::stable_sort') and whole_range(it.args, C):
                sorted_after = True
        if bad == 'skip':
            ctx.count("point updates not recognised")
            continue
        ctx.check(bad is None, 'position', w, '%s: %s [%s]' % (k0, bad, showconds(p)), k0)
        if bad:
            continue
        ctx.check(sorted_after or allf.empty(C) is True, 'order', w, '%s: an entry is moved to another index without restoring the order' % k0, k0)
        want = spec(old)
        for i in inds:
            if pres[i] is None:
                continue
            g, x = unld(new[i]), unld(want[i])
            zx = vanishes(allf, x, old)
            same = g == x and here[i] or x == 0 and g == 0 or zx is True and not here[i]
            ctx.check(same, 'point', w, '%s: entry %s becomes %s instead of %s [%s]' % (k0, show(i), show(g) if here[i] else 'absent', show(x), showconds(p)), k0)
            if here[i] and g != old[i]:
                ctx.check(vanishes(allf, g, old) is False, 'zero', w, '%s: entry %s = %s may be stored as zero' % (k0, show(i), show(g)), k0 + ':zero')


def vanishes(fa, x, old):
    """is the value zero (True) / nonzero (False); stored values are nonzero, products over a field too"""
    if is_num(x):
        return x == 0
    r = fa.holds('==', x, 0)
    if r is not None:
        return r
    if x in [unld(y) for y in old.values()]:
        return False
    p = poly(x)
    if len(p) == 1:
        (m, k), = p.items()
        rs = [vanishes(fa, y, old) if y != x else None for y in m]
        if True in rs:
            return True
        if rs and all(y is False for y in rs):
            return False
    return None


def h_getval(ctx, u, f, paths, k0, w):
    i = ('sym', f.d['ps'][0]['n'], 0) if not f.d['ps'][0].get('ref') else ('v', f.d['ps'][0]['n'], 0)
    for p in paths:
        if p.exit != 'ret':
            continue
        pr = present(Facts(p.trace), i)
        v = unld(p.val)
        if pr is None:
            if v != 0 and not (isinstance(v, tuple) and lb_of(v[1][2] if v[0] == 'f' and isinstance(v[1], tuple) and v[1][0] == 'ix' else None) is None):
                ctx.bad('point', w, '%s: reads an entry without knowing that it is at the index asked for [%s]' % (k0, showconds(p)), k0)
            continue
        ok = v == 0 if not pr else (isinstance(v, tuple) and v[0] == 'f' and v[2] == 'val' and isinstance(v[1], tuple) and v[1][0] == 'ix' and lb_of(v[1][2]) == i)
        ctx.check(ok, 'point', w, '%s: returns %s when the index is %s' % (k0, show(v), 'present' if pr else 'absent'), k0)


def h_swaprows(ctx, u, f, paths, k0, w):
    i, j = scal(f, 0, u), scal(f, 1, u)
    point(ctx, f, paths, k0, w, [i, j], lambda o: {i: o[j], j: o[i]})


def h_mixrows(ctx, u, f, paths, k0, w):
    i, j, a, b, c, d = [scal(f, n, u) for n in range(6)]
    point(ctx, f, paths, k0, w, [i, j], lambda o: {i: add(mul(a, o[i]), mul(b, o[j])), j: add(mul(c, o[i]), mul(d, o[j]))})


def h_scaleat(ctx, u, f, paths, k0, w):
    i, c = scal(f, 0, u), scal(f, 1, u)

    def spec(o):
        return {i: mul(c, o[i])}
    point(ctx, f, paths, k0, w, [i], spec)


# ------------------------------------------------------------------------ scaling, ranges
def h_scale(factor, base=C):
    def h(ctx, u, f, paths, k0, w):
        for p in paths:
            X = base
            if result_vec(p):
                X = result_vec(p)
            for it in p.trace:
                if isinstance(it, Loop) and elem_loop(it, X):
                    i, e = elem_loop(it, X)
                    c = factor(f, u, e)
                    for q in it.paths:
                        sets = [x for x in q.trace if isinstance(x, Ev) and x.k == 'set' and unld(x.obj)[:2] == ('f', e) or isinstance(x, Ev) and x.k == 'set' and unld(x.obj) == e]
                        ok = len(sets) == 1 and q.exit in ('n', 'c') and unld(sets[0].obj) == ('f', e, 'val') and unld(sets[0].args[0]) == unld(mul(c, ('f', e, 'val')))
                        ctx.check(ok, 'scale', w, '%s: entry becomes %s instead of %s times its value' % (k0, [show(unld(x.args[0])) for x in sets], show(c)), k0)
    return h


def h_block(ctx, u, f, paths, k0, w):
    i0, i1 = scal(f, 0, u), scal(f, 1, u)
    for p in paths:
        for it in p.trace:
            if not isinstance(it, Loop):
                continue
            m = M(it, C, None)
            if not m.ca:
                continue
            st = lb_of(m.ca[2])
            e = ('ix', C, m.ca[1])

            def in_range(fa):
                r = fa.holds('<', ('f', e, 'ind'), i1)
                if r is None and st == i0:
                    for t, pol in fa.st.facts.items():      # walks from the position of i0 to the position of i1
                        if t[0] == 'cmp' and m.ca[1] in t[2:]:
                            o = t[2] if t[3] == m.ca[1] else t[3]
                            if lb_of(o) == i1 and (t[1] == '==' or t[2] == m.ca[1]):
                                r = pol if t[1] == '<' else (not pol)
                return r
            for q in it.paths:
                fa = Facts(q.trace)
                if q.exit in ('n', 'c'):
                    ctx.check(m.step(q, m.ca) == 1, 'range', w, '%s: skips entries' % k0, k0)
                    below = st != i0 and fa.holds('<', ('f', e, 'ind'), i0) is not False
                    inside = in_range(fa)
                    out = out_pushes(q, C, None)
                    if inside is False or fa.holds('<', ('f', e, 'ind'), i0) is True:
                        ctx.check(out == [], 'range', w, '%s: keeps an entry outside the range' % k0, k0)
                        continue
                    want = [(unld(sub(('f', e, 'ind'), i0)), ('f', e, 'val'))]
                    ctx.check(out == want and inside is True and not below, 'range', w, '%s: emits %s for an entry not known to lie in the range, or not shifted by its start [%s]' % (k0, [tuple(map(show, o)) for o in out], showconds(q)), k0)
                elif q.exit == 'b':
                    ctx.check(in_range(fa) is False, 'range', w, '%s: stops before the end of the range' % k0, k0)
            for q in it.exit:
                fa = Facts(q.trace)
                ok = m.inrange(fa, m.ca, C) is False or in_range(fa) is False
                ctx.check(ok, 'range', w, '%s: stops before the end of the range [%s]' % (k0, showconds(q)), k0)


def h_setblock(ctx, u, f, paths, k0, w):
    i0, i1 = scal(f, 0, u), scal(f, 1, u)
    Bv = ('f', par(f, 2), 'indval')
    for p in paths:
        er = [it for it in p.trace if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'erase' and unld(it.obj) == C]
        for e in er:
            if len(e.args) == 2:
                a, b = e.args
                ok = lb_of(a) == i0 and lb_of(b) == i1
                ctx.check(ok, 'range', w, '%s: erases [%s, %s) instead of the indices in [i0, i1)' % (k0, show(unld(a)), show(unld(b))), k0)
        for it in p.trace:
            if isinstance(it, Loop):
                m = M(it, Bv, None)
                if not m.ca:
                    continue
                for q in it.paths:
                    ins = [x for x in q.trace if isinstance(x, Ev) and x.k == 'call' and short(x.name) in ('emplace', 'insert', 'emplace_back', 'push_back') and unld(x.obj) == C]
                    i, v = ipair(Bv, m.ca[1])
                    ok = len(ins) == 1 and pair(ins[0].args[-1]) == (unld(add(i, i0)), v)
                    ctx.check(ok, 'range', w, '%s: inserts %s instead of the block entry shifted by the start of the range' % (k0, [tuple(map(show, pair(x.args[-1]))) for x in ins]), k0)


def h_eraserow(ctx, u, f, paths, k0, w):
    """remove index i, indices above drop by one"""
    i = scal(f, 0, u)
    for p in paths:
        fa0 = Facts(p.trace)
        er = [it for it in p.trace if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'erase' and unld(it.obj) == C]
        pr = present(Facts([it for it in upto(p, er[0])]) if er else fa0, i)
        if er:
            ctx.check(pr is True and lb_of(er[0].args[0]) == i and len(er[0].args) == 1, 'range', w, '%s: erases an entry that is not known to have the index' % k0, k0)
        elif pr is True:
            ctx.bad('range', w, '%s: keeps the entry at the deleted index' % k0, k0)
        Ls = [it for it in p.trace if isinstance(it, Loop) and M(it, C, None).ca]
        for L in Ls:
            m = M(L, C, None)
            ctx.check(lb_of(m.ca[2]) == i, 'range', w, '%s: renumbering starts at %s' % (k0, show(m.ca[2])), k0)
            e = ('ix', C, m.ca[1])
            for q in L.paths:
                s = [x for x in q.trace if isinstance(x, Ev) and x.k == 'set' and unld(x.obj) == ('f', e, 'ind')]
                ok = m.step(q, m.ca) == 1 and len(s) == 1 and unld(s[0].args[0]) == unld(sub(('f', e, 'ind'), 1))
                ctx.check(ok, 'range', w, '%s: an index above the deleted one becomes %s' % (k0, [show(unld(x.args[0])) for x in s]), k0)
            for q in L.exit:
                ctx.check(m.inrange(Facts(q.trace), m.ca, C) is False, 'range', w, '%s: renumbering stops early' % k0, k0)
        if not Ls and not (fa0.empty(C) is True or any(fa0.holds('==', lbpos(i), size_of(C)) is True for _ in (0,)) or pos_end(fa0, i)):
            ctx.bad('range', w, '%s: indices above the deleted one are not renumbered [%s]' % (k0, showconds(p)), k0)


def pos_end(fa, i):
    for t, pol in fa.st.facts.items():
        for s in subterms(t):
            if isinstance(s, tuple) and s and s[0] == 'app' and s[1] == 'lower_bound' and lb_of(s) == i:
                if fa.holds('==', s, size_of(C)) is True:
                    return True
    return False


def h_eraselast(ctx, u, f, paths, k0, w):
    i = scal(f, 0, u)
    lastind = ('f', ('ix', C, unld(sub(size_of(C), 1))), 'ind')
    for p in paths:
        pops = [it for it in p.trace if isinstance(it, Ev) and it.k == 'call' and short(it.name) in ('pop_back', 'erase') and unld(it.obj) == C]
        fa = Facts(p.trace)
        if any(isinstance(it, Loop) for it in p.trace):
            continue
        e = fa.holds('==', lastind, i)
        if pops:
            ctx.check(e is True and len(pops) == 1, 'range', w, '%s: drops the last entry although its index may differ' % k0, k0)
        else:
            ctx.check(e is False or fa.empty(C) is True, 'range', w, '%s: keeps an entry at the deleted row' % k0, k0)


def h_eraseafter(ctx, u, f, paths, k0, w):
    mrow = scal(f, 0, u)
    lastind = ('f', ('ix', C, unld(sub(size_of(C), 1))), 'ind')
    for L, p, _ in loops_of(paths):
        if not any(isinstance(x, Ev) and x.k == 'call' and short(x.name) == 'pop_back' for q in L.paths for x in q.trace):
            continue
        for q in L.paths:
            if any(isinstance(x, Ev) and x.k == 'call' and short(x.name) == 'pop_back' for x in q.trace):
                fa = Facts(q.trace)
                ctx.check(fa.holds('<', mrow, lastind) is True and fa.empty(C) is False, 'range', w, '%s: drops an entry not known to be above the kept rows [%s]' % (k0, showconds(q)), k0)
        for q in leaves(L):
            fa = Facts(q.trace)
            ctx.check(fa.empty(C) is True or fa.holds('<', mrow, lastind) is False, 'range', w, '%s: stops while the last entry may be above the kept rows' % k0, k0)


def h_eraseinitial(ctx, u, f, paths, k0, w):
    nd = scal(f, 0, u)
    for p in paths:
        Ls = [it for it in p.trace if isinstance(it, Loop)]
        if len(Ls) != 2:
            ctx.count("range operations not recognised")
            continue
        m1, m2 = M(Ls[0], C, None), M(Ls[1], C, None)
        if not (m1.ca and m2.ca):
            continue
        e1 = ('f', ('ix', C, m1.ca[1]), 'ind')
        for q in Ls[0].paths:
            fa = Facts(q.trace)
            lt = fa.holds('<', e1, nd)
            if q.exit in ('n', 'c'):
                ctx.check(lt is True and m1.step(q, m1.ca) == 1, 'range', w, '%s: skips an entry that is not below the cut' % k0, k0)
            elif q.exit == 'b':
                ctx.check(lt is False, 'range', w, '%s: stops before the cut' % k0, k0)
        # the copying loop: source cursor continues, target starts at 0
        cs = cursors(Ls[1])
        src = dst = None
        for d, (nm, sy, s0, cc) in cs.items():
            if unld(s0) == unld(m1.ca[1]):
                src = (d, sy)
            elif s0 == 0:
                dst = (d, sy)
        if not src or not dst:
            ctx.count("range operations not recognised")
            continue
        for q in Ls[1].paths:
            sets = [x for x in q.trace if isinstance(x, Ev) and x.k == 'set' and root(unld(x.obj)) == THIS]
            se = ('ix', C, src[1])
            got = {}
            for x in sets:
                o = unld(x.obj)
                if o == ('ix', C, dst[1]):
                    got['ind'], got['val'] = pair(x.args[0])
                elif o[0] == 'f' and o[1] == ('ix', C, dst[1]):
                    got[o[2]] = unld(x.args[0])
                else:
                    got['?'] = o
            ok = got.get('ind') == unld(sub(('f', se, 'ind'), nd)) and got.get('val') == ('f', se, 'val') and '?' not in got
            ok = ok and sub(q.env[src[0]], src[1]) == 1 and sub(q.env[dst[0]], dst[1]) == 1
            ctx.check(ok, 'range', w, '%s: a kept entry is not moved down with its index lowered by the number of deleted rows' % k0, k0)
        rs = [x for x in p.trace if isinstance(x, Ev) and x.k == 'call' and short(x.name) in ('resize', 'erase') and unld(x.obj) == C]
        ctx.check(len(rs) == 1 and (unld(rs[0].args[0]) == dst[1] or idx_of(rs[0].args[0]) == dst[1]), 'range', w, '%s: the vector is not cut to the kept entries' % k0, k0)


def h_subvector(ctx, u, f, paths, k0, w):
    P = par(f, 0)
    for p in paths:
        lo = None
        for n_, it in enumerate(p.trace):
            if isinstance(it, Loop) and elem_loop(it):
                lo = n_
                i, e = elem_loop(it)
                t = ('ix', P, ('f', e, 'ind'))
                for q in it.paths:
                    out = out_pushes(q, C, None)
                    miss = Facts(q.trace).holds('==', t, NO_IND)
                    ctx.check(miss is not None and q.exit in ('n', 'c') and out == ([] if miss else [(t, ('f', e, 'val'))]), 'filter', w,
                              '%s: stores %s for an index that is %s' % (k0, [tuple(map(show, o)) for o in out], 'not selected' if miss else 'selected'), k0)
        if lo is None:
            continue
        srt = [x for x in p.trace[lo + 1:] if isinstance(x, Ev) and x.k == 'call' and x.name in ('std::sort', 'std::stable_sort')]
        ctx.check(len(srt) > 0, 'order', w, '%s: the selected entries are not put in order' % k0, k0)


def h_indexset(ctx, u, f, paths, k0, w):
    """entries whose index is in the sorted set, renumbered by their position in the set"""
    S = par(f, 0)

    class MM(M):
        pass
    for L, p, _ in loops_of(paths):
        m = M(L, C, S)
        if not (m.ca and m.cb):
            ctx.count("merges not recognised")
            continue
        cts = [(d, sy, s0) for d, (nm, sy, s0, cc) in cursors(L).items() if d not in (m.ca[0], m.cb[0])]
        for q in L.paths:
            if q.exit not in ('n', 'c'):
                continue
            fa = Facts(q.trace)
            e, s = ('ix', C, m.ca[1]), ('ix', S, m.cb[1])
            r = rel(fa, ('f', e, 'ind'), s)
            da, db = m.step(q, m.ca), m.step(q, m.cb)
            out = out_pushes(q, C, S)
            if r is None:
                ctx.bad('merge', w, '%s: advances without comparing index and selection' % k0, k0)
                continue
            # positions in the set: its own cursor, or a counter that moves with it
            pos = [m.cb[1]] if m.cb[2] == 0 else []
            for d, sy, s0 in cts:
                if s0 == 0 and sub(q.env[d], sy) == db:
                    pos.append(sy)
            for d, sy, s0 in cts:
                ctx.check(sub(q.env[d], sy) == db, 'merge', w, '%s: the position counter moves by %s while the selection moves by %s' % (k0, show(sub(q.env[d], sy)), show(db)), k0)
            want = {0: (1, 1), -1: (1, 0), 1: (0, 1)}[r]
            okstep = (da, db) == want or (r == 0 and (da, db) in ((1, 1), (0, 1), (1, 0)) and False)
            ctx.check(okstep, 'merge', w, '%s: cursors advance by (%s, %s) instead of %s' % (k0, show(da), show(db), want), k0)
            if r == 0:
                ctx.check(len(out) == 1 and out[0][0] in pos and out[0][1] == ('f', e, 'val'), 'merge', w, '%s: a selected entry is stored as %s' % (k0, [tuple(map(show, o)) for o in out]), k0)
            else:
                ctx.check(out == [], 'merge', w, '%s: stores an entry that is not selected' % k0, k0)
        for q in L.exit:
            fa = Facts(q.trace)
            ctx.check(m.inrange(fa, m.ca, C) is False or m.inrange(fa, m.cb, S) is False, 'merge', w, '%s: stops early' % k0, k0)


def h_insertrows(ctx, u, f, paths, k0, w):
    """old index i moves to i + number of inserted rows at or before its new place"""
    R = par(f, 0)
    withvals = len(f.d['ps']) > 1 and 'vector' in u.type(f.d['ps'][1]['t'])
    for p in paths:
        Ls = [it for it in p.trace if isinstance(it, Loop)]
        fa = Facts(p.trace)
        if fa.empty(R) is True:
            continue
        outer = [L for L in Ls if M(L, C, None).ca or elem_loop(L)]
        if not outer:
            ctx.count("range operations not recognised")
            continue
        L = outer[0]
        el = elem_loop(L)
        ctx.check(el is not None, 'insert', w, '%s: not every old index is moved' % k0, k0)
        if not el:
            continue
        i, e = el
        ind = ('f', e, 'ind')
        for q in L.paths:
            inner = [it for it in q.trace if isinstance(it, Loop)]
            if len(inner) != 1:
                ctx.count("range operations not recognised")
                continue
            I = inner[0]
            rc = [(d, sy, s0, cc) for d, (nm, sy, s0, cc) in cursors(I).items() if cc == R]
            if len(rc) != 1:
                ctx.count("range operations not recognised")
                continue
            d, sy, s0, _ = rc[0]
            for b in I.paths + I.exit:
                ctx.check(guarded(b, R, sy), 'bounds', w, '%s: reads the inserted row list before checking for its end' % k0, k0)
            # invariant: index - old index == cursor position
            sets = [x for x in q.trace[:q.trace.index(I)] if isinstance(x, Ev) and x.k == 'set' and unld(x.obj) == ind]
            tot = unld(sub(sets[-1].args[0], ind)) if len(sets) == 1 else None
            ctx.check(tot is not None and tot == unld(s0), 'insert', w, '%s: the old index is moved by %s while %s inserted rows precede it' % (k0, show(tot) if tot is not None else '?', show(s0)), k0)
            for b in I.paths:
                fb = Facts(b.trace)
                st = [x for x in b.trace if isinstance(x, Ev) and x.k == 'set' and unld(x.obj) == ind]
                ok = len(st) == 1 and unld(sub(st[0].args[0], ind)) == 1 and sub(idx_of(b.env[d]), sy) == 1
                ok = ok and fb.holds('<', ind, ('ix', R, sy)) is False
                ctx.check(ok, 'insert', w, '%s: index and position among the inserted rows do not move together' % k0, k0)
                for dd, (nm, s2, s00, cc) in cursors(I).items():
                    if dd != d:
                        ctx.check(unld(sub(b.env[dd], s2)) == 1 and unld(s00) == unld(s0), 'insert', w, '%s: the count of inserted rows gets out of step' % k0, k0)
            for b in I.exit:
                fb = Facts(b.trace)
                ctx.check(fb.holds('<', ind, ('ix', R, sy)) is True or fb.holds('==', sy, size_of(R)) is True or fb.holds('<', sy, size_of(R)) is False,
                          'insert', w, '%s: stops although another inserted row is at or before the index' % k0, k0)
        if withvals:
            V = par(f, 1)
            rest = Ls[Ls.index(L) + 1:]
            ok = False
            for X in rest:
                k = iterates(X, R)
                if k is None:
                    continue
                ok = all([pair(x.args[-1]) if len(x.args) == 1 else (unld(x.args[0]), unld(x.args[1])) for x in pushes(b, C)] == [(('ix', R, k), ('ix', V, k))] for b in X.paths)
            ctx.check(ok, 'insert', w, '%s: the new entries are not the given row indices with their values' % k0, k0)
            n_ = p.trace.index(L)
            srt = any(isinstance(x, Ev) and x.k == 'call' and x.name in ('std::sort', 'std::stable_sort') and whole_range(x.args, C) for x in p.trace[n_:])
            ctx.check(srt or fa.empty(C) is True, 'order', w, '%s: new entries are appended without restoring the order' % k0, k0)


def h_kron(ctx, u, f, paths, k0, w):
    B = ('f', par(f, 0), 'indval')
    m = scal(f, 1, u)
    for L, p, cx in loops_of(paths):
        inner = [(it, q) for q in L.paths for it in q.trace if isinstance(it, Loop)]
        if not inner:
            continue
        a = elem_loop(L, C)
        for I, q in inner:
            b = elem_loop(I, B)
            if not (a and b):
                ctx.count("products not recognised")
                continue
            (x, y), (z, v) = ipair(C, a[0]), ipair(B, b[0])
            for t in I.paths:
                out = out_pushes(t, C, B)
                ctx.check(out == [(unld(add(mul(m, x), z)), unld(mul(y, v)))], 'product', w, '%s: stores %s' % (k0, [tuple(map(show, o)) for o in out]), k0)
        ctx.check(all(q.exit in ('n', 'c') for q in L.paths), 'product', w, '%s: leaves the loop early' % k0, k0)


def h_list(what):
    def h(ctx, u, f, paths, k0, w):
        for p in paths:
            for it in p.trace:
                if isinstance(it, Loop) and elem_loop(it):
                    i, e = elem_loop(it)
                    for q in it.paths:
                        out = [unld(x.args[-1]) for x in pushes(q)]
                        ctx.check(out == [('f', e, x) for x in what] or sorted(out, key=key) == sorted([('f', e, x) for x in what], key=key), 'list', w, '%s: lists %s' % (k0, [show(o) for o in out]), k0)
    return h


def h_plus(ctx, u, f, paths, k0, w):
    o = par(f, 0)
    for p in paths:
        calls = [it for it in p.trace if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'axpy']
        if len(calls) != 1:
            ctx.count("sums not recognised")
            continue
        c = calls[0]
        ok = c.args[0] == 1 and unld(c.args[1]) == o and unld(c.obj) == unld(p.val)
        ctx.check(ok, 'sum', w, '%s: adds %s times %s' % (k0, show(c.args[0]), show(unld(c.args[1]))), k0)


# ------------------------------------------------------------------------ sorted containers
def sorted_rules(ctx, u):
    for name in ('intersect_sorted', 'has_intersect_sorted', 'intersect_sorted_lt', 'has_intersect_sorted_lt'):
        for f in u.find('bats::util::' + name):
            if f.dep:
                continue
            A, B = par(f, 0), par(f, 1)
            lt = name.endswith('_lt')
            has = name.startswith('has')
            w, k0 = f.loc(), name
            mx = scal(f, 2, u) if lt else None
            ctx.function(f)
            ctx.count("operations")
            paths = VE(u).run(f)
            if not any(M(L, A, B).ca and M(L, A, B).cb for L, p, c in loops_of(paths)):
                ctx.count("merges not recognised")
                continue

            def below(fa, t):
                return mx is None or fa.holds('<', t, mx) is True

            for L, p, _ in loops_of(paths):
                m = M(L, A, B)
                if not (m.ca and m.cb):
                    continue
                ctx.check(m.ca[2] == 0 and m.cb[2] == 0, 'merge', w, '%s: cursors do not start at the beginning' % k0, k0)
                a, b = ('ix', A, m.ca[1]), ('ix', B, m.cb[1])
                # elements known below the bound at the loop head: the condition, or guarded on every way into the head
                for q in L.paths:
                    fa = Facts(q.trace)
                    r = rel(fa, a, b)
                    da, db = m.step(q, m.ca), m.step(q, m.cb)
                    out = [unld(x.args[-1]) for x in pushes(q)]
                    if r is None:
                        stop = q.exit in ('b', 'ret')
                        if stop and mx is not None and (fa.holds('<', a, mx) is False or fa.holds('<', b, mx) is False):
                            continue
                        ctx.check(False, 'merge', w, '%s: proceeds without comparing the two elements [%s]' % (k0, showconds(q)), k0)
                        continue
                    if r == 0:
                        if has:
                            if q.exit == 'ret':
                                ctx.check(q.val == 1 and below(fa, a) or below(fa, b) and q.val == 1 or (q.val == 0 and mx is not None and fa.holds('<', a, mx) is False), 'merge', w,
                                          '%s: returns %s on a common element%s' % (k0, show(q.val), ' not known to be below the bound' if mx is not None else ''), k0)
                            elif q.exit in ('n', 'c'):
                                ctx.bad('merge', w, '%s: passes over a common element' % k0, k0)
                            continue
                        isb = below(fa, a) or below(fa, b)
                        ctx.check(out in ([a], [b]) and isb or (not isb and out == [] and mx is not None and (fa.holds('<', a, mx) is False or fa.holds('<', b, mx) is False)), 'merge', w,
                                  '%s: a common element%s is handled as %s' % (k0, '' if isb else ' not known to be below the bound', [show(o) for o in out]), k0)
                        if q.exit in ('n', 'c'):
                            ctx.check((da, db) == (1, 1), 'merge', w, '%s: cursors advance by (%s, %s) after a common element' % (k0, show(da), show(db)), k0)
                        continue
                    ctx.check(out == [] and q.exit != 'ret', 'merge', w, '%s: reports an element of only one set' % k0, k0)
                    if q.exit in ('n', 'c'):
                        ctx.check((da, db) == ((1, 0) if r < 0 else (0, 1)), 'merge', w, '%s: cursors advance by (%s, %s) past the smaller element' % (k0, show(da), show(db)), k0)
                    else:
                        # early stop: the next element must be exhausted or at the bound
                        na, nb = unld(add(m.ca[1], da)), unld(add(m.cb[1], db))
                        ok = fa.holds('==', na, size_of(A)) is True or fa.holds('==', nb, size_of(B)) is True
                        if mx is not None:
                            ok = ok or fa.holds('<', ('ix', A, na), mx) is False or fa.holds('<', ('ix', B, nb), mx) is False
                        ctx.check(ok, 'merge', w, '%s: stops although both sets have more elements' % k0, k0)
                for q in L.exit:
                    fa = Facts(q.trace)
                    ok = m.inrange(fa, m.ca, A) is False or m.inrange(fa, m.cb, B) is False
                    if mx is not None:
                        ok = ok or fa.holds('<', a, mx) is False or fa.holds('<', b, mx) is False
                    ctx.check(ok, 'merge', w, '%s: stops although both sets have more elements' % k0, k0)
            if has:
                for p in paths:
                    if not any(isinstance(it, Leave) and it.path.exit == 'ret' for it in p.trace):
                        ctx.check(p.val == 0, 'merge', w, '%s: returns %s when no common element was found' % (k0, show(p.val)), k0)
            else:
                for p in paths:
                    out = par(f, 3 if lt else 2)
                    ctx.check(fresh(p, out) and any(isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'clear' and unld(it.obj) == out for it in p.trace[:1 + [isinstance(x, Loop) for x in p.trace].index(True)] if isinstance(it, Ev)), 'merge', w, '%s: the result is not emptied first' % k0, k0)
    for f in u.find('bats::util::sorted_complement'):
        if f.dep:
            continue
        A = par(f, 0)
        n = scal(f, 1, u)
        w, k0 = f.loc(), 'sorted_complement'
        ctx.function(f)
        ctx.count("operations")
        for p in VE(u).run(f):
            prev = 0
            for it in p.trace:
                if not isinstance(it, Loop):
                    continue
                m = M(it, A, None)
                cnt = [(d, sy, s0) for d, (nm, sy, s0, cc) in cursors(it).items() if not m.ca or d != m.ca[0]]
                if len(cnt) != 1:
                    ctx.count("merges not recognised")
                    break
                d, sy, s0 = cnt[0]
                ctx.check(unld(s0) == unld(prev), 'complement', w, '%s: numbering restarts at %s' % (k0, show(s0)), k0)
                prev = sy
                for q in it.paths:
                    fa = Facts(q.trace)
                    out = [unld(x.args[-1]) for x in pushes(q)]
                    di = sub(q.env[d], sy)
                    if m.ca and m.inrange(fa, m.ca, A) is not False:
                        eq = fa.holds('==', ('ix', A, m.ca[1]), sy)
                        if eq is None:
                            r_ = rel(fa, ('ix', A, m.ca[1]), sy)
                            eq = None if r_ is None else r_ == 0
                        ok = eq is True and di == 1 and m.step(q, m.ca) == 1 and out == [] or eq is False and di == 1 and m.step(q, m.ca) == 0 and out == [sy]
                    else:
                        ok = di == 1 and out == [sy] and (fa.holds('<', sy, n) is True or fa.holds('==', sy, n) is False)
                    ctx.check(ok, 'complement', w, '%s: emits %s and advances the number by %s' % (k0, [show(o) for o in out], show(di)), k0)
    for f in u.find('bats::util::find_sorted_lt'):
        if f.dep:
            continue
        w, k0 = f.loc(), 'find_sorted_lt'
        ctx.function(f)
        ctx.count("operations")
        b, e, v = par(f, 0), par(f, 1), scal(f, 2, u)
        for p in VE(u).run(f):
            fa = Facts(p.trace)
            lbs = [it.res for it in p.trace if isinstance(it, Ev) and it.k == 'pure' and short(it.name) == 'lower_bound']
            if len(lbs) != 1:
                continue
            t = unld(lbs[0])
            first = fa.holds('==', t, b)
            for it in p.trace:
                for x in subterms(unld(it.t)) if isinstance(it, Cond) else ():
                    if isinstance(x, tuple) and x and x[0] in ('deref', 'ix') and any(y == t for y in subterms(x)):
                        ctx.check(first is False, 'bounds', w, '%s: looks at the element before the lower bound without knowing that there is one' % k0, k0)
            r = unld(p.val)
            if r == NO_IND:
                small = [c for c in conds(p) if c.t[0] == 'cmp' and c.t[1] == '<' and unld(c.t[3]) == v]
                ctx.check(first is True or first is False and any(not c.pol for c in small), 'search', w, '%s: reports no smaller element although there may be one' % k0, k0)
            else:
                ctx.check(first is False and r == unld(sub(sub(t, b), 1)), 'search', w, '%s: returns position %s' % (k0, show(r)), k0)


# ------------------------------------------------------------------------ construction
def h_tuplector(ctx, u, f, paths, k0, w):
    P = par(f, 0)
    for p in paths:
        ok = any(isinstance(x, Ev) and x.k == 'call' and x.name in ('std::sort', 'std::stable_sort') for x in p.trace)
        fa = Facts(p.trace)
        ctx.check(ok or fa.empty(C) is True, 'order', w, '%s: unsorted input is stored without sorting' % k0, k0)


class CE(VE):
    casts = ('ModP',)


def srcpos(t):
    """(parameter the element comes from, position) for elements of a list or behind a cursor"""
    t = unld(t)
    while isinstance(t, tuple) and t and t[0] == 'app' and short(t[1]) in ('ModP', 'Rational') and len(t[2]) == 1:
        t = unld(t[2][0])
    if isinstance(t, tuple) and t and t[0] == 'f' and t[2] in ('ind', 'val'):
        t = unld(t[1])
    if isinstance(t, tuple) and t and t[0] == 'ix':
        names = {x[1] for x in subterms(t[1]) if isinstance(x, tuple) and x and x[0] in ('v', 'sym')}
        return (names, t[2])
    return (None, None)


def h_build(ctx, u, f, paths, k0, w):
    """entries built from given values: stored exactly when the value is not zero, with its own index"""
    target = None
    mine = False
    for p in paths:
        pre = []
        for n, it in enumerate(p.trace):
            if not isinstance(it, (Loop, Ev)):
                pre.append(it)
                continue
            segs = []
            if isinstance(it, Loop):
                segs = [(q, Facts(pre + list(q.trace))) for q in it.paths if q.exit in ('n', 'c')]
            elif it.k == 'call' and short(it.name) in ('emplace_back', 'push_back') and it.obj is not None:
                segs = [(None, Facts(p.trace[:n]))]
            vals = []
            got = []
            for q, fa in segs:
                es = pushes(q) if q is not None else [it]
                es = [e for e in es if any(isinstance(a, tuple) and (a[0] == 'tup' or len(e.args) == 2) for a in e.args)]
                ivs = []
                for e in es:
                    i, v = (pair(e.vals[-1]) if len(e.args) == 1 else (unld(e.vals[0]), unld(e.vals[1])))
                    if i is None or v is None:
                        continue
                    target = unld(e.obj)
                    ivs.append((i, v))
                got.append((q, fa, ivs))
                vals += [v for i, v in ivs]
            # later changes of the container (filtering, swapping) are outside of this rule
            later = [x for x in p.trace[n + 1:] if target is not None and (isinstance(x, Ev) and x.k in ('call', 'set') and short(x.name) not in ('sort', 'stable_sort', 'reserve', 'shrink_to_fit', 'emplace_back', 'push_back') and target in [unld(x.obj)] + [unld(a) for a in x.args]
                     or isinstance(x, Loop) and n + 1 < len(p.trace))]
            if not vals:
                continue
            if later:
                ctx.count("constructions not recognised")
                return
            for q, fa, ivs in got:
                mine = True
                for i, v in ivs:
                    z = fa.holds('==', v, 0)
                    ctx.count("entries stored by constructors")
                    ctx.check(z is False or is_num(v) and v != 0, 'construct', w, '%s: an entry with value %s is stored without excluding that the value is zero in the field' % (k0, show(v)), k0)
                    (ri, pi), (rv, pv) = srcpos(i), srcpos(v)
                    if pi is not None and pv is not None:
                        d = sub(pi, pv)
                        if isinstance(it, Loop):
                            first = nxt = d         # the positions agree at the start and keep their distance
                            for dd, (nm, sy) in it.syms.items():
                                first = subst(first, sy, unld(it.start.get(dd)) if it.start.get(dd) is not None else sy)
                                nxt = subst(nxt, sy, q.env.get(dd, sy))
                            step = sub(nxt, d)
                            d = step if is_num(step) and step != 0 else first
                        ctx.check(not is_num(d) or d == 0, 'construct', w, '%s: index and value come from different positions (%s and %s)' % (k0, show(pi), show(pv)), k0)
                        ps = [x['n'] for x in f.d['ps']]
                        if len(ps) >= 2 and {ps[0], ps[1]} & ri and {ps[0], ps[1]} & rv and pi is not None and 'it' not in ps[0]:
                            ctx.check(ps[0] in ri and ps[1] in rv, 'construct', w, '%s: indices and values are exchanged' % k0, k0)
                if q is not None and not ivs:
                    ctx.check(any(fa.holds('==', v, 0) is True for v in vals), 'construct', w, '%s: an entry is dropped whose value may be nonzero [%s]' % (k0, showconds(q)), k0)
                if q is not None and len(ivs) > 1:
                    ctx.bad('construct', w, '%s: one input entry is stored %d times' % (k0, len(ivs)), k0)
                if q is not None:
                    for d, (nm, sy) in it.syms.items():
                        st = sub(q.env.get(d), sy) if q.env.get(d) is not None else None
                        if is_num(st):
                            ctx.check(st == 1, 'construct', w, '%s: %s advances by %s' % (k0, nm, st), k0)
                        s0 = unld(it.start.get(d))
                        if is_num(s0):
                            ctx.check(s0 == 0, 'construct', w, '%s: %s starts at %s' % (k0, nm, s0), k0)
    if target is None or not mine:
        ctx.count("constructions not recognised")
        return
    # paths that store nothing at all
    for p in paths:
        if any(isinstance(x, Loop) for x in p.trace) or any(isinstance(x, Ev) and x.k == 'call' and short(x.name) in ('emplace_back', 'push_back') for x in p.trace):
            continue
        fa = Facts(p.trace)
        ok = any(fa.holds('==', t, 0) is True for t in [scal(f, i, u) for i in range(len(f.d['ps']))] + [size_of(par(f, i)) for i in range(len(f.d['ps']))])
        ctx.check(ok, 'construct', w, '%s: nothing is stored although the value may be nonzero [%s]' % (k0, showconds(p)), k0)


HANDLERS = {
    'axpy': h_axpy, 'nnz_intersection': h_nnzi, 'coeff_intersection': h_coeff, 'operator==': h_eq,
    'clear_zeros': h_filter(keep_nonzero), 'clear_inds': h_filter(keep_unmarked),
    'permute': h_reindex(lambda f, u, i: ('ix', par(f, 0), i), 0), 'ipermute': h_reindex(lambda f, u, i: ('ix', par(f, 0), i), 0, inverse=inverse_of),
    'J': h_reindex(lambda f, u, i: sub(sub(scal(f, 0, u), 1), i), -1), 'reverse_inds': h_reindex(lambda f, u, i: sub(scal(f, 0, u), i), -1),
    'shift_inds': h_reindex(lambda f, u, i: add(i, scal(f, 0, u)), 1),
    'getval': h_getval, 'swap_rows': h_swaprows, 'mix_rows': h_mixrows,
    'block': h_block, 'set_block': h_setblock, 'erase_for_matrix': h_eraserow, 'erase_last_row_of_matrix': h_eraselast,
    'erase_rows_after': h_eraseafter, 'erase_initial_rows': h_eraseinitial, 'subvector': h_subvector,
    'insert_rows': h_insertrows, 'kron': h_kron, 'nzinds': h_list(('ind',)), 'nzvals': h_list(('val',)), 'nzs': h_list(('ind', 'val')),
    'operator+': h_plus, 'scale': None,
}


def run(ctx):
    u, = prog.load(['linalg'])
    got = {}
    build = []
    for f in u.funcs:
        if f.d.get('ctor') and f.d.get('cls') == 'SparseVector' and not f.dep and len(f.d['ps']) == 1 and f.file.endswith('sparse_vector.hpp') and 'ModP' in u.type(f.d['ct']) and 'SparseVector<int' in u.type(f.d['ps'][0]['t']):
            build.append((f, 'conversion'))
    for f in u.funcs:
        if f.dep or f.d.get('cls') != 'SparseVector' or f.d.get('imp') or f.d.get('dfd') or not f.file.endswith('sparse_vector.hpp'):
            continue
        if '<int,' not in u.type(f.d['ct']):
            continue
        name = short(f.name)
        nps = len(f.d['ps'])
        w = f.loc()
        h = HANDLERS.get(name)
        k0 = name
        ps = [u.type(p['t']) for p in f.d['ps']]
        if name == 'operator*':
            h = h_dot if 'SparseVector' in ps[0] else h_scale(lambda f, u, e: scal(f, 0, u))
            k0 = name + ('(vector)' if 'SparseVector' in ps[0] else '(scalar)')
        elif name == 'operator[]':
            h = h_indexset if 'vector' in ps[0] else None
        elif name == 'scale_inplace':
            if nps == 2:
                h = h_scaleat
            elif 'vector' in ps[0]:
                h = h_scale(lambda f, u, e: ('ix', par(f, 0), ('f', e, 'ind')))
            else:
                h = h_scale(lambda f, u, e: scal(f, 0, u))
        elif f.d.get('ctor') and nps == 1 and 'tuple' in ps[0]:
            h = h_tuplector
            build.append((f, k0))
        elif name == 'dense' or f.d.get('ctor') and nps in (2, 3) or name == 'cast_values':
            build.append((f, name))
        if h is None:
            continue
        got[name] = got.get(name, 0) + 1
        ctx.function(f)
        ctx.count("operations")
        voc = (lambda n, x: short(n) == 'axpy') if name == 'operator+' else (lambda n, x: short(n) in ('inv_perm', 'filtration_iperm'))
        paths = VE(u, vocab=voc).run(f)
        h(ctx, u, f, paths, k0 + ('#%d' % nps if name in ('axpy', 'insert_rows', 'clear_inds', 'scale_inplace') else ''), w)
    for f, k0 in build:
        k0 = 'constructor#%d' % len(f.d['ps']) if f.d.get('ctor') and k0 != 'conversion' else k0
        ctx.function(f)
        ctx.count("constructions")
        h_build(ctx, u, f, CE(u).run(f), k0, f.loc())
    for n in ('axpy', 'operator*', 'operator==', 'permute', 'getval', 'block', 'nnz_intersection'):
        ctx.need(n in got, 'anchor vanished: SparseVector::%s' % n)
    sorted_rules(ctx, u)
    ctx.need(ctx.counts.get("operations", 0) > 0, 'nothing analysed')
