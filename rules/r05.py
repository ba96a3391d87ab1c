"""Orientation of permutations as a word problem.  Every index vector gets a word in a free group
(the parameter, the sorting permutation of some values, the reversal, the move-to-the-end of some
indices and their inverses); the utilities that build, invert and apply permutations are reduced to
such words from their loops and comparators, and every place that re-orders a complex, a matrix or
a filtration must then apply exactly the word its meaning prescribes: the same orientation on the
columns of one differential and the rows of the next, sorted order on construction, the quotient of
old and new order on an update, deletion before permutation on a general update.  Which matrices
must be touched is decided by evaluating the path conditions for every dimension of small
complexes."""
from rules.common import *
from bx.words import *
from bx.words import sname

PROP = dict(
    id="R05", title="Every re-ordering uses the right permutation in the right direction",
    statement="The utilities that sort, invert, compose and apply permutations return exactly the named permutation (sortperm lists the cells in increasing order of value, inv_perm its inverse, apply_perm and the swap variants gather or scatter as documented, perm_to_the_end and extension_perm keep every index exactly once). Permuting the basis of a chain, cochain or DG complex in dimension k permutes the columns of one differential and the rows of the adjacent one by the same permutation, in the same direction, for every dimension and degree, and ipermute is the inverse of permute. Filtered complexes are stored in the sorted order of their values (reversed for degree +1), the stored perm maps positions to cells, and update_filtration moves every cell from its old position to the position of its new value, whatever the previous order was; general updates move deleted cells to the end before the remaining ones are permuted.",
    over=["inputs", "histories"],
    text="all permutations, all dimensions and maximal dimensions, both degrees, any previous order of the filtration",
    why="a permutation applied in the wrong direction is invisible whenever the permutation is an involution, a single swap or the identity, which is what small tests use, and errors in the boundary dimensions or after a second update only show on histories",
    files=["include/util/permutation.hpp", "include/filtration/filtration.hpp", "include/filtration/update_information.hpp", "include/chain/chain_complex.hpp", "include/chain/cochain_complex.hpp", "include/chain/filtered_chain_complex.hpp", "include/dgvs/dgvs.hpp", "include/dgvs/filtered_dgvs.hpp", "include/homology/basis.hpp", "include/homology/dgbasis.hpp", "include/persistence/filtered_basis.hpp", "include/persistence/filtered_dgbasis.hpp", "include/linalg/col_matrix.hpp", "include/linalg/csc_matrix.hpp"],
    mechanism=[("permutation utilities", "bats::util::sortperm, inv_perm, apply_perm, perm_to_the_end"), ("complexes", "permute_basis, ipermute_basis, permute_matrices"), ("filtrations", "_set_perms, update_filtration, Update_info::filtered_info")],
)
TECHNIQUE = "symbolic replay of index vectors as words in a free group, small-model evaluation of path conditions"
LEVEL = "proof"
ASSUMPTIONS = ["std::sort, std::stable_sort, std::iota, std::reverse behave as specified", "permutation arguments are permutations of the right length (documented precondition)"]
MINIMUM = {"utilities": 12, "complex permutations": 8, "filtrations": 6}


class PE(Engine):
    def __init__(self, u, root=None, **kw):
        r = short(root.name) if root is not None else None
        kw.setdefault('maxpaths', 20000)
        Engine.__init__(self, u, vocab=lambda n, x: (short(n) in VOCAB and not (short(n) == r and root.d.get('cls') == x.get('cls'))) or la_mutator(n, x), **kw)


def par(f, i, u):
    p = f.d['ps'][i]
    t = u.type(p['t'])
    nm = p['n'] or '_p%d' % p['d']
    if p.get('ref') or not Engine(u).is_scalar_type(t):
        return ('v', nm, 0)
    return ('sym', nm, 0)


def inst(u, name, npar=None, key_=lambda f: True):
    """one instance per source location"""
    out, seen = [], set()
    for f in u.find(name):
        if f.dep or f.d.get('imp') or f.d.get('dfd') or npar is not None and len(f.d['ps']) != npar or not key_(f):
            continue
        out.append(f)
    return out


def eq(ctx, got, want, rule, w, what, k0, alsocount=None):
    if isunknown(got):
        ctx.count("words not recognised")
        return
    ctx.check(got == want, rule, w, '%s: %s instead of %s' % (what, showw(got), showw(want)), k0)


# ------------------------------------------------------------------------ utilities
def utilities(ctx, u):
    U = 'bats::util::'

    def one(name, want, target, npar=None, cond=lambda f: True, need=True, perms=()):
        """target(f) -> location or 'ret'; want(f) -> word"""
        fs = inst(u, name, npar, cond)
        if need:
            ctx.need(fs, 'anchor vanished: %s' % name)
        for f in fs:
            k0 = short(f.name) + '/%d' % len(f.d['ps'])
            ctx.function(f)
            ctx.count("utilities")
            e = PE(u, f)
            for p in e.run(f):
                if p.exit == 'throw':
                    continue
                r = Replay([par(f, i, u) for i in perms if i < len(f.d['ps'])]).run(p.trace)
                for loc, L in r.partial:
                    ctx.bad('coverage', f.loc(L.line), '%s: the loop over %s does not reach every index' % (k0, show(loc)), k0)
                fa = Facts(p.trace)
                t = target(f)
                if t == 'ret':
                    v = p.val
                    got = r.W(v)
                    if v is not None and isinstance(v, tuple) and v[0] == 'app' and v[1] == 'new std::vector':
                        got = None
                else:
                    got = r.env.get(t)
                    if got is None:
                        got = r.word(t)
                wt = want(f, r)
                src = f.d['ps'][0]
                empties = [par(f, i, u) for i in range(len(f.d['ps'])) if not Engine(u).is_scalar_type(u.type(f.d['ps'][i]['t']))]
                if got != wt and any(fa.empty(x) is True for x in empties):
                    continue
                eq(ctx, got, wt, 'utility', f.loc(), '%s computes' % k0, k0)
    P = lambda i: (lambda f, r: ((par(f, i, u), 1),))
    S = lambda i: (lambda f, r: ((('S', ((par(f, i, u), 1),)), 1),))
    one(U + 'inv_perm', lambda f, r: ((par(f, 0, u), -1),), lambda f: 'ret', perms=(0,))
    isv = lambda f: 'vector' in u.type(f.d['ps'][0]['t'])
    one(U + 'sortperm', S(0), lambda f: 'ret', 1, isv)
    one(U + 'stable_sortperm', S(0), lambda f: 'ret', 1, isv)
    one(U + 'fill_sortperm', S(0), lambda f: par(f, 1, u), 2, isv)
    one(U + 'fill_sortperm', S(0), lambda f: par(f, 2, u), 3, need=False)
    one(U + 'sortperm', S(0), lambda f: 'ret', 2, need=False)
    one('bats::sort_indexes', S(0), lambda f: 'ret', 1, need=False)
    one('bats::find_perm_from_vector', lambda f, r: invw(S(0)(f, r)), lambda f: 'ret', 1, need=False)
    one('bats::identity_perm', lambda f, r: (), lambda f: 'ret')
    one(U + 'fill_partial_sortperm', lambda f, r: ((('S', mulw(P(1)(f, r), P(0)(f, r))), 1),), lambda f: par(f, 2, u), 3)
    one(U + 'sort_ind_by_perm', lambda f, r: mulw(P(0)(f, r), ((('S', mulw(P(1)(f, r), P(0)(f, r))), 1),)), lambda f: par(f, 0, u), 2)
    one('bats::filtration_sortperm', S(0), lambda f: 'ret', 1)
    one('bats::filtration_iperm', lambda f, r: ((par(f, 0, u), -1),), lambda f: 'ret', 1, perms=(0,))
    q = lambda f, r: mulw(P(0)(f, r), P(len(f.d['ps']) - 1)(f, r))
    one(U + 'apply_perm', q, lambda f: par(f, 0, u), 2)
    one(U + 'apply_perm', q, lambda f: par(f, 0, u), 3)
    one(U + 'apply_iperm_swap', q, lambda f: par(f, 0, u), 2)
    one(U + 'apply_perm_swap', lambda f, r: mulw(P(0)(f, r), invw(P(1)(f, r))), lambda f: par(f, 0, u), 2)
    # pairs of vectors sorted together
    for f in inst(u, U + 'sort_ind_pair_by_perm', 3):
        ctx.function(f)
        ctx.count("utilities")
        for p in PE(u, f).run(f):
            r = Replay().run(p.trace)
            i1, i2, pm = (par(f, i, u) for i in range(3))
            s = ((('S', ((pm, 1), (i1, 1))), 1),)
            eq(ctx, r.word(i1), mulw(((i1, 1),), s), 'utility', f.loc(), 'sort_ind_pair_by_perm leaves the first list as', 'sort_pair1')
            eq(ctx, r.word(i2), mulw(((i2, 1),), s), 'utility', f.loc(), 'sort_ind_pair_by_perm leaves the second list as', 'sort_pair2')
    # position table of a list of indices
    for f in inst(u, U + 'partial_perm', 2):
        ctx.function(f)
        ctx.count("utilities")
        ind, n = par(f, 0, u), par(f, 1, u)
        for p in PE(u, f).run(f):
            r = Replay().run(p.trace)
            for loc, L in r.partial:
                ctx.bad('coverage', f.loc(L.line), 'partial_perm: the loop over %s does not reach every index' % show(loc), 'partial_perm')
            v = unld(p.val)
            eq(ctx, r.word(v) if isinstance(v, tuple) else None, ((ind, -1),), 'utility', f.loc(), 'partial_perm computes', 'partial_perm')
            init = [x for x in p.trace if isinstance(x, Ev) and x.k == 'set' and unld(x.obj) == v]
            if init and isinstance(init[0].args[0], tuple) and init[0].args[0][:2] == ('app', 'new std::vector'):
                a = init[0].args[0][2]
                ctx.check(len(a) >= 2 and unld(a[0]) == unld(n) and a[1] == NO_IND, 'utility', f.loc(), 'partial_perm: indices that are not listed get %s' % (show(a[1]) if len(a) > 1 else 'no value'), 'partial_perm_default')
    to_the_end(ctx, u)
    extension(ctx, u)
    inversions(ctx, u)


def to_the_end(ctx, u):
    fs = inst(u, 'bats::perm_to_the_end', 2)
    ctx.need(fs, 'anchor vanished: perm_to_the_end')
    for f in fs:
        ctx.function(f)
        ctx.count("utilities")
        single = 'vector' not in u.type(f.d['ps'][0]['t'])
        k0 = 'perm_to_the_end(%s)' % ('index' if single else 'list')
        what, n = par(f, 0, u), unld(par(f, 1, u))
        w = f.loc()
        for p in PE(u, f).run(f):
            v = unld(p.val)
            loops = [it for it in p.trace if isinstance(it, Loop)]
            main = None
            for L in loops:
                sy = iterates(L, None, 0, n)
                if sy is not None and any(pushes(q, v) for q in L.paths):
                    main = (L, sy)
            if main is None:
                # provably wrong range
                for L in loops:
                    r = Replay()
                    sy, cov = r.symbol(L)
                    if cov is False and any(pushes(q, v) for q in L.paths):
                        ctx.bad('coverage', f.loc(L.line), '%s: the loop does not reach every index' % k0, k0)
                ctx.count("words not recognised")
                continue
            L, sy = main
            for q in L.paths:
                fa = Facts(q.trace)
                out = [unld(x.args[0]) for x in pushes(q, v)]
                if single:
                    e = fa.holds('==', sy, what)
                    want = [] if e is True else [sy] if e is False else None
                    ctx.check(want is not None and out == want, 'utility', w, '%s: for an index that %s the index to move the loop emits %s' % (
                        k0, 'is' if e else 'is not', [show(o) for o in out]), k0)
                else:
                    cs = [(d, s2, c) for d, (nm, s2, s0, c) in cursors(L).items() if c is not None and unld(c) == unld(what)]
                    if len(cs) != 1:
                        ctx.count("words not recognised")
                        continue
                    d, cy, c = cs[0]
                    st = sub(idx_of(q.env.get(d)), cy)
                    atend = fa.holds('==', cy, size_of(what))
                    if atend is None:
                        x = fa.holds('<', cy, size_of(what))
                        atend = None if x is None else not x
                    hit = fa.holds('==', sy, ('ix', unld(what), cy))
                    listed = atend is False and hit is True
                    notlisted = atend is True or hit is False and atend is False
                    ok = listed and out == [] and st == 1 or notlisted and out == [sy] and st == 0
                    ctx.check(ok, 'utility', w, '%s: %s: emits %s and advances the list by %s' % (
                        k0, 'listed index' if listed else 'other index' if notlisted else 'undecided index', [show(o) for o in out], show(st)), k0)
            # the moved indices follow
            i = p.trace.index(L)
            tail = p.trace[i + 1:]
            if single:
                out = [unld(x.args[0]) for x in pushes(p, v)]
                ctx.check(out == [what] or out == [unld(what)], 'utility', w, '%s: ends with %s instead of the moved index' % (k0, [show(o) for o in out]), k0)
            else:
                ok = None
                for T in tail:
                    if isinstance(T, Loop):
                        sy2 = iterates(T, what)
                        if sy2 is not None:
                            ok = all([unld(x.args[0]) for x in pushes(q, v)] == [('ix', unld(what), sy2)] for q in T.paths)
                    if isinstance(T, Ev) and T.k == 'call' and short(T.name) == 'insert' and unld(T.obj) == v:
                        ok = True
                ctx.check(ok is not False and (ok is True or not any(isinstance(T, Loop) for T in tail)) and (ok is not None), 'utility', w,
                          '%s: the moved indices are not appended in order' % k0, k0)


def extension(ctx, u):
    fs = inst(u, 'bats::extension_perm', 2)
    ctx.need(fs, 'anchor vanished: extension_perm')
    for f in fs:
        ctx.function(f)
        ctx.count("utilities")
        perm, n = par(f, 0, u), unld(par(f, 1, u))
        w, k0 = f.loc(), 'extension_perm'
        for p in PE(u, f).run(f):
            v = unld(p.val)
            fa = Facts(p.trace)
            if isinstance(v, tuple) and v[0] == 'app' and sname(v[1]) == 'identity_perm':
                ctx.check(fa.empty(perm) is True and unld(v[2][0]) == n, 'utility', w, '%s: returns an identity although the permutation may not be empty' % k0, k0)
                continue
            loops = [it for it in p.trace if isinstance(it, Loop) and any(pushes(q, v) for q in it.paths)]
            if len(loops) != 2:
                ctx.count("words not recognised")
                continue
            a = iterates(loops[0], perm)
            ctx.check(a is None or all([unld(x.args[0]) for x in pushes(q, v)] == [('ix', perm, a)] for q in loops[0].paths), 'utility', w, '%s: the first part is not the given permutation' % k0, k0)
            L = loops[1]
            cs = [(d, sy) for d, (nm, sy, s0, c) in cursors(L).items()]
            for q in L.paths:
                out = [unld(x.args[0]) for x in pushes(q, v)]
                ok = len(out) == 1 and any(out[0] == sy and sub(idx_of(q.env.get(d)), sy) == 1 for d, sy in cs)
                ctx.check(ok, 'utility', w, '%s: the appended indices are %s instead of themselves' % (k0, [show(o) for o in out]), k0)
            for q in L.exit:
                fa2 = Facts(q.trace)
                ok = any(fa2.holds('<', sy, n) is False or fa2.holds('==', sy, n) is True for d, sy in cs)
                ctx.check(ok, 'utility', w, '%s: stops before the requested length' % k0, k0)


def inversions(ctx, u):
    for f in inst(u, 'bats::util::perm_inversions', 1):
        ctx.function(f)
        p_ = par(f, 0, u)
        w, k0 = f.loc(), 'perm_inversions'
        for p in PE(u, f).run(f):
            for L, q0, c in loops_of([p]):
                if not c:
                    continue
                r = Replay()
                sy, cov = r.symbol(L)
                os_, _ = r.symbol(c[-1])
                if sy is None or os_ is None:
                    continue
                st = [s0 for d, (nm, s2, s0, cc) in cursors(L).items() if s2 == sy]
                ctx.check(st and unld(st[0]) == add(os_, 1), 'inversions', w, '%s: the second index starts at %s' % (k0, show(st[0]) if st else '?'), k0)
                for q in L.paths:
                    fa = Facts(q.trace)
                    gt = fa.holds('<', ('ix', p_, sy), ('ix', p_, os_))
                    if gt is None:
                        ge = fa.holds('<', ('ix', p_, os_), ('ix', p_, sy))
                        if ge is not None:
                            ctx.count("words not recognised")
                        continue
                    inc = [sub(idx_of(q.env.get(d)), s2) for d, (nm, s2, s0, cc) in cursors(L).items() if s2 != sy]
                    if len(inc) == 1:
                        ctx.check(inc[0] == (1 if gt else 0), 'inversions', w, '%s: counts %s for a pair %s order' % (k0, show(inc[0]), 'out of' if gt else 'in'), k0)
    for f in inst(u, 'bats::util::perm_sign', 1):
        ctx.function(f)
        for p in PE(u, f).run(f):
            fa = None
            for c in conds(p):
                t = c.t
                if t[0] == 'cmp' and t[1] == '==':
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        if is_num(a) and isinstance(b, tuple) and b[0] == 'app' and b[1] in ('&', '%'):
                            fa = (a == 1) == c.pol
                if t[0] == 'truth' and isinstance(t[1], tuple) and t[1][0] == 'app' and t[1][1] in ('&', '%'):
                    fa = c.pol
            if fa is not None and is_num(p.val):
                ctx.check(p.val == (-1 if fa else 1), 'inversions', f.loc(), 'perm_sign: returns %s for an %s number of inversions' % (p.val, 'odd' if fa else 'even'), 'perm_sign')


# ------------------------------------------------------------------------ matrices
def matrices(ctx, u):
    want = {'permute_cols': -1, 'ipermute_cols': 1, 'permute_rows': 1, 'ipermute_rows': -1}
    C = ('f', ('this',), 'col')
    for name, sg in want.items():
        fs = [f for f in u.find('ColumnMatrix::' + name) if not f.dep]
        ctx.need(fs, 'anchor vanished: ColumnMatrix::%s' % name)
        f = fs[0]
        ctx.function(f)
        ctx.count("utilities")
        P = par(f, 0, u)
        for p in PE(u, f).run(f):
            r = Replay([P]).run(p.trace)
            k0 = 'ColumnMatrix::' + name
            for loc, L in r.partial:
                ctx.bad('coverage', f.loc(L.line), '%s: the loop over %s does not reach every index' % (k0, show(loc)), k0)
            if name.endswith('cols'):
                eq(ctx, r.word(C), mulw(((C, 1),), ((P, sg),)), 'matrix', f.loc(), '%s orders the columns as' % k0, k0)
            else:
                acts = [a for a in r.acts if a.name in ('permute', 'ipermute')]
                if not acts:
                    ctx.count("words not recognised")
                for a in acts:
                    sc = a.w if a.name == 'permute' else invw(a.w) if a.w is not None else None
                    eq(ctx, sc, ((P, sg),), 'matrix', f.loc(), '%s moves row i by' % k0, k0)
                    c = unld(a.obj)
                    if isinstance(c, tuple) and c[0] == 'ix' and c[1] == C and a.loop:
                        L, sy, cov = a.loop[-1]
                        ctx.check(cov is not False and (sy is None or c[2] == sy), 'matrix', f.loc(), '%s does not reach every column' % k0, k0)
    for f in [f for f in u.find('ColumnMatrix::permute') if not f.dep and len(f.d['ps']) == 2][:1]:
        ctx.function(f)
        for p in PE(u, f).run(f):
            r = Replay().run(p.trace)
            got = sorted((a.name, showw(a.w)) for a in r.acts)
            rp, cp = par(f, 0, u), par(f, 1, u)
            ctx.check(got == sorted([('permute_rows', showw(((rp, 1),))), ('permute_cols', showw(((cp, 1),)))]), 'matrix', f.loc(), 'ColumnMatrix::permute applies %s' % got, 'ColumnMatrix::permute')
    # a compressed column is sorted by re-ordering rows and values alike
    for f in [f for f in u.find('CSCMatrix::sort_col') if not f.dep and len(f.d['ps']) == 4][:1]:
        ctx.function(f)
        ctx.count("utilities")
        for p in PE(u, f).run(f):
            r = Replay().run(p.trace)
            got = {loc[1]: w for loc, w in r.env.items() if loc[0] == 'rng'}
            row, val = ('f', ('this',), 'rowind'), ('f', ('this',), 'val')
            if row not in got or val not in got:
                ctx.count("words not recognised")
                continue
            a = [(loc, w) for loc, w in r.env.items() if loc[0] == 'rng']
            offs = {loc[2] for loc, w in a}
            ctx.check(len(offs) == 1, 'matrix', f.loc(), 'CSCMatrix::sort_col re-orders different ranges of rows and values', 'sort_col')
            gr = ('rng', row, next(iter(offs)))
            s = ((('S', ((gr, 1),)), 1),)
            for loc, w in a:
                eq(ctx, w[1:], s, 'matrix', f.loc(), 'CSCMatrix::sort_col re-orders %s by' % show(loc[1]), 'sort_col')


# ------------------------------------------------------------------------ complexes
GATHER = {'ipermute_basis': True, 'permute_basis': False}


def evalc(t, env):
    """integer value of a term under env (term -> int) or None"""
    if is_num(t):
        return t
    if t in env:
        return env[t]
    if isinstance(t, tuple) and t and t[0] == 'poly':
        r = 0
        for m, c in t[1]:
            x = c
            for a in m:
                v = evalc(a, env)
                if v is None:
                    return None
                x *= v
            r += x
        return r
    return None


def feasible(items, env):
    for it in items:
        if not isinstance(it, Cond) or it.t[0] != 'cmp':
            continue
        a, b = evalc(unld(it.t[2]), env), evalc(unld(it.t[3]), env)
        if a is None or b is None:
            continue
        v = a < b if it.t[1] == '<' else a == b
        if v != it.pol:
            return False
    return True


# class -> (matrix arrays, size - maxdim, degrees, {degree: [(array, side, offset)]})
T = ('this',)
SIDES = {
    'bats::ChainComplex': ('boundary', 1, (None,), {None: [('boundary', 'cols', 0), ('boundary', 'rows', 1)]}),
    'bats::CochainComplex': ('coboundary', 1, (None,), {None: [('coboundary', 'rows', 0), ('coboundary', 'cols', 1)]}),
    'bats::DGVectorSpace': ('differential', 2, (-1, 1), {-1: [('differential', 'cols', 0), ('differential', 'rows', 1)], 1: [('differential', 'rows', 0), ('differential', 'cols', 1)]}),
    'bats::ReducedChainComplex': ('R', 1, (None,), {None: [('U', 'rows', 0), ('R', 'rows', 1)]}),
    'bats::ReducedDGVectorSpace': ('R', 2, (-1, 1), {-1: [('U', 'rows', 0), ('R', 'rows', 1)], 1: [('R', 'rows', 0), ('U', 'rows', 1)]}),
}


def complexes(ctx, u):
    seen = set()
    for cls, (arr, extra, degs, sides) in SIDES.items():
        names = ('permute_matrices',) if 'Reduced' in cls else ('permute_basis', 'ipermute_basis')
        for name in names:
            fs = [f for f in u.find(cls + '::' + name) if not f.dep and len(f.d['ps']) == 2 and not ('flag' in u.type(f.d['ps'][1]['t']))]
            fs = [f for f in fs if 'vector' not in u.type(f.d['ps'][0]['t'])]
            ctx.need(fs or name != 'permute_basis' and name != 'permute_matrices', 'anchor vanished: %s::%s' % (cls, name))
            for f in fs[:1]:
                ctx.function(f)
                ctx.count("complex permutations")
                e = Engine(u, vocab=lambda n, x: short(n) in (VOCAB - {name}) or la_mutator(n, x), maxpaths=20000)
                k, P = unld(par(f, 0, u)), par(f, 1, u)
                for p in e.run(f):
                    if p.exit == 'throw':
                        continue
                    r = Replay([P]).run(p.trace)
                    one_dimension(ctx, u, f, cls, name, p, r, k, P, arr, extra, degs, sides)
            # all dimensions
            fs = [f for f in u.find(cls + '::' + (name if name != 'permute_matrices' else 'permute_basis')) if not f.dep and f.d['ps'] and 'vector<std::vector' in u.type(f.d['ps'][0]['t'])]
            for f in fs[:2]:
                ctx.function(f)
                ctx.count("complex permutations")
                n2 = name
                e = Engine(u, vocab=lambda n, x: (short(n) in VOCAB and not (x.get('fid') == f.id)) or la_mutator(n, x) or short(n) in ('make_upper_triangular', 'reduce_matrix_standard', 'reduce_matrix', 'update_reduction', 'update_reduction2'), maxpaths=20000)
                P = par(f, 0, u)
                for p in e.run(f):
                    r = Replay([P]).run(p.trace)
                    acts = [a for a in r.acts if a.name == n2 and unld(a.obj) == T]
                    if not acts:
                        ctx.count("words not recognised")
                        continue
                    for a in acts:
                        if not a.loop:
                            continue
                        L, sy, cov = a.loop[-1]
                        ctx.check(cov is not False, 'dimensions', f.loc(), '%s::%s does not reach every dimension' % (cls, short(f.name)), cls + short(f.name))
                        if a.idx is None or isunknown(a.w):
                            ctx.count("words not recognised")
                            continue
                        g = a.w[0][0] if len(a.w) == 1 else None
                        ok = g is not None and g[0] == 'ix' and g[1] == P and a.w[0][1] == 1
                        if ok:
                            d = sub(g[2], a.idx)
                            if d != 0 and not is_num(d):
                                ctx.count("words not recognised")
                                continue
                            ok = d == 0
                        ctx.check(ok, 'dimensions', f.loc(), '%s::%s applies %s in dimension %s' % (cls, short(f.name), showw(a.w), show(a.idx)), cls + short(f.name))


def one_dimension(ctx, u, f, cls, name, p, r, k, P, arr, extra, degs, sides):
    w, k0 = f.loc(), '%s::%s' % (cls, name)
    gather = name in ('ipermute_basis', 'permute_matrices')
    want = ((P, -1),) if gather else ((P, 1),)      # where row/column i goes
    ops = []
    for a in r.acts:
        if a.name not in ('permute_rows', 'permute_cols', 'ipermute_rows', 'ipermute_cols'):
            continue
        o = unld(a.obj)
        if not (isinstance(o, tuple) and o[0] == 'ix' and isinstance(o[1], tuple) and o[1][0] == 'f' and o[1][1] == T):
            continue
        sc = a.w if a.name in ('permute_rows', 'permute_cols') else invw(a.w) if a.w is not None else None
        side = 'rows' if a.name.endswith('rows') else 'cols'
        ops.append((o[1][2], side, o[2], a))
        if isunknown(sc):
            ctx.count("words not recognised")
        else:
            ctx.check(sc == want, 'direction', f.loc(a.line), '%s: %s of %s move by %s instead of %s' % (k0, side, show(o), showw(sc), showw(want)), k0)
    sizes = [('size', ('f', T, x), 0) for x in ('boundary', 'coboundary', 'differential', 'R', 'U', 'I', 'p2c')]
    for md in range(0, 4):
        for kk in range(0, md + 1):
            for dg in degs:
                env = {k: kk}
                for s in sizes:
                    env[s] = md + extra
                env[('size', ('f', T, 'dim'), 0)] = md + 1
                if dg is not None:
                    env[('f', T, 'degree')] = dg
                if not feasible(p.trace, env):
                    continue
                touched = {}
                for m, side, i, a in ops:
                    v = evalc(i, env)
                    if v is None:
                        touched = None
                        break
                    touched[(m, side, v)] = touched.get((m, side, v), 0) + 1
                    ctx.check(0 <= v < md + extra, 'range', f.loc(a.line), '%s: dimension %d of a complex of maximal dimension %d uses matrix %d that does not exist' % (k0, kk, md, v), k0)
                if touched is None:
                    ctx.count("words not recognised")
                    continue
                for m, side, off in sides[dg]:
                    inner = 1 <= kk + off <= md
                    if inner:
                        ctx.check(touched.get((m, side, kk + off), 0) == 1, 'sides', w, '%s: in dimension %d of %d%s the %s of %s[%d] are permuted %d times' % (
                            k0, kk, md, '' if dg is None else ' (degree %+d)' % dg, side, m, kk + off, touched.get((m, side, kk + off), 0)), k0)
                ok = {(m, side, kk + off) for m, side, off in sides[dg]}
                for x in touched:
                    ctx.check(x in ok, 'sides', w, '%s: in dimension %d of %d%s the %s of %s[%d] are permuted' % (
                        k0, kk, md, '' if dg is None else ' (degree %+d)' % dg, x[1], x[0], x[2]), k0)


# ------------------------------------------------------------------------ filtrations
VALSETS = {'bats::FilteredChainComplex': ('C', True), 'bats::FilteredDGVectorSpace': ('C', True), 'bats::FilteredCochainComplex': ('C', True),
           'bats::ReducedFilteredChainComplex': ('RC', False), 'bats::ReducedFilteredDGVectorSpace': ('RC', False)}


def final(r, p, t):
    """word and value of a member at the end of the path"""
    st = p.st
    return r.env.get(t), st.store.get(t)


def degree_one(p, cpx):
    fa = Facts(p.trace)
    d = ('f', ('f', T, cpx), 'degree')
    one, m = fa.holds('==', d, 1), fa.holds('==', d, -1)
    if one is not None:
        return one
    if m is not None:
        return not m
    g = fa.holds('>', d, 0)
    return g


def filtrations(ctx, u):
    PM, VL = ('f', T, 'perm'), ('f', T, 'val')
    for cls, (cpx, dg) in VALSETS.items():
        for f in u.funcs:
            if f.dep or f.d.get('cls') != cls or f.d.get('imp') or f.d.get('dfd'):
                continue
            nm = short(f.name)
            if nm == 'update_filtration' or (f.d.get('ctor') and len(f.d['ps']) >= 1 and 'Reduced' not in cls):
                k0 = '%s::%s' % (cls, 'constructor' if f.d.get('ctor') else nm)
                if f.d.get('ctor') and any(cls.split('::')[-1] in u.type(x['t']) for x in f.d['ps']):
                    continue
                ctx.function(f)
                ctx.count("filtrations")
                for p in PE(u, f).run(f):
                    if p.exit == 'throw':
                        continue
                    r = Replay([PM]).run(p.trace)
                    for loc, L in r.partial:
                        ctx.bad('coverage', f.loc(L.line), '%s: the loop over %s does not reach every dimension' % (k0, show(loc)), k0)
                    P1 = r.word(PM)
                    v = unld(p.st.store.get(VL)) if p.st.store.get(VL) is not None else None
                    if isinstance(v, tuple) and v and v[0] == 'ld':
                        v = v[1]
                    ctx.check(v is not None, 'values', f.loc(), '%s does not store the values' % k0, k0)
                    src = r.word(v) if v is not None else None
                    rev = degree_one(p, cpx)
                    want = ()
                    if src is not None and not isunknown(src):
                        sv = ((('S', src), 1),)
                        sv2 = ((('S', ((VL, 1),)), 1),)
                        rho = ((RHO, 1),)
                        cands = [mulw(sv, rho) if rev else sv, mulw(sv2, rho) if rev else sv2]
                        if isunknown(P1):
                            ctx.count("words not recognised")
                        else:
                            ctx.check(P1 in cands, 'order', f.loc(), '%s stores the order %s instead of %s' % (k0, showw(P1), showw(cands[0])), k0)
                        want = cands
                    else:
                        ctx.count("words not recognised")
                    acts = [a for a in r.acts if a.name in ('permute_basis', 'ipermute_basis') and unld(a.obj) == ('f', T, cpx)]
                    net = ()
                    for a in acts:
                        if a.w is None or a.loop:
                            net = None
                            break
                        reduced = 'Reduced' in cls
                        net = mulw(net, a.w if (a.name == 'ipermute_basis' or reduced) else invw(a.w))
                    if isunknown(net):
                        ctx.count("words not recognised")
                        continue
                    P0 = () if f.d.get('ctor') else ((PM, -1),)
                    if isunknown(P1):
                        continue
                    ctx.check(net == mulw(P0, P1) or net == mulw(P0, *want[:1]) or len(want) > 1 and net == mulw(P0, want[1]), 'move', f.loc(), '%s: position i receives the cell at %s instead of %s' % (k0, showw(net), showw(mulw(P0, P1))), k0)
            elif nm.startswith('update_') and f.d['ps']:
                # general updates store the order and values of the new filtration
                k0 = '%s::%s' % (cls, nm)
                ctx.function(f)
                ctx.count("filtrations")
                for p in Engine(u, vocab=lambda n, x: short(n).startswith('update_') or la_mutator(n, x)).run(f):
                    if p.exit == 'throw':
                        continue
                    UI = par(f, 0, u)
                    sets = {}
                    for x in flat(p):
                        if isinstance(x, Ev) and x.k == 'set' and unld(x.obj) in (PM, VL):
                            sets[unld(x.obj)] = x.args[0]
                    pm, vl = p.st.store.get(PM, sets.get(PM)), p.st.store.get(VL, sets.get(VL))
                    okn = lambda x, n: x is None or isinstance(unld(x), tuple) and unld(x)[0] == 'f' and unld(x)[1] == UI and unld(x)[2] in n
                    if 'Reduced' in cls or True:
                        ctx.check(pm is not None and vl is not None, 'values', f.loc(), '%s does not store the new order and values' % k0, k0)
                        ctx.check(pm is None or not (isinstance(unld(pm), tuple) and unld(pm)[0] == 'f' and 'X' in unld(pm)[2]) , 'values', f.loc(), '%s stores the order of the old filtration' % k0, k0)
                        ctx.check(vl is None or not (isinstance(unld(vl), tuple) and unld(vl)[0] == 'f' and 'X' in unld(vl)[2]), 'values', f.loc(), '%s stores the values of the old filtration' % k0, k0)
    for cls in ('bats::FilteredChainComplex', 'bats::FilteredDGVectorSpace', 'bats::ReducedFilteredChainComplex', 'bats::ReducedFilteredDGVectorSpace'):
        ctx.need(any(not f.dep for f in u.find(cls + '::update_filtration')), 'anchor vanished: %s::update_filtration' % cls)


# ------------------------------------------------------------------------ general updates
def general_updates(ctx, u):
    def uifam(UI, n, k):
        return ('ix', ('f', UI, n), k)
    for cls, cpx in (('bats::ReducedChainComplex', None), ('bats::ReducedDGVectorSpace', None)):
        for f in u.funcs:
            if f.dep or f.d.get('cls') != cls or not short(f.name).startswith('update_basis_general') or f.d.get('imp'):
                continue
            ctx.function(f)
            ctx.count("filtrations")
            UI = par(f, 0, u)
            k0 = '%s::%s' % (cls, short(f.name))
            e = Engine(u, vocab=lambda n, x: short(n) in VOCAB or la_mutator(n, x) or short(n) in ('make_upper_triangular', 'update_reduction', 'update_reduction2', 'correct_U', 'set_indices', 'reduce_matrix', 'reduce_matrix_standard', 'reduce_matrix_clearing'), maxpaths=20000)
            done = set()
            for p in e.run(f):
                if p.exit == 'throw':
                    continue
                for L in [it for it in p.trace if isinstance(it, Loop)]:
                    if L.id in done or not any(isinstance(x, Ev) and short(x.name) == 'permute_matrices' for q in L.paths for x in flat(q)):
                        continue
                    done.add(L.id)
                    rr = Replay()
                    sy, cov = rr.symbol(L)
                    if sy is None:
                        ctx.count("words not recognised")
                        continue
                    ctx.check(cov is not False, 'dimensions', f.loc(L.line), '%s does not move the cells of every dimension' % k0, k0)
                    for q in L.paths:
                        fam = lambda n: ('f', UI, n)
                        r = Replay([fam('permutations')])
                        r.run(q.trace)
                        fa = Facts(q.trace)
                        deg = fa.holds('==', ('f', T, 'degree'), 1)
                        if deg is None:
                            x = fa.holds('==', ('f', T, 'degree'), -1)
                            deg = None if x is None else not x
                        for a in r.acts:
                            if a.name != 'permute_matrices':
                                continue
                            D, Q = uifam(UI, 'deletion_indices', a.idx), uifam(UI, 'permutations', a.idx)
                            rho = ((RHO, 1),)
                            d, pi = ((D, 1),), ((Q, 1),)
                            if deg:
                                sd = mulw(rho, d)
                                es = [((('E', mulw(rho, d, rho)), 1),), ((('E', sd), 1),), ((('E', mulw(sd, r.S(sd))), 1),)]
                                pi = mulw(rho, pi, rho)
                            else:
                                es = [((('E', d), 1),)]
                            nod = fa.empty(D) is True
                            nop = fa.empty(Q) is True or any(isinstance(c, Cond) and c.pol and c.t[0] == 'cmp' and c.t[1] == '==' and any(
                                isinstance(x, tuple) and x[0] == 'app' and sname(x[1]) == 'identity_perm' for x in (c.t[2], c.t[3])) for c in q.trace)
                            if isunknown(a.w):
                                ctx.count("words not recognised")
                                continue
                            wants = [mulw(x, pi) for x in es] + ([pi] if nod else []) + (es if nop else []) + ([()] if nod and nop else [])
                            ctx.check(a.w in wants, 'update', f.loc(a.line), '%s: position i of dimension %s receives the cell at %s instead of %s' % (k0, show(a.idx), showw(a.w), showw(wants[0])), k0)
    # chain complex: columns of boundary[k+1] in dimension k+1, rows in dimension k
    for f in u.funcs:
        if f.dep or f.d.get('cls') != 'bats::ChainComplex' or short(f.name) != 'update_basis_general' or len(f.d['ps']) != 2:
            continue
        ctx.function(f)
        ctx.count("filtrations")
        k, UI = unld(par(f, 0, u)), par(f, 1, u)
        for p in Engine(u, vocab=lambda n, x: short(n) in VOCAB or la_mutator(n, x), maxpaths=20000).run(f):
            r = Replay([('f', UI, 'permutations')]).run(p.trace)
            net = {}
            for a in r.acts:
                o = unld(a.obj)
                if a.name not in ('permute_rows', 'permute_cols', 'ipermute_rows', 'ipermute_cols') or not (isinstance(o, tuple) and o[0] == 'ix'):
                    continue
                g = a.w if a.name.startswith('i') else None if a.w is None else invw(a.w)
                side = a.name.split('_')[1]
                net.setdefault((o[2], side), []).append((g, a))
            for (i, side), gs in net.items():
                if any(isunknown(g) for g, a in gs):
                    ctx.count("words not recognised")
                    continue
                w = mulw(*[g for g, a in gs])
                dim = i if side == 'cols' else sub(i, 1)
                E = ((('E', ((uifam(UI, 'deletion_indices', dim), 1),)), 1),)
                Q = ((uifam(UI, 'permutations', dim), 1),)
                ctx.check(w in (mulw(E, Q), E, Q, ()), 'update', f.loc(gs[0][1].line), 'ChainComplex::update_basis_general: %s of boundary[%s] are re-ordered by %s instead of %s' % (side, show(i), showw(w), showw(mulw(E, Q))), 'ChainComplex::update_basis_general')


def update_info(ctx, u):
    """the permutation of the cells two filtrations have in common"""
    for f in u.funcs:
        if f.dep or short(f.name) != 'filtered_info' or 'pdate' not in (f.d.get('cls') or ''):
            continue
        ctx.function(f)
        ctx.count("filtrations")
        cls = f.d['cls']
        k0 = '%s::filtered_info' % cls
        e = Engine(u, vocab=lambda n, x: short(n) in VOCAB or short(n).startswith('Kendall') or la_mutator(n, x), maxpaths=20000)
        done = set()
        M = lambda n: ('f', T, n)
        for p in e.run(f):
            if p.exit == 'throw':
                continue
            for L in [it for it in p.trace if isinstance(it, Loop)]:
                tgt = [x for q in L.paths for x in q.trace if isinstance(x, Ev) and x.k == 'set' and isinstance(x.obj, tuple) and x.obj[0] == 'ix' and unld(x.obj[1]) == M('permutations')]
                if not tgt or L.id in done:
                    continue
                done.add(L.id)
                pre = Replay()
                pre.run(p.trace[:p.trace.index(L)])
                sy, cov = pre.symbol(L)
                for q in L.paths:
                    r = Replay()
                    r.run(q.trace)
                    get = lambda n: r.word(('ix', M(n), sy))
                    X, Y, Pm = get('intersection_indices_X'), get('intersection_indices_Y'), get('permutations')
                    Xi, Yi = (('ix', M('perms_X_inv'), sy), 1), (('ix', M('perms_Y_inv'), sy), 1)
                    for nm, inv_ in (('intersection_indices_X', Xi), ('intersection_indices_Y', Yi), ('deletion_indices', Xi), ('addition_indices', Yi)):
                        w = get(nm)
                        if isunknown(w):
                            ctx.count("words not recognised")
                            continue
                        t0 = (('ix', M(nm), sy), 1)
                        if w == (t0,):
                            continue
                        ok = w[:2] == (inv_, t0) and all(g[0] == 'S' for g, s in w[2:])
                        ctx.check(ok, 'update', f.loc(), '%s: %s becomes %s instead of %s' % (k0, nm, showw(w), showw((inv_, t0))), k0)
                    if isunknown(X) or isunknown(Y) or isunknown(Pm):
                        ctx.count("words not recognised")
                        continue
                    want = ((('S', mulw(Y, ((('S', X), 1),))), 1),)
                    ctx.check(Pm == want, 'update', f.loc(), '%s: the common cells are permuted by %s instead of %s' % (k0, showw(Pm), showw(want)), k0)


def run(ctx):
    u, = prog.load(['core'])
    utilities(ctx, u)
    matrices(ctx, u)
    complexes(ctx, u)
    filtrations(ctx, u)
    general_updates(ctx, u)
    update_info(ctx, u)
