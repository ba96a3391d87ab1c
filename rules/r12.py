"""Factorizations and type-A quivers.  Straight-line matrix code is replayed into words over the matrices it
started from (bx/ncalg): transposition and inversion reverse a product, conjugation by the exchange matrix keeps
it, LEUP and LQU introduce factors whose product is the argument.  Then every statement about products is an
equality of words.  Passing factors along the quiver must be a change of basis at the node two edges share."""
import itertools
from rules.common import *
from rules.r08 import par, uniq, inst, field, V
from bx.ncalg import *
from bx.seqs import trip, subst, counters

PROP = dict(
    id="R12", title="Matrix factorizations and quiver sweeps keep the product of their factors",
    statement="LEUP, PLEU, UELP, PUEL, LQU, UQL and their in-place forms (started with identity factors) return factors whose product in the order of their name is the input matrix, with L lower triangular, U upper triangular and P a permutation; the LEUP elimination records every column swap in P, every elimination coefficient in L and every pivot in U; CU elimination applies the same column operations to C and U; inv returns the inverse built from LQU; EL_L_commute returns the Ltilde with Ltilde E = E L, and L_EL_commute, U_EU_commute, EU_U_commute are its images under transpose and J conjugation; both schur functions satisfy their documented block identities. Every step that passes factors between two neighbouring edges of a type-A quiver (pass_UP_right, pass_P_right, pass_L_left, pass_PL_left, pass_P_left, pass_U_right) is, for each of the four combinations of arrow directions, a change of basis at the node the two edges share; the sweeps and the divide-and-conquer algorithm factor every edge once with the factorization that belongs to its direction and pass its factors on before the next one is factored; the barcode forms are the E factors of all edges. barcode_from_barcode_form starts a bar for each basis vector of the first node and of each node's vectors outside the image, extends the bar matched by the pivot to the current node and vector, and bars_to_pairs, extract_dimension and barcode copy these numbers without exchanging them.",
    over=["inputs"],
    text="all matrices, all arrow directions, all quiver lengths, any number of loop iterations",
    why="tests factor random square matrices and quivers whose arrows all point the same way; a wrong order, a missing inverse or a transpose in one of the four direction cases gives a wrong barcode for zigzags only",
    files=["include/linalg/sparse_fact.hpp", "include/quiver/sparse.hpp", "include/linalg/schur.hpp"],
    mechanism=[("factorizations", "LEUP_inplace, CU_inplace, PLEU, UELP, PUEL, LQU, UQL, inv"), ("quiver passes", "pass_UP_right, pass_L_left, pass_PL_left, pass_U_right, pass_P_right, pass_P_left"), ("sweeps", "type_A_leftright_sweep1/2, type_A_rightleft_sweep1/2, type_A_dq_*"), ("read-out", "barcode_from_barcode_form")],
)
TECHNIQUE = "replay of matrix code into words of a free group with anti-automorphisms; change-of-basis equations solved in that group; loop steps compared with the elimination step they implement"
LEVEL = "proof"
ASSUMPTIONS = ["the matrix operations the words are made of (T, J_conjugation, *, u_inv, l_inv, axpy, swap_cols, identity) do what R04 and R13 say",
               "E factors have the pivot shape their step needs, so E commutes past L or U as the commutation theorem states",
               "arrows join neighbouring nodes in order, an arrow is left when its target is smaller than its source"]
MINIMUM = {"factorizations": 6, "passes": 12, "sweeps": 4}

NS = 'bats::'
ALG = {'T', 'transpose', 'J_conjugation', 'J_conjugation_inplace', 'u_inv', 'l_inv', 'inv', 'operator*', 'operator-', 'operator+', 'identity', 'u_solve', 'l_solve', 'ut_solve',
       'LEUP', 'LEUP_inplace', 'LQU', 'LQU_inplace', 'CU_inplace', 'EL_L_commute', 'block', 'set_block', 'swap_cols', 'swap_rows'}
ORDER = {'LEUP': 'LEUP', 'PLEU': 'PLEU', 'UELP': 'UELP', 'PUEL': 'PUEL', 'LQU': 'LEU', 'UQL': 'UEL'}


def alg(u, f, keep=(), drop=(), own=True):
    r = short(f.name)
    k = (ALG | set(keep)) - set(drop)
    return Engine(u, vocab=lambda n, x: (short(n) in k and not (own and short(n) == r)) or n == 'SparseFact::operator=' or la_mutator(n, x), maxpaths=20000)


def ptype(f, u, sub, i=0):
    """parameters whose type mentions sub"""
    return [par(f, k, u) for k, p in enumerate(f.d['ps']) if sub(u.type(p['t']))]


def isvec(t, x):
    t = t.replace('const ', '')
    return t.startswith('std::vector<' + x)


# ------------------------------------------------------------------------------------------------ wrappers
def wrappers(ctx, u):
    for nm, order in ORDER.items():
        for f in uniq(u, nm, lambda f: len(f.d['ps']) == 1 and 'ColumnMatrix' in u.type(f.d['ps'][0]['t'])):
            A = par(f, 0, u)
            w = tname(f)
            ctx.function(f)
            for p in alg(u, f).run(f):
                if p.exit != 'ret':
                    continue
                r = Replay().run(p.trace)
                judge(ctx, f, nm, order, r, p.val, A, w)
            identities(ctx, u, f, nm, A, w)
    for nm, order in ORDER.items():
        for f in uniq(u, nm + '_inplace', lambda f: len(f.d['ps']) == 1 and 'SparseFact' in u.type(f.d['ps'][0]['t'])):
            if nm == 'LEUP':
                continue
            F = par(f, 0, u)
            ctx.function(f)
            for p in alg(u, f).run(f):
                if p.exit not in ('ret', 'n'):
                    continue
                init = {field(F, x): dict(ONE) for x in 'LUP'}
                init[field(F, 'E')] = letter('A')
                r = Replay(init).run(p.trace)
                judge(ctx, f, nm + '_inplace', order, r, F, None, tname(f))
    for f in uniq(u, 'inv', lambda f: len(f.d['ps']) == 1 and 'ColumnMatrix' in u.type(f.d['ps'][0]['t'])):
        ctx.function(f)
        A = par(f, 0, u)
        for p in alg(u, f).run(f):
            r = Replay().run(p.trace)
            v = r.mat(p.val) if p.val is not None else None
            if v is None or not r.same or any(m.get(()) for m in [v]):
                ctx.count('not recognised')
                continue
            for ln, m in r.msgs:
                ctx.bad('R12-shape', '%s [line %s]' % (tname(f), ln), m, 'inv/shape')
            ctx.count('factorizations')
            lhs, rhs = r.same[-1]
            l = single(rhs)
            if l is None:
                ctx.count('not recognised')
                continue
            a = solve(None, lhs, rhs)[1]
            ctx.check(prod(a, v) == ONE, 'R12-inverse', tname(f), 'returns %s; times A = %s this is not the identity' % (showp(v), showp(a)), 'inv')


def judge(ctx, f, nm, order, r, F, A, w):
    for ln, m in r.msgs:
        ctx.bad('R12-shape', '%s [line %s]' % (w, ln), m, nm + '/shape')
    fs = {x: r.get(field(unld(strip_ld(F)), x)) if not (isinstance(F, tuple) and F in r.memo) else r.memo[F].get(x) for x in set(order)}
    if any(v is None for v in fs.values()) or len(r.same) > 1:
        ctx.count('not recognised')
        return
    ctx.count('factorizations')
    p = prod(*[fs[x] for x in order])
    if r.same:
        s = solve(None, *r.same[-1])
        if s is None:
            ctx.count('not recognised')
            return
        name, want = s
    else:
        want, name = letter('A'), 'A'
    ctx.check(p == want, 'R12-product', w, 'the factors multiply to %s in the order %s, the input is %s' % (showp(p), order, showp(want)), nm + '/product')
    for x, s in (('L', 'l'), ('U', 'u')):
        k = r.isshape(fs[x], s)
        if k is not None:
            ctx.check(k, 'R12-shape', w, 'factor %s is %s, which is not %s triangular' % (x, showp(fs[x]), 'lower' if s == 'l' else 'upper'), nm + '/tri/' + x)


def identities(ctx, u, f, nm, A, w):
    """LEUP and LQU start with identity factors of the right sizes and E = A"""
    if nm not in ('LEUP', 'LQU'):
        return
    for p in alg(u, f, drop=('LQU',)).run(f):
        r = Replay()
        for it in p.trace:
            if isinstance(it, Ev) and it.k == 'call' and short(it.name) == nm + '_inplace':
                break
            r.step(it)
        else:
            ctx.count('not recognised')
            continue
        F = unld(strip_ld(it.args[0]))
        for x in ('LEUP' if nm == 'LEUP' else 'LEU'):
            v = r.loc.get(field(F, x))
            if x == 'E':
                if v is not None:
                    ctx.check(v == letter(show(A)), 'R12-product', w, 'factors %s instead of the input' % showp(v), nm + '/E')
                continue
            if v is None and field(F, x) not in r.loc:
                ctx.bad('R12-product', w, 'factor %s is not set to the identity' % x, nm + '/id/' + x)
                continue
            d = r.dims.get(field(F, x))
            if d is not None:
                want = field(A, 'm') if x == 'L' else field(A, 'n')
                ctx.check(d == want, 'R12-product', w, 'factor %s starts as the identity of size %s instead of %s' % (x, show(d), show(want)), nm + '/id/' + x)


# ------------------------------------------------------------------------------------------------ commutation
def commutes(ctx, u):
    # name -> (parameters, equation)  with X the result
    spec = {'EL_L_commute': ('EL', lambda X, a, b: (prod(X, a), prod(a, b))),        # X E = E L
            'L_EL_commute': ('LE', lambda X, a, b: (prod(a, b), prod(b, X))),        # L E = E X
            'U_EU_commute': ('UE', lambda X, a, b: (prod(a, b), prod(b, X))),        # U E = E X
            'EU_U_commute': ('EU', lambda X, a, b: (prod(a, b), prod(X, a)))}        # E U = X E
    for nm, (_, eq) in spec.items():
        if nm == 'EL_L_commute':
            continue
        for f in uniq(u, nm, lambda f: len(f.d['ps']) == 2):
            ctx.function(f)
            a, b = letter('a'), letter('b')
            for p in alg(u, f).run(f):
                r = Replay({par(f, 0, u): a, par(f, 1, u): b}).run(p.trace)
                X = r.mat(p.val) if p.val is not None else None
                if X is None:
                    ctx.count('not recognised')
                    continue
                ctx.count('factorizations')
                l, h = eq(X, a, b)
                ctx.check(l == h, 'R12-commute', tname(f), 'returns %s for parameters a, b: %s is not %s' % (showp(X), showp(l), showp(h)), nm)
                # the matrix handed to EL_L_commute as L must be lower triangular
                lt = 'l' if nm[0] == 'L' else 'u'
                for it in p.trace:
                    if isinstance(it, Ev) and it.k in ('pure', 'call') and short(it.name) == 'EL_L_commute' and len(it.args) == 2:
                        r.shape[single(a)[0] if nm in ('L_EL_commute', 'U_EU_commute') else single(b)[0]] = lt
                        s = r.isshape(r.mat(it.args[1]), 'l')
                        if s is not None:
                            ctx.check(s, 'R12-shape', '%s [line %s]' % (tname(f), it.line), 'EL_L_commute is given %s as L, which is not lower triangular' % showp(r.mat(it.args[1])), nm + '/tri')
    for f in uniq(u, 'EL_L_commute', lambda f: len(f.d['ps']) == 2):
        ctx.function(f)
        elcommute(ctx, u, f)
    for f in uniq(u, 'extract_row_scale', lambda f: len(f.d['ps']) == 1):
        ctx.function(f)
        E = par(f, 0, u)
        for p in alg(u, f).run(f):
            for L, q, ev in loopsets(p):
                t = trip(L)
                o, v = unld(strip_ld(ev.obj)), unld(ev.args[0])
                if t is None:
                    continue
                j = t[0]
                first = ('ix', colterm(E, j), 0)
                o0, v0 = whole(o), whole(v)
                if o0 is None:
                    continue
                if root(o0) != root(E):
                    ctx.check(o0[0] == 'ix' and unld(o0[2]) == field(first, 'ind') and v0 == field(first, 'val'), 'R12-scale', '%s [line %s]' % (tname(f), ev.line),
                              'records %s at %s instead of the pivot value at the pivot row' % (show(v0), show(o0)), 'extract_row_scale')
                    ctx.check((t[1], unld(t[2])) == (0, field(E, 'n')), 'R12-scale', '%s [line %s]' % (tname(f), L.line), 'covers columns %s to %s' % (show(t[1]), show(t[2])), 'extract_row_scale/range')
                else:
                    ctx.check(o0 == field(first, 'val') and v0 == 1, 'R12-scale', '%s [line %s]' % (tname(f), ev.line), 'sets %s to %s instead of the pivot to 1' % (show(o0), show(v0)), 'extract_row_scale/unit')
    for f in uniq(u, 'pivot_ind', lambda f: len(f.d['ps']) == 2):
        ctx.function(f)
        E, j = par(f, 0, u), par(f, 1, u)
        c = colterm(E, j)
        for p in alg(u, f).run(f):
            e = Facts(p.trace).empty(c)
            if e is None or p.val is None:
                continue
            want = NO_IND if e else field(('ix', c, 0), 'ind')
            ctx.check(unld(p.val) == want, 'R12-scale', tname(f), 'returns %s for %s column' % (show(p.val), 'an empty' if e else 'a non-empty'), 'pivot_ind')


def whole(t):
    """x.val of a field element stands for the element"""
    t = unld(t)
    if isinstance(t, tuple) and t[0] == 'f' and t[2] == 'val':
        b = unld(t[1])
        if is_num(b) or isinstance(b, tuple) and (b[0] == 'f' and b[2] == 'val' or b[0] == 'ix'):
            if isinstance(b, tuple) and b[0] == 'ix' and isinstance(unld(b[1]), tuple) and unld(b[1])[0] == 'f' and unld(b[1])[2] == 'indval':
                return t
            return b
    return t


def loopsets(p):
    for it in p.trace:
        if isinstance(it, Loop):
            for q in it.paths:
                for e in q.trace:
                    if isinstance(e, Ev) and e.k == 'set' and e.name == '=':
                        yield it, q, e


def elcommute(ctx, u, f):
    E, Lm = par(f, 0, u), par(f, 1, u)
    w = tname(f)
    for p in alg(u, f, keep=('extract_row_scale', 'pivot_ind', 'row_scale', 'col_inv_scale', 'row_inv_scale', 'col_scale')).run(f):
        if p.val is None:
            continue
        res = unld(strip_ld(p.val))
        if not (isinstance(res, tuple) and res[0] == 'v'):
            ctx.count('not recognised')
            continue
        # pivot rows: idx[j] = pivot_ind(., j)
        idx = cf = copy = None
        evs = [e for e in flat(p) if isinstance(e, Ev)]
        for e in evs:
            if e.k == 'set' and e.args and isinstance(unld(e.args[0]), tuple) and unld(e.args[0])[0] == 'app' and short(unld(e.args[0])[1]) == 'pivot_ind' and unld(strip_ld(e.obj))[0] == 'ix':
                o, a = unld(strip_ld(e.obj)), unld(e.args[0])
                idx = o[1]
                ctx.check(a[2][1] == o[2] and unld(a[2][0]) in (E, copy), 'R12-el', '%s [line %s]' % (w, e.line), 'pivot table entry %s is %s' % (show(o), show(a)), 'EL/pivots')
            if e.k == 'set' and e.name == 'init' and e.args and unld(strip_ld(e.args[0])) == E:
                copy = unld(strip_ld(e.obj))
            if e.k == 'call' and short(e.name) == 'extract_row_scale':
                cf = unld(e.res)
        if idx is None:
            ctx.count('not recognised')
            continue
        ctx.count('factorizations')
        for it in p.trace:
            if not isinstance(it, Loop):
                continue
            t = trip(it)
            for q in it.paths:
                for inner in [x for x in q.trace if isinstance(x, Loop)]:
                    for q2 in inner.paths:
                        for e in q2.trace:
                            if not (isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back') and len(e.args) == 2):
                                continue
                            c = col_of(e.obj)
                            if c is None or c[0] != res:
                                continue
                            ks = [(s, cn) for s, s0, cn in [(x[1], x[2], x[3]) for x in cursors(inner).values()] if cn is not None]
                            ok = False
                            for sy, cont in ks:
                                cc = col_of(cont)
                                if cc and cc[0] == Lm:
                                    ell = cc[1]
                                    ent = ('ix', colterm(Lm, ell), sy)
                                    ok = unld(c[1]) == ('ix', idx, unld(ell)) and unld(e.args[0]) == ('ix', idx, field(ent, 'ind')) and unld(e.args[1]) == field(ent, 'val')
                                    ctx.check(ok, 'R12-el', '%s [line %s]' % (w, e.line), 'entry (r, l) of L must go to row idx[r] of column idx[l]: appends (%s, %s) to column %s' % (show(unld(e.args[0])), show(unld(e.args[1])), show(unld(c[1]))), 'EL/entries')
                                    s0 = [x[2] for x in cursors(inner).values() if x[1] == sy]
                                    ctx.check(unld(s0[0]) == 0, 'R12-el', '%s [line %s]' % (w, inner.line), 'starts at entry %s of the column' % show(s0[0]), 'EL/from')
                                    if t is not None:
                                        ctx.check(unld(t[1]) == 0 and unld(t[2]) in (field(copy, 'n'), field(E, 'n'), field(Lm, 'n')), 'R12-el', '%s [line %s]' % (w, it.line), 'covers columns %s to %s' % (show(t[1]), show(t[2])), 'EL/range')
                                    # the column is emptied first
                                    pre = []
                                    for x in q.trace:
                                        if x is inner:
                                            break
                                        pre.append(x)
                                    cl = [x for x in pre if isinstance(x, Ev) and x.k in ('call', 'set') and (short(x.name) == 'clear' or x.name == '=') and col_of(x.obj) and col_of(x.obj)[0] == res and unld(col_of(x.obj)[1]) == unld(c[1])]
                                    ctx.check(bool(cl), 'R12-el', '%s [line %s]' % (w, e.line), 'appends to the identity column %s without emptying it' % show(unld(c[1])), 'EL/clear')
        if cf is not None:
            sc = [(short(e.name), unld(e.args[0])) for e in evs if e.k == 'call' and unld(strip_ld(e.obj)) == res and short(e.name) in ('row_scale', 'col_inv_scale', 'col_scale', 'row_inv_scale') and e.args] if True else []
            want = {('row_scale', cf), ('col_inv_scale', cf)}
            if set(x[1] for x in sc) <= {cf}:
                ctx.check(set(sc) == want and len(sc) == 2, 'R12-el', w, 'the row scale of E must be applied to the rows and its inverse to the columns: does %s' % ', '.join(x[0] for x in sc), 'EL/scale')


# ------------------------------------------------------------------------------------------------ eliminations
ELIM = ('operator()', 'update_pivot', 'delete_pivot', 'get_pivots')


def leup(ctx, u):
    for f in uniq(u, 'LEUP_inplace', lambda f: len(f.d['ps']) == 1):
        ctx.function(f)
        F = par(f, 0, u)
        w = tname(f)
        E, L, U, P = [field(F, x) for x in 'ELUP']
        for p in alg(u, f, keep=ELIM).run(f):
            if p.exit == 'throw':
                continue
            seen = dict(pivot=0, tail=0)
            last = None
            for it in p.trace:
                if isinstance(it, Loop):
                    for q in it.paths:
                        if q.exit == 'throw':
                            continue
                        n = pivstep(ctx, it, q, E, L, U, P, w, seen)
                        if n:
                            seen['pivot'] += 1
                            last = it
                        elif last is not None and it is not last:
                            seen['tail'] += tailstep(ctx, it, q, E, U, w)
                if isinstance(it, Ev) and it.k == 'set' and unld(strip_ld(it.obj)) == P and last is not None:
                    a = it.args[0]
                    ok = isinstance(a, tuple) and a[0] == 'app' and short(a[1]) in ('T', 'transpose') and unld(strip_ld(a[2][0])) == P
                    ctx.check(ok, 'R12-leup', '%s [line %s]' % (w, it.line), 'the recorded swaps must be transposed, P becomes %s' % show(a), 'LEUP/PT')
                    seen['PT'] = True
            if not seen['pivot']:
                ctx.count('not recognised')
                continue
            ctx.count('factorizations')
            ctx.check(seen.get('U', False), 'R12-leup', w, 'a pivot column never reaches U', 'LEUP/U')
            ctx.check(seen.get('PT', False), 'R12-leup', w, 'the recorded swaps are never transposed into P', 'LEUP/PT')
            ctx.check(seen['tail'] > 0, 'R12-leup', w, 'columns without a pivot never reach U', 'LEUP/tail')
    for nm in ('update_pivot', 'delete_pivot'):
        for f in uniq(u, nm, lambda f: len(f.d['ps']) == 4):
            ctx.function(f)
            A, p2c, j, i0 = [par(f, k, u) for k in range(4)]
            for p in alg(u, f).run(f):
                for e in flat(p):
                    if isinstance(e, Ev) and e.k == 'call' and short(e.name) in (('emplace_back', 'push_back') if nm[0] == 'u' else ('erase',)):
                        o = unld(strip_ld(e.obj))
                        if not (isinstance(o, tuple) and o[0] == 'ix' and o[1] == p2c):
                            continue
                        k = unld(o[2])
                        ok = isinstance(k, tuple) and k[0] == 'f' and k[2] == 'ind' and unld(k[1])[0] == 'ix' and unld(unld(k[1])[1]) == colterm(A, j)
                        ctx.check(ok, 'R12-leup', '%s [line %s]' % (tname(f), e.line), 'column %s is filed under %s instead of its pivot row' % (show(j), show(k)), nm)
                        lb = unld(unld(k[1])[2]) if ok else None
                        if ok and isinstance(lb, tuple) and lb[0] == 'app' and short(lb[1]) in ('lower_bound', 'upper_bound'):
                            ctx.check(short(lb[1]) == 'lower_bound' and any(s == i0 for s in subterms(lb)), 'R12-leup', '%s [line %s]' % (tname(f), e.line), 'the pivot must be the first entry at or below row %s: uses %s' % (show(i0), show(lb)), nm + '/from')
                        if nm[0] == 'u':
                            ctx.check(unld(e.args[0]) == j, 'R12-leup', '%s [line %s]' % (tname(f), e.line), 'records column %s' % show(e.args[0]), nm + '/col')
                        else:
                            lp = [c for L in p.trace if isinstance(L, Loop) for q in L.paths for c in q.trace if isinstance(c, Cond) and e in q.trace and c.t[0] == 'cmp' and c.t[1] == '==' and j in (unld(c.t[2]), unld(c.t[3]))]
                            if lp:
                                ctx.check(all(c.pol for c in lp), 'R12-leup', '%s [line %s]' % (tname(f), e.line), 'removes another column than %s' % show(j), nm + '/col')
    for f in uniq(u, 'get_pivots', lambda f: len(f.d['ps']) == 1):
        ctx.function(f)
        A = par(f, 0, u)
        for p in alg(u, f, keep=ELIM).run(f):
            for it in p.trace:
                if isinstance(it, Loop):
                    t = trip(it)
                    for q in it.paths:
                        for e in q.trace:
                            if isinstance(e, Ev) and short(e.name) == 'update_pivot' and t:
                                ctx.check((unld(t[1]), unld(t[2])) == (0, field(A, 'n')) and unld(e.args[2]) == t[0] and unld(e.args[3]) == 0 and unld(strip_ld(e.args[0])) == A, 'R12-leup', '%s [line %s]' % (tname(f), e.line),
                                          'files columns %s to %s from row %s' % (show(t[1]), show(t[2]), show(e.args[3])), 'get_pivots')


def isentry(t, E, i, j):
    """E(i,j)"""
    t = unld(t)
    return isinstance(t, tuple) and t[0] == 'app' and short(t[1]) == 'operator()' and tuple(unld(strip_ld(x)) for x in t[2]) == (E, unld(i), unld(j))


def colev(e, M):
    """column of M a vector event acts on"""
    c = col_of(e.obj) if e.obj is not None else None
    return unld(c[1]) if c is not None and c[0] == M else None


def colarg(t, M):
    c = col_of(t)
    return unld(c[1]) if c is not None and c[0] == M else None


def pivstep(ctx, L, q, E, Lm, U, P, w, seen):
    """the body of the elimination loop when row i has a pivot"""
    evs = [e for e in q.trace if isinstance(e, Ev)]
    lx = [(k, e) for k, e in enumerate(q.trace) if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy' and colev(e, Lm) is not None]
    ux = [(k, e) for k, e in enumerate(q.trace) if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy' and colev(e, U) is not None]
    cs = counters(L)
    # i and j: the U update names j, the rows come from the loop counters
    if ux:
        j = colev(ux[0][1], U)
    elif lx and len(lx[0][1].args) > 1:
        j = colarg(lx[0][1].args[1], E)
    else:
        return 0
    if not any(d == 1 and sy == j for sy, s0, d in cs.values()) and not any(sy == j for nm, sy in L.syms.values()):
        return 0
    rows = [sy for nm, sy in L.syms.values() if sy != j]
    pv = [(k, e) for k, e in enumerate(q.trace) if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back') and e.name.startswith('std::vector') and len(e.args) == 1 and unld(e.args[0]) in rows]
    if not pv:
        return 0          # the tail loop
    i = unld(pv[0][1].args[0])
    W = lambda e: '%s [line %s]' % (w, e.line)
    seen['U'] = seen.get('U', False) or bool(ux)
    # swaps are recorded
    se = [(k, e) for k, e in enumerate(q.trace) if isinstance(e, Ev) and short(e.name) == 'swap_cols' and unld(strip_ld(e.obj)) == E]
    sp = [(k, e) for k, e in enumerate(q.trace) if isinstance(e, Ev) and short(e.name) == 'swap_cols' and unld(strip_ld(e.obj)) == P]
    A = lambda e: tuple(sorted(map(str, map(unld, e.args))))
    ctx.check([A(e) for k, e in se] == [A(e) for k, e in sp], 'R12-leup', W((se or sp or ux or pv)[0][1]), 'columns swapped in E: %s, in P: %s' % ([list(map(show, e.args)) for k, e in se], [list(map(show, e.args)) for k, e in sp]), 'LEUP/swap')
    for k, e in sp + se:
        pass
    # U[j] += E[j] on the rows of the earlier pivots, before they change
    for k, e in ux:
        a = [unld(strip_ld(x)) for x in e.args]
        ctx.check(len(ux) == 1 and len(a) >= 3 and colarg(e.args[0], E) == j, 'R12-leup', W(e), 'U[%s] takes the earlier pivot rows of %s' % (show(j), show(e.args[0])), 'LEUP/U')
        ctx.check(all(k > x for x, _ in se), 'R12-leup', W(e), 'U is updated before the pivot column is swapped into place', 'LEUP/U-swap')
        ctx.check(all(k < x for x, _ in pv), 'R12-leup', W(e), 'U is updated after the new pivot was recorded', 'LEUP/U-pivot')
    coeffs = [unld(strip_ld(e.args[1])) for k, e in ux]
    pvs = [unld(strip_ld(e.args[2])) for k, e in ux if len(e.args) > 2]
    ok_inv = lambda t: isinstance(unld(t), tuple) and quotient(t) is None and invof(t, E, i, j)
    for k, e in enumerate(q.trace):
        if not isinstance(e, Ev) or e.k != 'call' or short(e.name) not in ('emplace_back', 'push_back') or not e.name.startswith('std::vector'):
            continue
        o = unld(strip_ld(e.obj))
        if o in pvs:
            ctx.check(unld(e.args[0]) == i, 'R12-leup', W(e), 'records pivot row %s' % show(e.args[0]), 'LEUP/pivs')
        elif o in coeffs:
            ctx.check(invof(e.args[0], E, i, j), 'R12-leup', W(e), 'records coefficient %s instead of the inverse of the pivot' % show(e.args[0]), 'LEUP/coeff')
    # L[i] += pivot^-1 E[j] below row i
    clr = [k for k, e in enumerate(q.trace) if isinstance(e, Ev) and e.k in ('set', 'call') and (e.name == '=' or short(e.name) in ('clear', 'operator=')) and colev(e, E) == j]
    loops = [k for k, x in enumerate(q.trace) if isinstance(x, Loop)]
    ctx.check(len(lx) == 1, 'R12-leup', w, '%d updates of L for one pivot' % len(lx), 'LEUP/L-once')
    for k, e in lx:
        a = e.args
        ctx.check(colev(e, Lm) == i and invof(a[0], E, i, j) and colarg(a[1], E) == j and len(a) >= 4 and unld(a[2]) == add(i, 1) and unld(a[3]) == field(E, 'm'), 'R12-leup', W(e),
                  'L[%s] must gain E[%s]/pivot below the pivot row: L[%s] += %s * %s rows [%s, %s)' % (show(i), show(j), show(colev(e, Lm)), show(a[0]), show(a[1]), show(a[2]) if len(a) > 2 else '', show(a[3]) if len(a) > 3 else ''), 'LEUP/L')
        ctx.check(all(k < c for c in clr), 'R12-leup', W(e), 'the column is emptied before L reads it', 'LEUP/L-order')
    # elimination
    nel = 0
    for k, x in enumerate(q.trace):
        if not isinstance(x, Loop):
            continue
        for q2 in x.paths:
            for e in q2.trace:
                if not (isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy' and colev(e, E) is not None):
                    continue
                nel += 1
                jj = colev(e, E)
                a = e.args
                s = 0
                for t in subterms(unld(a[0])):
                    if isentry(t, E, i, jj):
                        s = t
                want = mul(neg(s), inv(entryterm(a[0], E, i, j))) if s and entryterm(a[0], E, i, j) else None
                ctx.check(want is not None and unld(a[0]) == want, 'R12-leup', W(e), 'column %s is reduced with coefficient %s instead of -E(%s,%s)/E(%s,%s)' % (show(jj), show(a[0]), show(i), show(jj), show(i), show(j)), 'LEUP/coef')
                ctx.check(colarg(a[1], E) == j and len(a) >= 4 and unld(a[2]) == add(i, 1) and unld(a[3]) == field(E, 'm'), 'R12-leup', W(e), 'column %s is reduced by %s on rows [%s, %s) instead of the rows below the pivot of column %s' % (show(jj), show(a[1]), show(a[2]) if len(a) > 2 else '', show(a[3]) if len(a) > 3 else '', show(j)), 'LEUP/schur')
                ctx.check(all(k < c for c in clr), 'R12-leup', W(e), 'the pivot column is emptied before the others are reduced', 'LEUP/order')
                up = [y for y in q2.trace if isinstance(y, Ev) and short(y.name) == 'update_pivot']
                if any(isinstance(y, Ev) and short(y.name) == 'update_pivot' for y in flat_all(L)):
                    ctx.check(any(unld(y.args[2]) == jj and unld(y.args[3]) == add(i, 1) for y in up), 'R12-leup', W(e), 'the reduced column %s is not filed under its new pivot' % show(jj), 'LEUP/refile')
                cur = [c for c in cursors(x).values() if isinstance(unld(jj), tuple) and unld(jj)[0] == 'ix' and c[1] == unld(unld(jj)[2])]
                for c in cur:
                    ctx.check(unld(c[2]) == 1, 'R12-leup', '%s [line %s]' % (w, x.line), 'columns with the same pivot are reduced from position %s of the list instead of the second' % show(c[2]), 'LEUP/second')
    ctx.check(nel > 0, 'R12-leup', w, 'columns with the same pivot are not reduced', 'LEUP/elim')
    if se:
        up = [e for e in evs if short(e.name) == 'update_pivot']
        dl = [(k, e) for k, e in enumerate(q.trace) if isinstance(e, Ev) and short(e.name) == 'delete_pivot']
        if any(isinstance(y, Ev) and short(y.name) == 'delete_pivot' for y in flat_all(L)) or up:
            j2 = [x for x in map(unld, se[0][1].args) if x != j]
            ctx.check(any(unld(e.args[2]) == j and k < se[0][0] for k, e in dl), 'R12-leup', W(se[0][1]), 'the column that is moved away keeps its old place in the pivot table', 'LEUP/unfile')
            ctx.check(bool(j2) and any(unld(e.args[2]) == j2[0] and unld(e.args[3]) == i for e in up), 'R12-leup', W(se[0][1]), 'the column moved to %s is not filed under its pivot' % (show(j2[0]) if j2 else '?'), 'LEUP/file')
    # E[j] = pivot at row i
    ctx.check(bool(clr), 'R12-leup', w, 'the pivot column is not emptied', 'LEUP/clear')
    put = [e for k, e in enumerate(q.trace) if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back') and colev(e, E) == j and (not clr or k > clr[-1])]
    ctx.check(len(put) == 1 and len(put[0].args) == 2 and unld(put[0].args[0]) == i and isentry(put[0].args[1], E, i, j), 'R12-leup', W(put[0]) if put else w,
              'E must keep the pivot only: column %s gets %s' % (show(j), [list(map(show, e.args)) for e in put]), 'LEUP/pivot')
    for d, (nm, sy) in L.syms.items():
        if sy in (i, j):
            ctx.check(unld(q.env.get(d)) == add(sy, 1), 'R12-leup', w, 'after a pivot %s becomes %s' % (nm, show(q.env.get(d))), 'LEUP/step')
    return 1


def flat_all(L):
    for q in L.paths:
        yield from flat(q)


def entryterm(t, E, i, j):
    for s in subterms(unld(t)):
        if isentry(s, E, i, j):
            return s
    return None


def invof(t, E, i, j):
    s = entryterm(t, E, i, j)
    return s is not None and unld(t) == inv(s)


def tailstep(ctx, L, q, E, U, w):
    ux = [(k, e) for k, e in enumerate(q.trace) if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy' and colev(e, U) is not None]
    clr = [k for k, e in enumerate(q.trace) if isinstance(e, Ev) and e.k in ('set', 'call') and (e.name == '=' or short(e.name) in ('clear', 'operator=')) and colev(e, E) is not None]
    if not ux and not clr:
        return 0
    t = trip(L)
    ctx.check(len(ux) == 1, 'R12-leup', '%s [line %s]' % (w, L.line), 'a column without pivot does not reach U', 'LEUP/tail-U')
    for k, e in ux:
        j = colev(e, U)
        ctx.check(colarg(e.args[0], E) == j, 'R12-leup', '%s [line %s]' % (w, e.line), 'U[%s] takes the rows of %s' % (show(j), show(e.args[0])), 'LEUP/tail-U')
        ctx.check(all(k < c for c in clr), 'R12-leup', '%s [line %s]' % (w, e.line), 'the column is emptied before U reads it', 'LEUP/tail-order')
        cl = [x for x in q.trace if isinstance(x, Ev) and colev(x, E) == j and (x.name == '=' or short(x.name) in ('clear', 'operator='))]
        ctx.check(bool(cl), 'R12-leup', '%s [line %s]' % (w, e.line), 'a column without pivot stays in E', 'LEUP/tail-clear')
    if t is not None and ux:
        ctx.check(unld(t[2]) == field(E, 'n') and t[3] == 1, 'R12-leup', '%s [line %s]' % (w, L.line), 'stops at column %s' % show(t[2]), 'LEUP/tail-range')
    return 1


def cu(ctx, u):
    for f in uniq(u, 'CU_inplace', lambda f: len(f.d['ps']) == 2):
        ctx.function(f)
        C, U = par(f, 0, u), par(f, 1, u)
        w = tname(f)
        for p, cx in all_paths(alg(u, f).run(f)):
            if p.exit == 'throw':
                continue
            ops = {C: [], U: []}
            tr = list(p.trace)
            for k, e in enumerate(tr):
                if isinstance(e, Ev) and e.k == 'call' and e.obj is not None:
                    c = col_of(e.obj)
                    if c is None or c[0] not in ops:
                        continue
                    a = []
                    for x in e.args:
                        m = col_of(x)
                        a.append(('col', unld(m[1])) if m is not None and m[0] == c[0] else ('other', unld(x)) if m is not None else unld(x))
                    if short(e.name) in ('axpy', 'scale_inplace', 'clear', 'swap'):
                        ops[c[0]].append((short(e.name), unld(c[1]), tuple(a), e))
            strip = lambda o: [x[:3] for x in o]
            if not ops[C] and not ops[U]:
                continue
            ctx.count('factorizations')
            e = (ops[C] or ops[U])[0][3]
            ctx.check(strip(ops[C]) == strip(ops[U]), 'R12-cu', '%s [line %s]' % (w, e.line), 'column operations on C (%s) and on U (%s) differ' % ('; '.join(repr(x[3]) for x in ops[C]), '; '.join(repr(x[3]) for x in ops[U])), 'CU/lockstep')
            # an elimination removes the entry at the known pivot; a scaling makes the pivot 1
            for nm, j, a, e in ops[C]:
                ents = [s for s in subterms(a[0]) if isinstance(s, tuple) and s[0] == 'f' and s[2] == 'val' and entry_of(s) and entry_of(s)[0] == C and entry_of(s)[1] == j] if a else []
                if nm == 'axpy' and ents:
                    v = ents[0]
                    ctx.check(a[0] == neg(v), 'R12-cu', '%s [line %s]' % (w, e.line), 'the entry is eliminated with coefficient %s' % show(a[0]), 'CU/coef')
                    src = a[1]
                    row = field(v[1], 'ind')
                    if src[0] == 'col' and isinstance(src[1], tuple) and src[1][0] == 'ix':
                        ctx.check(src[1][2] == row, 'R12-cu', '%s [line %s]' % (w, e.line), 'eliminates with the pivot column of row %s instead of %s' % (show(src[1][2]), show(row)), 'CU/source')
                if nm == 'scale_inplace' and ents:
                    v = ents[0]
                    ctx.check(a[0] == inv(v), 'R12-cu', '%s [line %s]' % (w, e.line), 'the pivot is scaled by %s' % show(a[0]), 'CU/scale')
                    row = field(v[1], 'ind')
                    tbl = [x for x in tr if isinstance(x, Ev) and x.k == 'set' and x.name == '=' and unld(strip_ld(x.obj))[0] == 'ix' and root(x.obj) not in (root(C), root(U))]
                    for x in tbl:
                        o = unld(strip_ld(x.obj))
                        ctx.check(o[2] == row and unld(x.args[0]) == j, 'R12-cu', '%s [line %s]' % (w, x.line), 'records %s at %s instead of column %s at row %s' % (show(x.args[0]), show(o), show(j), show(row)), 'CU/record')
                    ctx.check(bool(tbl), 'R12-cu', '%s [line %s]' % (w, e.line), 'a column is normalised without being recorded as pivot', 'CU/record')
        for L, p, cx in loops_of(alg(u, f).run(f), lambda L: True):
            t = trip(L)
            if not cx and t is not None and any(isinstance(e, Ev) and e.k == 'call' and e.obj is not None and col_of(e.obj) for e in flat_all(L)):
                ctx.check(unld(t[1]) == 0 and unld(t[2]) == field(C, 'n') and t[3] == 1, 'R12-cu', '%s [line %s]' % (w, L.line), 'covers columns %s to %s in steps of %s' % (show(t[1]), show(t[2]), t[3]), 'CU/range')


# ------------------------------------------------------------------------------------------------ schur
def schur(ctx, u):
    for f in inst(u, 'schur', lambda f: len(f.d['ps']) == 4 and 'ColumnMatrix' in u.type(f.d['ps'][0]['t'])):
        ctx.function(f)
        ps = [par(f, k, u) for k in range(4)]
        ls = [letter(x) for x in 'ABCD']
        for p in alg(u, f).run(f):
            r = Replay(dict(zip(ps, ls))).run(p.trace)
            v = r.mat(p.val) if p.val is not None else None
            if v is None or any('#' in l[0] for w in v for l in w):
                ctx.count('not recognised')
                continue
            ctx.count('factorizations')
            want = nadd(ls[3], prod(ls[2], ninv(ls[0]), ls[1]), -1)
            ctx.check(v == want, 'R12-schur', tname(f), 'returns %s instead of %s' % (showp(v), showp(want)), 'schur4')
            break
    for f in inst(u, 'schur', lambda f: len(f.d['ps']) == 5):
        ctx.function(f)
        blockschur(ctx, u, f)
        break


def blockschur(ctx, u, f):
    A, i0, i1, j0, j1 = [par(f, k, u) for k in range(5)]
    m, n = field(A, 'm'), field(A, 'n')
    R, Cc = [0, i0, i1, m], [0, j0, j1, n]
    w = tname(f)
    for p in alg(u, f, keep=('block', 'set_block')).run(f):
        if p.val is None:
            continue
        blocks = {}          # location -> {(r, c): poly}, partition names
        ok = True

        def part(a, P):
            a = [unld(x) for x in a]
            for k in range(3):
                if a[0] == P[k] and a[1] == P[k + 1]:
                    return k
            return None

        def getblock(r, obj, args, ev):
            a, b = part(args[:2], R), part(args[2:], Cc)
            if unld(strip_ld(obj)) != A or a is None or b is None:
                return fresh('?')
            return letter('A%d%d' % (a + 1, b + 1))
        sizes = {}

        def setblock(r, obj, args, ev):
            o = unld(strip_ld(obj))
            sizes.setdefault(o, []).append((args[:4], r.mat(args[4]), ev))
            return None
        r = Replay(hooks={'block': getblock, 'set_block': setblock}).run(p.trace)
        t = unld(p.val)
        if not (isinstance(t, tuple) and t[0] == 'app' and len(t[2]) == 5):
            ctx.count('not recognised')
            return
        mats = []
        for k, x in enumerate(t[2]):
            x = unld(strip_ld(x))
            rp, cp = (R, R) if k < 2 else (R, Cc) if k == 2 else (Cc, Cc)
            if k == 2:
                B = {}
                zero = any(isinstance(e, Ev) and e.k == 'set' and unld(strip_ld(e.obj)) == x and 'new ColumnMatrix' in str(e.args[0][1]) and tuple(map(unld, e.args[0][2])) == (m, n) for e in p.trace if isinstance(e, Ev) and e.args and isinstance(e.args[0], tuple) and e.args[0][0] == 'app')
                if not zero:
                    ctx.count('not recognised')
                    return
            else:
                if r.dims.get(x) is None:
                    ctx.count('not recognised')
                    return
                ctx.check(r.dims[x] == (m if k < 2 else n), 'R12-schur', w, 'factor %d is an identity of size %s' % (k + 1, show(r.dims[x])), 'schur/size%d' % k)
                B = {(a, a): dict(ONE) for a in range(3)}
            for a, v, e in sizes.get(x, []):
                pr, pc = part(a[:2], rp), part(a[2:], cp)
                if pr is None or pc is None or v is None:
                    ctx.bad('R12-schur', '%s [line %s]' % (w, e.line), 'block [%s) x [%s) is not a block of the partition' % (', '.join(map(show, a[:2])), ', '.join(map(show, a[2:]))), 'schur/block%d' % k)
                    return
                B[(pr, pc)] = v
            mats.append(B)
        res = mats[0]
        for B in mats[1:]:
            res = {(a, c): fsum([nmul(res.get((a, b), {}), B.get((b, c), {})) for b in range(3)]) for a in range(3) for c in range(3)}
        ctx.count('factorizations')
        for a in range(3):
            for c in range(3):
                want = letter('A%d%d' % (a + 1, c + 1))
                ctx.check(res[(a, c)] == want, 'R12-schur', w, 'block (%d,%d) of the product is %s' % (a + 1, c + 1, showp(res[(a, c)])), 'schur/prod%d%d' % (a, c))
        S = mats[2]
        for a, c in ((0, 1), (1, 0), (1, 2), (2, 1)):
            ctx.check(not S.get((a, c)), 'R12-schur', w, 'block (%d,%d) of the complement is %s instead of zero' % (a + 1, c + 1, showp(S.get((a, c)))), 'schur/zero')


def fsum(ps):
    r = {}
    for p in ps:
        r = nadd(r, p)
    return r


# ------------------------------------------------------------------------------------------------ quiver passes
# name: (target edge offset, factor order (left, right), factors of the target that are the identity, what is written)
PASS = {'pass_UP_right': (1, ('LEUP', 'PUEL'), None), 'pass_P_right': (1, ('LEUP', 'PUEL'), ('PLEU', 'UELP', 'PL')),
        'pass_L_left': (-1, ('LEUP', 'PUEL'), ('LEUP', 'PUEL', 'UP')), 'pass_PL_left': (-1, ('PLEU', 'UELP'), None),
        'pass_P_left': (-1, ('PLEU', 'UELP'), ('LEUP', 'PUEL', 'UP')), 'pass_U_right': (1, ('PLEU', 'UELP'), ('PLEU', 'UELP', 'PL'))}
COMM = ('EL_L_commute',)


def qpars(f, u):
    out = {}
    for k, p in enumerate(f.d['ps']):
        t = u.type(p['t'])
        x = par(f, k, u)
        if 'Diagram' in t.split('<')[0]:
            out['dgm'] = x
        elif isvec(t, 'SparseFact'):
            out['facts'] = x
        elif isvec(t, 'ColumnMatrix'):
            out['mats'] = x
        else:
            out.setdefault('ints', []).append(x)
    return out


def dirs(items, dgm):
    """edge index -> 'left' / 'right' from the conditions"""
    out = {}
    for c in items:
        if not isinstance(c, Cond) or c.t[0] != 'cmp' or c.t[1] != '<':
            continue
        a, b = unld(c.t[2]), unld(c.t[3])
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'f' and {a[2], b[2]} == {'src', 'targ'} and a[1] == b[1]):
            continue
        e = unld(a[1])
        if e[0] == 'ix' and e[1] == field(dgm, 'elist'):
            left = (a[2] == 'targ') == c.pol
            out[e[2]] = 'left' if left else 'right'
    return out


def passes(ctx, u):
    for nm, (off, order, tgt) in PASS.items():
        for f in uniq(u, nm):
            q = qpars(f, u)
            if not {'dgm', 'facts', 'ints'} <= set(q) or len(q['ints']) != 1 or (tgt is None and 'mats' not in q):
                ctx.count('not recognised')
                continue
            ctx.function(f)
            i = q['ints'][0]
            k = add(i, off)
            for p in alg(u, f).run(f):
                if p.exit not in ('ret', 'n'):
                    continue
                d = dirs(p.trace, q['dgm'])
                combos = [(x, y) for x in ([d[i]] if i in d else ['left', 'right']) for y in ([d[k]] if k in d else ['left', 'right'])]
                for di, dk in combos:
                    onepass(ctx, f, nm, p, q, i, k, off, order, tgt, di, dk)


def onepass(ctx, f, nm, p, q, i, k, off, order, tgt, di, dk):
    Fi = ('ix', q['facts'], i)
    Fk = ('ix', q['facts'], k)
    init, shape = {}, {}
    for x in 'LEUP':
        init[field(Fi, x)] = letter(x, 'p' if x == 'P' else '')
    for x in 'LEUP':
        init[field(Fk, x)] = letter(x + "'", 'p' if x == 'P' else '')
    shape.update({'L': 'l', 'U': 'u', "L'": 'l', "U'": 'u'})
    if tgt is not None:
        for x in tgt[2]:
            init[field(Fk, x)] = dict(ONE)
    if 'mats' in q:
        init[('ix', q['mats'], k)] = letter('A')
    before_i = prod(*[init[field(Fi, x)] for x in order[di == 'right']])
    prodk = lambda g: g(('ix', q['mats'], k)) if tgt is None else prodn([g(field(Fk, x)) for x in tgt[di_ix(dk)]])
    before_k = prodk(lambda t: init[t])
    r = Replay(dict(init), shape).run(p.trace)
    w = '%s, arrow %s then %s' % (tname(f), *(('%s is %s' % ('i', di)), ('%s is %s' % ('i+1' if off > 0 else 'i-1', dk))))
    get = lambda t: r.loc.get(t, r.get(t))
    after_i = prodn([get(field(Fi, x)) for x in order[di == 'right']])
    after_k = prodk(get)
    for ln, m in r.msgs:
        ctx.bad('R12-shape', '%s [line %s]' % (w, ln), m, nm + '/shape')
    if after_i is None or after_k is None or r.lost:
        ctx.count('not recognised')
        return
    ctx.count('passes')
    # what happens at the shared node
    if off > 0:
        # edge i ends (right) or starts (left) at the shared node
        G = prod(ninv(after_i), before_i) if di == 'left' else prod(after_i, ninv(before_i))
        want = prod(G, before_k) if dk == 'left' else prod(before_k, ninv(G))
    else:
        G = prod(after_i, ninv(before_i)) if di == 'left' else prod(ninv(after_i), before_i)
        want = prod(before_k, ninv(G)) if dk == 'left' else prod(G, before_k)
    key_ = '%s/%s-%s' % (nm, di, dk)
    if len(G) != 1:
        ctx.count('not recognised')
        return
    gone = {l[0] for x in G for l in x}
    ctx.check(gone <= set('LUP'), 'R12-pass', w, 'edge i changes from %s to %s, which is no change of basis at the node it shares with the next edge' % (showp(before_i), showp(after_i)), key_ + '/node')
    ctx.check(after_k == want, 'R12-pass', w, 'edge i goes from %s to %s, so the neighbour %s must become %s; it becomes %s' % (showp(before_i), showp(after_i), showp(before_k), showp(want), showp(after_k)), key_)
    names = {'pass_UP_right': 'UP', 'pass_P_right': 'P', 'pass_L_left': 'L', 'pass_PL_left': 'PL', 'pass_P_left': 'P', 'pass_U_right': 'U'}[nm]
    for x in names:
        ctx.check(get(field(Fi, x)) == ONE, 'R12-pass', w, 'factor %s of edge i is kept although it was passed on' % x, key_ + '/reset')
        s = r.dims.get(field(Fi, x))
        if isinstance(s, tuple) and s[0] == 'f' and s[2] in 'mn':
            o = unld(s[1])
            if isinstance(o, tuple) and o[0] == 'f' and o[2] in 'LUP' and o[1] == Fi:
                cls = [set('L'), set('UP')] if order[0] == 'LEUP' else [set('PL'), set('U')]
                same = [c for c in cls if x in c][0]
                ctx.check(o[2] in same, 'R12-pass', w, 'factor %s is reset to an identity of the size of %s' % (x, o[2]), key_ + '/size')


def di_ix(d):
    return 1 if d == 'right' else 0


def prodn(xs):
    r = ONE
    for x in xs:
        r = nmul(r, x)
    return r


# ------------------------------------------------------------------------------------------------ sweeps
QV = set(PASS) | {'type_A_leftright_sweep1', 'type_A_leftright_sweep2', 'type_A_rightleft_sweep1', 'type_A_rightleft_sweep2', 'type_A_dq_EL', 'type_A_dq_EU', 'type_A_dq_common',
                  'LEUP', 'PLEU', 'UELP', 'PUEL', 'LQU', 'UQL', 'operator*', 'barcode_form_leftright', 'barcode_form_rightleft', 'barcode_form_divide_conquer'}


def steps(items, q, env, d=None):
    """canonical list of steps; None inside when something is not understood"""
    out = []
    d = dict(d or {})
    for it in items:
        if isinstance(it, Cond):
            d.update(dirs([it], q['dgm']))
        elif isinstance(it, Ev):
            n = short(it.name)
            if it.k in ('call', 'pure') and n in QV and (n.startswith('pass_') or n.startswith('type_A')):
                ints = [unld(a) for a in it.args if not (isinstance(strip_ld(a), tuple) and unld(strip_ld(a)) in (q['dgm'], q['facts'], q.get('mats')))]
                out.append((n, tuple(ints)))
            elif it.k == 'set':
                o = unld(strip_ld(it.obj))
                if isinstance(o, tuple) and o[0] == 'ix' and o[1] == q['facts'] and it.args:
                    a = unld(it.args[0])
                    if isinstance(a, tuple) and a[0] == 'app' and len(a[2]) == 1:
                        out.append(('fact', o[2], short(a[1]), d.get(o[2]), word(a[2][0], q)))
                    else:
                        out.append(('fact', o[2], None, d.get(o[2]), None))
                elif isinstance(o, tuple) and o[0] == 'ix' and o[1] == q.get('mats') and it.args:
                    out.append(('mat', o[2], unld(it.args[0])))
        elif isinstance(it, Loop):
            t = trip(it)
            bodies = []
            for p in it.paths:
                if p.exit in ('n', 'c'):
                    bodies.append(steps(p.trace, q, env, d))
            out.append(('loop', t, bodies, it.line))
    return out


def word(t, q):
    """a product of matrices of facts / mats, as a tuple"""
    t = unld(strip_ld(t)) if isinstance(t, tuple) else t
    if isinstance(t, tuple) and t[0] == 'app' and short(t[1]) == 'operator*':
        r = ()
        for x in t[2]:
            y = word(x, q)
            if y is None:
                return None
            r += y
        return r
    if isinstance(t, tuple) and t[0] == 'ix' and t[1] == q.get('mats'):
        return (('mat', t[2]),)
    if isinstance(t, tuple) and t[0] == 'f' and t[2] in 'LEUP' and isinstance(t[1], tuple) and t[1][0] == 'ix' and t[1][1] == q['facts']:
        return ((t[2], t[1][2]),)
    return None


KIND = {'EL': {'left': 'LEUP', 'right': 'PUEL'}, 'EU': {'left': 'PLEU', 'right': 'UELP'}, 'Q': {'left': 'LQU', 'right': 'UQL'}}


def shiftstep(s, sy, by):
    return tuple(subst(x, sy, by) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('sym', 'poly', 'app', 'ix', 'f', 'v', 'size') else
                 tuple(shiftstep(y, sy, by) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else
                 tuple(subst(y, sy, by) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) else x for x in s)


def factcheck(ctx, s, kinds, w, key_):
    """a factorization of one edge uses the kind that belongs to its direction"""
    _, e, name, dr, wd = s
    if name is None:
        ctx.count('not recognised')
        return
    if dr is None:
        if name in [x for k in KIND.values() for x in k.values()]:
            ctx.bad('R12-sweep', w, 'edge %s is factored as %s whatever its direction' % (show(e), name), key_ + '/kind')
        return
    ctx.check(name == KIND[kinds][dr], 'R12-sweep', w, 'edge %s points %s and is factored as %s' % (show(e), dr, name), key_ + '/kind')


def sweepfns(ctx, u):
    def get(nm, need):
        for f in uniq(u, nm):
            q = qpars(f, u)
            if not set(need) <= set(q):
                ctx.count('not recognised')
                continue
            ctx.function(f)
            for p in Engine(u, vocab=lambda n, x: (short(n) in QV and short(n) != nm) or n == 'SparseFact::operator=' or la_mutator(n, x), maxpaths=20000).run(f):
                if p.exit in ('ret', 'n'):
                    yield f, q, p, steps(p.trace, q, p)

    def rng_(L, want, dr, w, key_, var):
        """loop runs over [lo, hi] (inclusive bounds, as visited in this order)"""
        t = L[1]
        if t is None:
            ctx.count('not recognised')
            return None
        sy, lo, hi, st = t
        first, last_ = (unld(lo), sub(unld(hi), 1)) if st > 0 else (sub(unld(hi), 1), unld(lo))
        return sy, first, last_, st

    # ---- one factorization per edge, passing on in between
    for nm, kind, ps, first, off in (('type_A_leftright_sweep1', 'EL', 'pass_UP_right', 0, -1), ('type_A_rightleft_sweep1', 'EU', 'pass_PL_left', 1, 1)):
        for f, q, p, ss in get(nm, ('dgm', 'facts', 'mats', 'ints')):
            if len(q['ints']) != 2:
                continue
            j0, j1 = q['ints']
            a, b = (j0, j1) if off < 0 else (j1, j0)      # order of factorization: a .. b
            w = tname(f)
            ctx.count('sweeps')
            facts_ = [s for s in ss if s[0] == 'fact']
            loops = [s for s in ss if s[0] == 'loop']
            for s in facts_:
                factcheck(ctx, s, kind, w, nm)
                if s[2] is not None:
                    ctx.check(s[4] == (('mat', s[1]),), 'R12-sweep', w, 'edge %s is set to a factorization of %s' % (show(s[1]), shw(s[4])), nm + '/operand')
            if len(facts_) == 1 and len(loops) == 1:
                ctx.check(facts_[0][1] == a, 'R12-sweep', w, 'starts by factoring edge %s instead of %s' % (show(facts_[0][1]), show(a)), nm + '/first')
                ctx.check(ss.index(facts_[0]) < ss.index(loops[0]), 'R12-sweep', w, 'the first edge is factored after the others', nm + '/first-order')
                g = rng_(loops[0], None, None, w, nm, None)
                if g:
                    sy, lo, hi, st = g
                    for body in loops[0][2]:
                        fx = [s for s in body if s[0] == 'fact']
                        px = [s for s in body if s[0].startswith('pass_')]
                        for s in fx:
                            factcheck(ctx, s, kind, w, nm)
                            e0, e1 = subst(s[1], sy, lo), subst(s[1], sy, hi)
                            ctx.check(e0 == sub(a, off) and e1 == b, 'R12-sweep', '%s [line %s]' % (w, loops[0][3]), 'factors edges %s to %s instead of %s to %s' % (show(e0), show(e1), show(sub(a, off)), show(b)), nm + '/range')
                            if s[2] is not None:
                                ctx.check(s[4] == (('mat', s[1]),), 'R12-sweep', w, 'edge %s is set to a factorization of %s' % (show(s[1]), shw(s[4])), nm + '/operand')
                            ctx.check(px and px[0] == (ps, (add(s[1], off),)) and body.index(px[0]) < body.index(s), 'R12-sweep', '%s [line %s]' % (w, loops[0][3]),
                                      'before edge %s is factored %s must pass on the factors of edge %s: %s' % (show(s[1]), ps, show(add(s[1], off)), [(x[0], tuple(map(show, x[1]))) for x in px]), nm + '/pass')
            else:
                ctx.count('not recognised')
    # ---- second sweeps
    for nm, ps, asc in (('type_A_leftright_sweep2', 'pass_L_left', False), ('type_A_rightleft_sweep2', 'pass_U_right', True)):
        for f, q, p, ss in get(nm, ('dgm', 'facts', 'ints')):
            if len(q['ints']) != 2:
                continue
            j0, j1 = q['ints']
            w = tname(f)
            ctx.count('sweeps')
            loops = [s for s in ss if s[0] == 'loop']
            if len(loops) != 1 or any(len(b) != 1 for b in loops[0][2]):
                if not any(s[0] == ps for l in loops for b in l[2] for s in b) and not any(s[0] == ps for s in ss):
                    ctx.bad('R12-sweep', w, 'never passes a factor on (%s)' % ps, nm + '/pass')
                ctx.count('not recognised')
                continue
            g = rng_(loops[0], None, None, w, nm, None)
            for body in loops[0][2]:
                s = body[0]
                ctx.check(s[0] == ps, 'R12-sweep', '%s [line %s]' % (w, loops[0][3]), 'uses %s instead of %s' % (s[0], ps), nm + '/pass')
                if g and len(s[1]) == 1:
                    sy, lo, hi, st = g
                    e0, e1 = subst(s[1][0], sy, lo), subst(s[1][0], sy, hi)
                    want = (j0, sub(j1, 1)) if asc else (j1, add(j0, 1))
                    ctx.check((e0, e1) == want, 'R12-sweep', '%s [line %s]' % (w, loops[0][3]), 'passes the factors of edges %s to %s instead of %s to %s in this order' % (show(e0), show(e1), show(want[0]), show(want[1])), nm + '/range')
    # ---- divide and conquer
    for f, q, p, ss in get('type_A_dq_common', ('dgm', 'facts', 'mats', 'ints')):
        j0, j1 = q['ints']
        w = tname(f)
        ctx.count('sweeps')
        mid = [s for s in ss if s[0] == 'fact']
        if len(mid) != 1 or any(s[0] == 'loop' for s in ss):
            ctx.count('not recognised')
            continue
        j2 = mid[0][1]
        factcheck(ctx, mid[0], 'Q', w, 'dq')
        ctx.check(mid[0][4] == (('mat', j2),), 'R12-sweep', w, 'the middle edge is set to a factorization of %s' % shw(mid[0][4]), 'dq/operand')
        ctx.check(p.val is not None and unld(p.val) == j2, 'R12-sweep', w, 'returns %s, the middle edge is %s' % (show(p.val), show(j2)), 'dq/ret')
        L, R_ = sub(j2, 1), add(j2, 1)
        k = ss.index(mid[0])
        pre, post = ss[:k], ss[k + 1:]
        for where, name, args in ((pre, 'type_A_dq_EL', (j0, L)), (pre, 'type_A_dq_EU', (R_, j1)), (pre, 'pass_UP_right', (L,)), (pre, 'pass_PL_left', (R_,)),
                                  (post, 'pass_U_right', (j2,)), (post, 'pass_L_left', (j2,)), (post, 'type_A_leftright_sweep2', (j0, L)), (post, 'type_A_rightleft_sweep2', (R_, j1))):
            here = [s for s in ss if s[0] == name]
            ctx.check(len(here) == 1 and here[0] in where and here[0][1] == args, 'R12-sweep', w, '%s the middle factorization %s(%s) is needed; found %s' % ('before' if where is pre else 'after', name, ', '.join(map(show, args)), ['%s(%s)' % (s[0], ', '.join(map(show, s[1]))) for s in here]), 'dq/' + name)
        pos = {s[0]: n for n, s in enumerate(ss)}
        for a, b in (('type_A_dq_EL', 'pass_UP_right'), ('type_A_dq_EU', 'pass_PL_left'), ('pass_U_right', 'type_A_rightleft_sweep2'), ('pass_L_left', 'type_A_leftright_sweep2')):
            if a in pos and b in pos:
                ctx.check(pos[a] < pos[b], 'R12-sweep', w, '%s comes after %s' % (a, b), 'dq/order/' + a)
    for nm, kind, ps, s1, s2, off in (('type_A_dq_EL', 'EL', 'pass_P_right', 'type_A_leftright_sweep1', 'type_A_leftright_sweep2', 1), ('type_A_dq_EU', 'EU', 'pass_P_left', 'type_A_rightleft_sweep1', 'type_A_rightleft_sweep2', -1)):
        for f, q, p, ss in get(nm, ('dgm', 'facts', 'mats', 'ints')):
            j0, j1 = q['ints']
            w = tname(f)
            ctx.count('sweeps')
            end = j1 if off > 0 else j0
            if not any(s[0] == 'type_A_dq_common' for s in ss):
                ok = [s for s in ss if s[0].startswith('type_A')]
                ctx.check(ok == [(s1, (j0, j1)), (s2, (j0, j1))], 'R12-sweep', w, 'a short quiver needs %s and then %s over [%s, %s]: does %s' % (s1, s2, show(j0), show(j1), ['%s(%s)' % (s[0], ', '.join(map(show, s[1]))) for s in ok]), nm + '/base')
                continue
            # dq_common needs at least three edges
            fa = Facts(p.trace)
            ctx.check(atleast(p.trace, sub(j1, j0), 2), 'R12-sweep', w, 'divides a quiver that may have fewer than three edges', nm + '/size')
            com = [s for s in ss if s[0] == 'type_A_dq_common']
            ctx.check(len(com) == 1 and com[0][1] == (j0, j1), 'R12-sweep', w, 'divides %s' % [tuple(map(show, s[1])) for s in com], nm + '/common')
            loops = [s for s in ss if s[0] == 'loop']
            facts_ = [s for s in ss if s[0] == 'fact']
            tail = [s for s in ss if s[0] == s2]
            if len(loops) != 1 or len(facts_) != 1:
                ctx.count('not recognised')
                continue
            factcheck(ctx, facts_[0], kind, w, nm + '/last')
            ctx.check(facts_[0][1] == end, 'R12-sweep', w, 'the last edge factored is %s instead of %s' % (show(facts_[0][1]), show(end)), nm + '/end')
            # dangling factor: product of edge in its direction
            dg = {'EL': {'left': (('E', end), ('U', end)), 'right': (('U', end), ('E', end))}, 'EU': {'left': (('L', end), ('E', end)), 'right': (('E', end), ('L', end))}}[kind]
            if facts_[0][3] and facts_[0][4] is not None:
                ctx.check(facts_[0][4] == dg[facts_[0][3]], 'R12-sweep', w, 'the last edge (%s arrow) is %s, not %s' % (facts_[0][3], shw(dg[facts_[0][3]]), shw(facts_[0][4])), nm + '/dangling')
            g = rng_(loops[0], None, None, w, nm, None)
            if g:
                sy, lo, hi, st = g
                start = [x for y in (lo, hi) for x in subterms(y) if isinstance(x, tuple) and len(x) > 1 and x[0] == 'app' and isinstance(x[1], str) and short(x[1]) == 'type_A_dq_common']
                for body in loops[0][2]:
                    fx = [s for s in body if s[0] == 'fact']
                    px = [s for s in body if s[0].startswith('pass_')]
                    ctx.check(len(fx) == 1 and len(px) == 1 and px[0] == (ps, (fx[0][1],)) and body.index(fx[0]) < body.index(px[0]), 'R12-sweep', '%s [line %s]' % (w, loops[0][3]),
                              'each edge must be factored and its P passed on with %s: factors %s, passes %s' % (ps, [show(s[1]) for s in fx], ['%s(%s)' % (s[0], ', '.join(map(show, s[1]))) for s in px]), nm + '/loop')
                    for s in fx:
                        factcheck(ctx, s, kind, w, nm)
                        if s[4] is not None:
                            ctx.check(s[4] == (('E', s[1]),), 'R12-sweep', w, 'edge %s is set to a factorization of %s' % (show(s[1]), shw(s[4])), nm + '/operand')
                        e0, e1 = subst(s[1], sy, lo), subst(s[1], sy, hi)
                        if start:
                            ctx.check(e0 == start[0] and e1 == sub(end, off), 'R12-sweep', '%s [line %s]' % (w, loops[0][3]), 'factors edges %s to %s instead of the middle edge to %s' % (show(e0), show(e1), show(sub(end, off))), nm + '/range')
                ctx.check(ss.index(facts_[0]) > ss.index(loops[0]), 'R12-sweep', w, 'the last edge is factored before the others', nm + '/end-order')
            ctx.check(len(tail) == 1 and tail[0][1] == (j0, j1) and ss.index(tail[0]) > ss.index(facts_[0]), 'R12-sweep', w, 'ends with %s' % ['%s(%s)' % (s[0], ', '.join(map(show, s[1]))) for s in tail], nm + '/tail')
    # ---- barcode forms
    for nm, calls in (('barcode_form_leftright', [('type_A_leftright_sweep1',)]), ('barcode_form_rightleft', [('type_A_rightleft_sweep1',)]), ('barcode_form_divide_conquer', [('type_A_dq_common',)])):
        for f in uniq(u, nm):
            dg = [par(f, k, u) for k, p in enumerate(f.d['ps']) if 'Diagram' in u.type(p['t'])]
            if not dg:
                continue
            ctx.function(f)
            w = tname(f)
            for p in Engine(u, vocab=lambda n, x: (short(n) in QV and short(n) != nm) or n == 'SparseFact::operator=' or la_mutator(n, x), maxpaths=20000).run(f):
                if p.exit != 'ret':
                    continue
                form(ctx, f, nm, calls[0][0], dg[0], p, w)


def shw(t):
    return 'an unknown matrix' if t is None else ' * '.join('%s[%s]' % (a, show(b)) for a, b in t)


def atleast(items, t, n):
    """do the conditions imply t >= n"""
    for c in items:
        if isinstance(c, Cond) and c.t[0] == 'cmp' and c.t[1] == '<':
            a, b = unld(c.t[2]), unld(c.t[3])
            d = sub(a, b) if not c.pol else sub(sub(b, a), 1)      # d >= 0
            k = sub(t, d)                                          # t = d + k
            if is_num(k) and k >= n:
                return True
    return False


def form(ctx, f, nm, call, dgm, p, w):
    v = unld(strip_ld(p.val)) if isinstance(p.val, tuple) else None
    m = ('size', field(dgm, 'edata'), 0)
    if isinstance(v, tuple) and v[0] == 'app' and short(v[1]).startswith('barcode_form'):
        ctx.check(len(v[2]) == 1 and unld(strip_ld(v[2][0])) == dgm, 'R12-form', w, 'returns the barcode form of %s' % show(v), nm + '/other')
        return
    ev = [e for e in flat(p) if isinstance(e, Ev)]
    cs = [e for e in ev if e.k == 'call' and short(e.name) == call]
    if not cs or not (isinstance(v, tuple) and v[0] == 'v'):
        ctx.count('not recognised')
        return
    ctx.count('forms')
    args = [unld(a) for a in cs[0].args]
    ctx.check(unld(strip_ld(cs[0].args[2])) == v and args[-2:] == [0, sub(m, 1)] and len(cs) == 1, 'R12-form', w, '%s runs over edges %s to %s instead of all' % (call, show(args[-2]), show(args[-1])), nm + '/range')
    if call == 'type_A_dq_common':
        ctx.check(atleast(p.trace, sub(m, 1), 2), 'R12-form', w, 'divides a quiver that may have fewer than three edges', nm + '/size')
    ini = [e for e in ev if e.k == 'set' and e.name == 'init' and unld(strip_ld(e.obj)) == v]
    if ini:
        ctx.check(unld(strip_ld(ini[0].args[0])) == field(dgm, 'edata'), 'R12-form', w, 'starts from %s instead of the matrices on the edges' % show(ini[0].args[0]), nm + '/data')
    facts = unld(strip_ld(cs[0].args[1]))
    seen = False
    for it in p.trace:
        if not isinstance(it, Loop):
            continue
        t = trip(it)
        for q in it.paths:
            for e in q.trace:
                if isinstance(e, Ev) and e.k in ('set', 'call') and e.obj is not None and (e.name == '=' or short(e.name) == 'operator='):
                    o = unld(strip_ld(e.obj))
                    if isinstance(o, tuple) and o[0] == 'ix' and o[1] == v and t is not None:
                        seen = True
                        a = unld(strip_ld(e.args[0]))
                        ctx.check(o[2] == t[0] and a == field(('ix', facts, t[0]), 'E') and (unld(t[1]), unld(t[2])) == (0, m), 'R12-form', '%s [line %s]' % (w, e.line), 'edge %s gets %s for %s from %s to %s' % (show(o[2]), show(a), show(t[0]), show(t[1]), show(t[2])), nm + '/E')
    if not seen:
        ctx.count('not recognised')


# ------------------------------------------------------------------------------------------------ read-out
def readout(ctx, u):
    for f in uniq(u, 'barcode_from_barcode_form'):
        ctx.function(f)
        w = tname(f)
        mat = [par(f, k, u) for k, p in enumerate(f.d['ps']) if isvec(u.type(p['t']), 'ColumnMatrix')]
        dg = [par(f, k, u) for k, p in enumerate(f.d['ps']) if 'Diagram' in u.type(p['t'])]
        if not mat or not dg:
            continue
        mat, dgm = mat[0], dg[0]
        m = ('size', field(dgm, 'edata'), 0)
        for p in Engine(u, vocab=lambda n, x: short(n) in ('T', 'transpose') or la_mutator(n, x), maxpaths=20000).run(f):
            if p.exit != 'ret':
                continue
            bars = unld(strip_ld(p.val))
            lv = [it for it in p.trace if isinstance(it, Loop)]
            outer = [L for L in lv if any(isinstance(x, Loop) for q in L.paths for x in q.trace)]
            first = [L for L in lv if L not in outer]
            d0 = dirs(p.trace, dgm).get(0)
            prev = None
            for L in first:
                t = trip(L)
                for q in L.paths:
                    ps = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back') and unld(strip_ld(e.obj)) == bars]
                    if not ps or t is None:
                        continue
                    ctx.count('bars')
                    b = barargs(ps[0])
                    if b is not None:
                        ctx.check(b == [0, t[0], 0, t[0]], 'R12-bars', '%s [line %s]' % (w, ps[0].line), 'vector %s of the first node starts the bar %s' % (show(t[0]), list(map(show, b))), 'bars/first')
                    if d0:
                        n0 = field(('ix', mat, 0), 'm' if d0 == 'left' else 'n')
                        ctx.check((unld(t[1]), unld(t[2])) == (0, n0), 'R12-bars', '%s [line %s]' % (w, L.line), 'the first node (first arrow points %s) has %s vectors, the loop covers %s to %s' % (d0, show(n0), show(t[1]), show(t[2])), 'bars/first-range')
                    st = [e for e in q.trace if isinstance(e, Ev) and e.k == 'set' and e.name == '=']
                    for e in st:
                        o = unld(strip_ld(e.obj))
                        if isinstance(o, tuple) and o[0] == 'ix':
                            prev = o[1]
                            ctx.check(o[2] == t[0] and unld(e.args[0]) == t[0], 'R12-bars', '%s [line %s]' % (w, e.line), 'bar of vector %s is recorded as %s' % (show(o[2]), show(e.args[0])), 'bars/first-index')
            for L in outer:
                t = trip(L)
                if t is None:
                    ctx.count('not recognised')
                    continue
                k = t[0]
                ctx.check((unld(t[1]), unld(t[2]), t[3]) == (0, m, 1), 'R12-bars', '%s [line %s]' % (w, L.line), 'reads edges %s to %s' % (show(t[1]), show(t[2])), 'bars/edges')
                for q in L.paths:
                    edge(ctx, w, q, k, mat, dgm, bars, prev)
    for f in uniq(u, 'bars_to_pairs'):
        ctx.function(f)
        B, h = par(f, 0, u), par(f, 1, u)
        for p in Engine(u, maxpaths=5000).run(f):
            for it in p.trace:
                if not isinstance(it, Loop):
                    continue
                t = trip(it)
                for q in it.paths:
                    for e in q.trace:
                        if isinstance(e, Ev) and e.args and isinstance(unld(e.args[0]), tuple):
                            a = unld(e.args[0])
                            if a[0] == 'f' and isinstance(a[1], tuple) and a[1][0] == 'app':
                                a = a[1]
                            if a[0] == 'app' and 'PersistencePair' in a[1] and len(a[2]) == 5 and t:
                                b = ('ix', B, t[0])
                                ctx.count('bars')
                                ctx.check([unld(x) for x in a[2]] == [h] + [field(b, x) for x in ('start_ind', 'end_ind', 'start', 'end')], 'R12-bars', '%s [line %s]' % (tname(f), e.line), 'a bar becomes the pair (%s)' % ', '.join(map(show, a[2])), 'bars_to_pairs')
                                o = unld(strip_ld(e.obj))
                                while isinstance(o, tuple) and o[0] == 'f':
                                    o = unld(o[1])
                                if isinstance(o, tuple) and o[0] == 'ix':
                                    ctx.check(o[2] == t[0] and (unld(t[1]), unld(t[2])) == (0, ('size', B, 0)), 'R12-bars', '%s [line %s]' % (tname(f), e.line), 'bar %s is stored at %s' % (show(t[0]), show(o)), 'bars_to_pairs/index')
    for f in uniq(u, 'extract_dimension'):
        ctx.function(f)
        D, k = par(f, 0, u), par(f, 1, u)
        for p in Engine(u, maxpaths=5000).run(f):
            for it in p.trace:
                if not isinstance(it, Loop):
                    continue
                t = trip(it)
                if t is None:
                    continue
                ctx.check((unld(t[1]), unld(t[2])) == (0, ('size', field(D, 'edata'), 0)), 'R12-bars', '%s [line %s]' % (tname(f), it.line), 'copies edges %s to %s' % (show(t[1]), show(t[2])), 'extract/range')
                for q in it.paths:
                    for e in q.trace:
                        if isinstance(e, Ev) and e.k == 'set' and e.name == '=':
                            o, a = unld(strip_ld(e.obj)), unld(e.args[0])
                            src = ('ix', field(D, 'elist'), t[0])
                            if isinstance(o, tuple) and o[0] == 'ix' and unld(o[1])[0] == 'f' and unld(o[1])[2] == 'edata':
                                ctx.count('bars')
                                ctx.check(o[2] == t[0] and a == ('ix', ('ix', field(D, 'edata'), t[0]), k), 'R12-bars', '%s [line %s]' % (tname(f), e.line), '%s gets %s' % (show(o), show(a)), 'extract/data')
                            if isinstance(o, tuple) and o[0] == 'f' and o[2] in ('src', 'targ') and isinstance(a, tuple) and a[0] == 'f' and isinstance(a[1], tuple) and a[1][0] == 'app' and len(a[1][2]) == 2:
                                ctx.check([unld(x) for x in a[1][2]] == [field(src, 'src'), field(src, 'targ')], 'R12-bars', '%s [line %s]' % (tname(f), e.line), 'edge %s joins %s' % (show(t[0]), list(map(show, a[1][2]))), 'extract/ends')
    for f in uniq(u, 'barcode', lambda f: len(f.d['ps']) >= 2 and 'Diagram' in u.type(f.d['ps'][0]['t']) and 'quiver' in f.loc()):
        ctx.function(f)
        dgm = par(f, 0, u)
        for p in Engine(u, vocab=lambda n, x: short(n).startswith('barcode_') or short(n) == 'bars_to_pairs', maxpaths=5000).run(f):
            v = unld(strip_ld(p.val)) if isinstance(p.val, tuple) else None
            if not (isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == 'bars_to_pairs' and len(v[2]) == 2):
                continue
            h = [par(f, k, u) for k in range(1, len(f.d['ps'])) if f.d['ps'][k]['n'] == 'hdim' or k == 1][0]
            ctx.count('bars')
            ctx.check(unld(v[2][1]) == h, 'R12-bars', tname(f), 'reports dimension %s' % show(v[2][1]), 'barcode/dim')
            b = unld(strip_ld(v[2][0]))
            if isinstance(b, tuple) and b[0] == 'app' and short(b[1]) == 'barcode_from_barcode_form':
                ctx.check(unld(strip_ld(b[2][1])) == dgm, 'R12-bars', tname(f), 'reads the barcode against %s' % show(b[2][1]), 'barcode/dgm')


def barargs(e):
    a = list(e.args)
    if len(a) == 1:
        t = unld(a[0])
        if isinstance(t, tuple) and t[0] == 'app' and len(t[2]) == 4:
            return [unld(x) for x in t[2]]
        if isinstance(t, tuple) and t[0] == 'tup':
            d = dict(t[1])
            if set(d) >= {'start', 'start_ind', 'end', 'end_ind'}:
                return [unld(d[x]) for x in ('start', 'start_ind', 'end', 'end_ind')]
        return None
    return [unld(x) for x in a] if len(a) == 4 else None


def edge(ctx, w, q, k, mat, dgm, bars, prev):
    d = dirs(q.trace, dgm).get(k)
    if d is None:
        ctx.count('not recognised')
        return
    M = None
    tmat = {}
    for it in q.trace:
        if isinstance(it, Ev) and it.k == 'set' and it.name == 'init' and it.args and isinstance(it.args[0], tuple) and it.args[0][0] == 'app' and short(it.args[0][1]) in ('T', 'transpose'):
            tmat[unld(strip_ld(it.obj))] = unld(strip_ld(it.args[0][2][0]))
    nxt = None
    seen = {True: 0, False: 0}
    for L in [x for x in q.trace if isinstance(x, Loop)]:
        t = trip(L)
        if t is None:
            ctx.count('not recognised')
            continue
        hi = unld(t[2])
        if isinstance(hi, tuple) and hi[0] == 'f' and hi[2] in 'mn':
            Mx = unld(hi[1])
            src, tr = (tmat[Mx], True) if Mx in tmat else (Mx, False)
            rows = (hi[2] == 'm') != tr      # the loop visits rows of src
            ctx.check(src == ('ix', mat, k) and unld(t[1]) == 0, 'R12-bars', '%s [line %s]' % (w, L.line), 'edge %s is read from %s' % (show(k), show(src)), 'bars/matrix')
            ctx.check(rows == (d == 'right'), 'R12-bars', '%s [line %s]' % (w, L.line), 'the next node of a %s arrow has the %s of the matrix as vectors' % (d, 'columns' if d == 'left' else 'rows'), 'bars/%s/side' % d)
        else:
            ctx.count('not recognised')
            continue
        j = t[0]
        col = colterm(Mx, j)
        for p2 in L.paths:
            e = Facts(p2.trace).empty(col)
            if e is None:
                ctx.count('not recognised')
                continue
            ctx.count('bars')
            ps = [x for x in p2.trace if isinstance(x, Ev) and x.k == 'call' and short(x.name) in ('emplace_back', 'push_back') and unld(strip_ld(x.obj)) == bars]
            sets = [x for x in p2.trace if isinstance(x, Ev) and x.k == 'set' and x.name == '=']
            mp = [(x, unld(strip_ld(x.obj))) for x in sets if unld(strip_ld(x.obj))[0] == 'ix']
            fs = [(x, unld(strip_ld(x.obj))) for x in sets if unld(strip_ld(x.obj))[0] == 'f']
            W = '%s [line %s]' % (w, L.line)
            seen[e] += 1
            if e:
                ctx.check(len(ps) == 1 and not fs, 'R12-bars', W, 'a vector outside the image must start one bar: starts %d, changes %d' % (len(ps), len(fs)), 'bars/%s/new' % d)
                for x in ps:
                    b = barargs(x)
                    if b is not None:
                        ctx.check(b == [add(k, 1), j, add(k, 1), j], 'R12-bars', '%s [line %s]' % (w, x.line), 'vector %s of node k+1 starts the bar (%s)' % (show(j), ', '.join(map(show, b))), 'bars/%s/new' % d)
                for x, o in mp:
                    nxt = o[1]
                    a = unld(x.args[0])
                    before = not ps or p2.trace.index(x) < p2.trace.index(ps[0])
                    want = ('size', bars, 0) if before else sub(('size', bars, 0), 1)
                    ctx.check(o[2] == j and a == want, 'R12-bars', '%s [line %s]' % (w, x.line), 'the new bar of vector %s is recorded as %s at %s' % (show(j), show(a), show(o[2])), 'bars/%s/index' % d)
                ctx.check(len(mp) == 1, 'R12-bars', W, 'the bar of a new vector is not recorded', 'bars/%s/index' % d)
            else:
                piv = field(('ix', col, 0), 'ind')
                b = None
                for x, o in fs:
                    base = unld(o[1])
                    if isinstance(base, tuple) and base[0] == 'ix' and base[1] == bars:
                        b = base[2]
                        want = {'end': add(k, 1), 'end_ind': j}.get(o[2])
                        ctx.check(want is not None and unld(x.args[0]) == want, 'R12-bars', '%s [line %s]' % (w, x.line), 'a continued bar gets %s = %s' % (o[2], show(x.args[0])), 'bars/%s/extend' % d)
                ctx.check({o[2] for x, o in fs} == {'end', 'end_ind'} and not ps, 'R12-bars', W, 'a continued bar must move its end: sets %s, starts %d' % (sorted({o[2] for x, o in fs}), len(ps)), 'bars/%s/extend' % d)
                if b is not None:
                    ctx.check(isinstance(b, tuple) and b[0] == 'ix' and b[2] == piv and (prev is None or b[1] == prev), 'R12-bars', W, 'continues bar %s instead of the one of the pivot vector %s' % (show(b), show(piv)), 'bars/%s/which' % d)
                for x, o in mp:
                    ctx.check(o[2] == j and unld(x.args[0]) == b and (nxt is None or o[1] == nxt), 'R12-bars', '%s [line %s]' % (w, x.line), 'vector %s is recorded in bar %s' % (show(o[2]), show(x.args[0])), 'bars/%s/index' % d)
                ctx.check(len(mp) == 1, 'R12-bars', W, 'the bar of a continued vector is not recorded', 'bars/%s/index' % d)
        for e in (True, False):
            if seen[e] == 0 and seen[not e]:
                ctx.bad('R12-bars', '%s [line %s]' % (w, L.line), 'vectors %s the image are not handled' % ('outside' if e else 'inside'), 'bars/%s/case' % d)
    sw = [x for x in q.trace if isinstance(x, Ev) and short(x.name) in ('swap', 'operator=') or isinstance(x, Ev) and x.k == 'set' and unld(strip_ld(x.obj)) in (prev, nxt)]
    if nxt is not None and prev is not None and nxt != prev:
        ctx.check(bool(sw), 'R12-bars', w, 'the bars of the new node never become those of the current node', 'bars/%s/swap' % d)
        cl = [x for x in q.trace if isinstance(x, Ev) and short(x.name) == 'clear' and unld(strip_ld(x.obj)) == nxt]


def run(ctx):
    ua, ut = prog.load(['algebra']), prog.load(['topo'])
    ua, ut = ua[0], ut[0]
    seen = set()
    for u in (ut, ua):
        wrappers(ctx, U1(u, seen, 'w'))
        commutes(ctx, U1(u, seen, 'c'))
        leup(ctx, U1(u, seen, 'l'))
        cu(ctx, U1(u, seen, 'u'))
    schur(ctx, ua)
    passes(ctx, ut)
    sweepfns(ctx, ut)
    readout(ctx, ut)


class U1:
    """a unit whose functions already seen in another unit are skipped"""

    def __init__(self, u, seen, tag):
        self.u, self.seen, self.tag = u, seen, tag

    def find(self, name):
        fs = [f for f in self.u.find(name) if (self.tag, f.loc()) not in self.seen]
        real = [f for f in fs if not f.dep]
        self.seen |= {(self.tag, f.loc()) for f in real}
        return fs

    def __getattr__(self, n):
        return getattr(self.u, n)
