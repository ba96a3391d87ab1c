"""Every operation of ColumnMatrix, decided as a map of columns.

The paths of each member are summarised with the sparse-vector operations (whose meaning is R04)
left as events.  A loop over columns becomes "for every X in [lo, hi): column X gets these
operations", with every index rewritten in terms of X; constructed matrices become sequences of
column terms.  The result is compared with the definition of the operation: which columns, which
vector operation, which arguments, the rows and columns the result has.  Structure tests are read as
the condition under which an iteration answers false."""
from fractions import Fraction
from rules.common import *
from rules.r08 import par, uniq, field
from bx.seqs import Seqs, X, subst, trip, visits, coef, lock, counters
from rules.r12 import isentry
from rules.r05 import evalc

PROP = dict(
    id="R13", title="Column matrices: every operation is its definition, column by column",
    statement="For every column matrix and every argument inside its shape, each ColumnMatrix operation acts on exactly the columns and rows it names and leaves the matrix with the right number of rows and columns: construction (zero, filled, from columns, from CSC, conversion, identity), permutation, swap, mixing, scaling, clearing, insertion, deletion and appending of rows and columns, blocks and submatrices, J reversals, sums, differences, scalar, matrix-vector, vector-matrix and matrix products, transpose, tensor product, direct sum, Schur complement of an entry, triangular solves and inverses, dense output, counts, comparison and the structure tests (zero, upper, lower, invertible upper, reduced, pivot, EL, EU and their hat forms).",
    over=["inputs"],
    text="all matrices, index arguments and coefficients; loops over columns are summarised for an arbitrary column",
    why="tests use a few small matrices: a column range that stops early, swapped arguments, rows handed to a stale row count or a test that forgets empty columns pass there",
    files=["include/linalg/col_matrix.hpp"],
    mechanism=[("list of sparse columns", "ColumnMatrix::col"), ("shape", "ColumnMatrix::m, n")],
)
TECHNIQUE = "per-path summaries of column loops rewritten over an arbitrary column, compared with the definition of each operation"
LEVEL = "proof"
ASSUMPTIONS = ["index arguments lie inside the matrix; argument vectors have the documented length", "sparse vector operations are as decided by R04, permutation helpers as decided by R05",
               "insert_rows with explicit entry lists, insert_rows with rows (its permutation is checked, not the timing output), random and the printing functions are not decided here"]
MINIMUM = {"operations": 45}
THIS = ('this',)
M_, N_ = ('f', THIS, 'm'), ('f', THIS, 'n')
COL = ('f', THIS, 'col')
CUR = {'nzbegin', 'nzend', 'begin', 'end', 'nnz', 'lower_bound', 'upper_bound', 'firstnz', 'lastnz', 'size'}
UT = {'apply_perm_swap', 'apply_iperm_swap', 'apply_perm', 'apply_iperm', 'sortperm', 'partial_perm', 'inv_perm'}
XX = X()


def eng(u, f, keep=(), **kw):
    me = short(f.name)
    def voc(n, x):
        s = short(n)
        if cls_of(n) == 'SparseVector':
            return s not in CUR or s in keep
        return s in UT or s in keep or s == 'inv' or (s == 'operator()' and cls_of(n) == 'ColumnMatrix')
    return Engine(u, vocab=voc, maxpaths=20000, **kw)


def cm(u, name, need=None, types=None):
    """one instance of ColumnMatrix::name per source location; need: parameter type substrings"""
    seen = set()
    for f in u.funcs:
        if f.d.get('dep') or f.d.get('b') is None or not f.file.endswith('col_matrix.hpp') or short(f.name) != name:
            continue
        ts = [u.type(p['t']) for p in f.d['ps']]
        if types is not None and (len(ts) != len(types) or not all(s in t and (s[0:1] == '!' or True) for s, t in zip(types, ts))):
            continue
        if f.line in seen:
            continue
        seen.add(f.line)
        yield f


def sh(n):
    n = short(n)
    return n[4:] if n.startswith('new ') else n


def canon(t, p=None):
    """size of a column list is the number of columns"""
    t = unld(t)
    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'size' and isinstance(t[1], tuple) and t[1][0] == 'f' and t[1][2] == 'col':
            return ('f', t[1][1], 'n')
        if t[0] in ('sym', 'v', 'this', 'str', 'float'):
            return t
        if t[0] == 'poly':
            r = 0
            for m, c in t[1]:
                x = c
                for a in m:
                    x = mul(x, inv(go(a[1])) if isinstance(a, tuple) and a[0] == 'inv' else go(a))
                r = add(r, x)
            return r
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)
    return go(t)


def cterm(j):
    return ('ix', COL, j)


def colix(t, M):
    """column index when t is a column of M"""
    t = unld(strip_ld(t))
    if isinstance(t, tuple) and t[0] == 'ix' and unld(t[1]) == ('f', M, 'col'):
        return unld(t[2])
    return None


class ColLoop:
    """for every X in [lo, hi): cases [(conds, [(op, args, line)])]"""
    def __init__(self, L, lo, hi, cases):
        self.L, self.lo, self.hi, self.cases = L, lo, hi, cases


def colloop(L, M):
    """summary of a loop that touches columns of M, or None"""
    idx = None
    for q in L.paths:
        for e in q.trace:
            if isinstance(e, Ev) and e.k == 'call' and e.obj is not None and colix(e.obj, M) is not None:
                i = colix(e.obj, M)
                if idx is not None and i != idx:
                    return None
                idx = i
    if idx is None:
        return None
    if L.kind == 'rfor' and L.rng is not None and unld(strip_ld(L.rng)) == ('f', M, 'col'):
        sy = unld(L.var)
        if isinstance(sy, tuple) and sy[0] == 'ix':
            sy = unld(sy[2])
        if idx != sy:
            return None
        lo, hi, back = 0, ('f', M, 'n'), lambda t: subst(t, sy, XX)
    else:
        v = visits(L, idx)
        if v is None:
            return None
        lo, hi = v[0], v[1]
        t = trip(L)
        sy = t[0]
        i2 = lock(L, idx)
        c = coef(i2, sy)
        if c is None or c[0] not in (1, -1):
            return None
        # sy = (X - r) / c
        val = mul(c[0], sub(XX, c[1]))
        back = lambda t: subst(lock(L, t), sy, val)
    cases = []
    for q in L.paths:
        if q.exit == 'throw':
            continue
        if q.exit not in ('n', 'c'):
            return None
        conds, ops = [], []
        for it in q.trace:
            if isinstance(it, Cond):
                conds.append((canon(back(unld(it.t))), it.pol))
            elif isinstance(it, Ev) and it.k == 'call' and it.obj is not None and colix(it.obj, M) is not None:
                ops.append((short(it.name), tuple(canon(back(unld(strip_ld(a)))) for a in it.args), it.line))
            elif isinstance(it, Loop):
                if any(isinstance(e, Ev) and e.k == 'call' and e.obj is not None and colix(e.obj, M) is not None for q2 in it.paths for e in flat(q2)):
                    return None
        cases.append((conds, ops, q))
    return ColLoop(L, canon(lo), canon(hi), cases)


def colloops(p, M):
    """loops with column operations on M; None when one is not understood"""
    out = []
    for it in p.trace:
        if isinstance(it, Loop) and any(isinstance(e, Ev) and e.k == 'call' and e.obj is not None and colix(e.obj, M) is not None for q in it.paths for e in flat(q)):
            c = colloop(it, M)
            if c is None:
                return None
            out.append(c)
    return out


def shape(p, which, M=THIS):
    k = ('f', M, which)
    for it in reversed(p.trace):
        if isinstance(it, Ev) and it.k == 'set' and unld(strip_ld(it.obj)) == k:
            return canon(it.args[0])
    return k


def W(f, line=None):
    return tname(f) + (' [line %s]' % line if line else '')


def ops_s(ops):
    return ', '.join('%s(%s)' % (o, ', '.join(map(show, a))) for o, a, l in ops) or 'nothing'


def holds(conds, op, a, b):
    """True/False/None from path conditions"""
    fa = Facts([])
    from bx.engine import Cond as C
    cs = []
    for t, pol in conds:
        c = C(t, pol, 0)
        cs.append(c)
    return Facts(cs).holds(op, a, b)


# ------------------------------------------------------------------ maps of columns
def mapped(ctx, u, name, types, want, dm=0, lo=0, hi=N_, key_=None, M=THIS, keep=()):
    """every column X of [lo, hi) gets want(f, conds) = list of acceptable op lists; m grows by dm"""
    for f in cm(u, name, types=types):
        ctx.function(f)
        k0 = key_ or name
        P = [par(f, i, u) for i in range(len(f.d['ps']))]
        seen = False
        for p in eng(u, f, keep).run(f):
            if p.exit == 'throw':
                continue
            ls = colloops(p, M)
            if ls is None:
                ctx.count('not recognised')
                continue
            lo_, hi_ = (lo(P) if callable(lo) else lo), (hi(P) if callable(hi) else hi)
            if not ls:
                if any(isinstance(it, Cond) for it in p.trace):     # an early exit: nothing to do
                    ctx.count('not recognised')
                    continue
                ctx.bad('R13-map', W(f), 'no column is touched', k0 + '/none')
                continue
            if len(ls) > 1:
                ctx.count('not recognised')
                continue
            seen = True
            c = ls[0]
            ctx.check((c.lo, c.hi) == (lo_, hi_), 'R13-map', W(f, c.L.line), 'acts on columns [%s, %s) instead of [%s, %s)' % (show(c.lo), show(c.hi), show(lo_), show(hi_)), k0 + '/range')
            for conds, ops, q in c.cases:
                w = want(P, conds, p)
                if w is None:
                    ctx.count('not recognised')
                    continue
                got = [(o, tuple(a)) for o, a, l in ops]
                ctx.check(got in w, 'R13-map', W(f, ops[0][2] if ops else c.L.line), 'column X gets %s instead of %s' % (ops_s(ops), ' or '.join(ops_s([(o, a, 0) for o, a in x]) for x in w)), k0 + '/op')
            if dm is not None:
                d = dm(P) if callable(dm) else dm
                ctx.check(shape(p, 'm', M) == add(('f', M, 'm'), d), 'R13-shape', W(f), 'leaves %s rows instead of %s' % (show(shape(p, 'm', M)), show(add(('f', M, 'm'), d))), k0 + '/m')
                ctx.check(shape(p, 'n', M) == ('f', M, 'n'), 'R13-shape', W(f), 'leaves %s columns' % show(shape(p, 'n', M)), k0 + '/n')
        if seen:
            ctx.count('operations')


def maps(ctx, u):
    one = lambda *ops: (lambda P, c, p: [[(o, a(P)) for o, a in ops]])
    V = 'std::vector<unsigned long'
    mapped(ctx, u, 'permute_rows', [V], one(('permute', lambda P: (P[0],))))
    mapped(ctx, u, 'ipermute_rows', [V], one(('ipermute', lambda P: (P[0],))))
    mapped(ctx, u, 'swap_rows', ['long', 'long'], lambda P, c, p: [[('swap_rows', (P[0], P[1]))], [('swap_rows', (P[1], P[0]))]])
    mapped(ctx, u, 'mix_rows', None, lambda P, c, p: [[('mix_rows', tuple(P))], [('mix_rows', (P[1], P[0], P[5], P[4], P[3], P[2]))]])
    mapped(ctx, u, 'add_rows', None, lambda P, c, p: [[('mix_rows', (P[0], P[2], 1, P[1], 0, 1))], [('mix_rows', (P[2], P[0], 1, 0, P[1], 1))]])
    mapped(ctx, u, 'J_left_inplace', None, one(('J', lambda P: (M_,))))
    mapped(ctx, u, 'row_scale', None, one(('scale_inplace', lambda P: (P[0],))))
    mapped(ctx, u, 'erase_row', ['long'], one(('erase_for_matrix', lambda P: (P[0],))), dm=-1, key_='erase_row(i)')
    mapped(ctx, u, 'erase_row', [], lambda P, c, p: [[('erase_last_row_of_matrix', (sub(M_, 1),))], [('erase_for_matrix', (sub(M_, 1),))]], dm=-1, key_='erase_row()')
    mapped(ctx, u, 'erase_initial_rows', ['long'], one(('erase_initial_rows', lambda P: (P[0],))), dm=lambda P: neg(P[0]))
    mapped(ctx, u, 'clear_rows', None, one(('clear_inds', lambda P: (P[0],))))

    def er(P, c, p):
        cs = list(c) + [(canon(unld(x.t)), x.pol) for x in p.trace if isinstance(x, Cond)]
        part = [('erase_rows_after', (sub(sub(M_, P[0]), 1),))]
        if holds(cs, '<', P[0], M_) or holds(cs, '<', 0, sub(M_, P[0])):
            return [part]
        whole = [[('erase_all', ())], [('clear', ())], [('clear_dealloc', ())]]
        if holds(cs, '<', P[0], M_) is False or holds(cs, '==', P[0], M_):
            return whole
        # some rows may be left or none
        return [[('(only where rows are left)', ())]] if all(t[0] == 'cmp' for t, pol in cs) else None
    mapped(ctx, u, 'erase_rows', ['long'], er, dm=lambda P: neg(P[0]))

    def cc(P, c, p):
        t = [pol for x, pol in c if x[0] == 'truth' and unld(x[1]) == ('ix', P[0], XX)]
        if not t:
            return [[('(only where c[X])', ())]]
        return [[('clear_dealloc', ())], [('clear', ())]] if t[0] else [[]]
    mapped(ctx, u, 'clear_cols', None, cc)

    def invs(P, c, p):
        x = ('ix', P[0], XX)
        return [[('scale_inplace', (('app', 'Rational::inv', (x,), 0),))], [('scale_inplace', (inv(x),))]]
    for f in cm(u, 'col_inv_scale'):
        ctx.function(f)
        c0 = par(f, 0, u)
        for p in eng(u, f).run(f):
            if p.exit == 'throw':
                continue
            ls = colloops(p, THIS)
            if not ls or len(ls) != 1:
                ctx.count('not recognised')
                continue
            ctx.count('operations')
            c = ls[0]
            ctx.check((c.lo, c.hi) == (0, N_), 'R13-map', W(f, c.L.line), 'scales columns [%s, %s)' % (show(c.lo), show(c.hi)), 'col_inv_scale/range')
            for conds, ops, q in c.cases:
                ok = len(ops) == 1 and ops[0][0] == 'scale_inplace' and len(ops[0][1]) == 1 and isinv(ops[0][1][0], ('ix', c0, XX))
                ctx.check(ok, 'R13-map', W(f, c.L.line), 'column X gets %s instead of scaling by the inverse of coeff[X]' % ops_s(ops), 'col_inv_scale/op')

    def ar(P, c, p):
        z = [pol for x, pol in c if x[0] == 'cmp' and x[1] == '==' and ('ix', P[0], XX) in (unld(x[2]), unld(x[3])) and 0 in (x[2], x[3])]
        if not z:
            return [[('(only where row[X] != 0)', ())]]
        return [[]] if z[0] else [[('emplace_back', (M_, ('ix', P[0], XX)))]]
    mapped(ctx, u, 'append_row', ['vector'], ar, dm=1, key_='append_row(v)')
    for o in ('+=',):
        mapped(ctx, u, 'operator+=', None, lambda P, c, p: [[('axpy', (1, ('ix', ('f', P[0], 'col'), XX)))]])
    mapped(ctx, u, 'set_block', None, lambda P, c, p: [[('set_block', (P[0], P[1], ('ix', ('f', P[4], 'col'), sub(XX, P[2]))))]], lo=lambda P: P[2], hi=lambda P: P[3])

    # insert zero rows
    for f in cm(u, 'insert_rows', types=[V]):
        ctx.function(f)
        r = par(f, 0, u)
        done = False
        for p in eng(u, f).run(f):
            ls = colloops(p, THIS)
            if p.exit == 'throw' or not ls or len(ls) != 1:
                ctx.count('not recognised')
                continue
            done = True
            c = ls[0]
            ctx.check((c.lo, c.hi) == (0, N_), 'R13-map', W(f, c.L.line), 'inserts rows into columns [%s, %s)' % (show(c.lo), show(c.hi)), 'insert_rows/range')
            ctx.check(shape(p, 'm') == add(M_, size_of(r)), 'R13-shape', W(f), 'leaves %s rows' % show(shape(p, 'm')), 'insert_rows/m')
            for conds, ops, q in c.cases:
                ok = len(ops) == 1 and ops[0][0] == 'insert_rows' and ops[0][1][0] == r
                ctx.check(ok, 'R13-map', W(f, c.L.line), 'column X gets %s' % ops_s(ops), 'insert_rows/op')
                if ok and len(ops[0][1]) == 2:
                    s = ops[0][1][1]
                    # s counts the leading indices that are their own position
                    for it in p.trace:
                        if isinstance(it, Loop):
                            cs = counters(it)
                            mine = [(sy, s0, d) for sy, s0, d in cs.values() if sy == s]
                            if mine:
                                ctx.check(unld(mine[0][1]) == 0 and mine[0][2] == 1, 'R13-map', W(f, it.line), 'the count of leading new rows does not count from 0', 'insert_rows/lead')
                                for q2 in it.paths:
                                    if q2.exit in ('n', 'c'):
                                        fa = Facts(q2.trace)
                                        ctx.check(fa.holds('==', ('ix', r, s), s) is True, 'R13-map', W(f, it.line), 'counts a leading new row without comparing it with its position', 'insert_rows/lead')
        if done:
            ctx.count('operations')


def isinv(t, x):
    t = unld(t)
    if t == inv(x):
        return True
    if isinstance(t, tuple) and t[0] == 'app' and short(t[1]) == 'inv' and len(t[2]) >= 1 and unld(strip_ld(t[2][0])) == x:
        return True
    if isinstance(t, tuple) and t[0] == 'app' and sh(t[1]) == 'Rational' and tuple(map(unld, t[2])) == (('f', x, 'd'), ('f', x, 'n')):
        return True
    return False


# ------------------------------------------------------------------ whole-list operations
def events(p, M=THIS):
    """mutating events outside loops, in order"""
    return [e for e in p.trace if isinstance(e, Ev) and e.k == 'call']


def simple(ctx, u):
    V = 'std::vector<unsigned long'

    def shapes(f, p, m, n, k0):
        ctx.check(shape(p, 'm') == m, 'R13-shape', W(f), 'leaves %s rows instead of %s' % (show(shape(p, 'm')), show(m)), k0 + '/m')
        ctx.check(shape(p, 'n') == n, 'R13-shape', W(f), 'leaves %s columns instead of %s' % (show(shape(p, 'n')), show(n)), k0 + '/n')

    def paths(name, types=None, keep=(), k0=None):
        for f in cm(u, name, types=types):
            ctx.function(f)
            n = 0
            for p in eng(u, f, keep).run(f):
                if p.exit == 'throw':
                    continue
                n += 1
                yield f, [par(f, i, u) for i in range(len(f.d['ps']))], p
            ctx.count('operations')

    def seq(p):
        out = []
        for e in p.trace:
            if isinstance(e, Ev) and e.k == 'call':
                out.append((short(e.name), None if e.obj is None else unld(strip_ld(e.obj)), tuple(canon(unld(strip_ld(a))) for a in e.args), e.line))
        return out

    def expect(f, p, alts, k0):
        got = [x[:3] for x in seq(p)]
        if any(isinstance(it, Loop) for it in p.trace):
            ctx.count('not recognised')
            return
        ctx.check(got in alts, 'R13-op', W(f), 'does %s' % ', '.join('%s(%s)' % (a, ', '.join(show(x) for x in ((b,) if b is not None else ()) + c)) for a, b, c in got), k0)

    for fn, ok, bad_ in (('permute_cols', 'apply_perm_swap', 0), ('ipermute_cols', 'apply_iperm_swap', 0)):
        for f, P, p in paths(fn, [V]):
            expect(f, p, [[(ok, None, (COL, P[0]))]], fn)
            shapes(f, p, M_, N_, fn)
    for f, P, p in paths('permute', None, keep=('permute_rows', 'permute_cols')):
        a, b = ('permute_rows', THIS, (P[0],)), ('permute_cols', THIS, (P[1],))
        expect(f, p, [[a, b], [b, a]], 'permute')
    for f, P, p in paths('J_conjugation_inplace', [], keep=('J_left_inplace', 'J_right_inplace')):
        a, b = ('J_left_inplace', THIS, ()), ('J_right_inplace', THIS, ())
        expect(f, p, [[a, b], [b, a]], 'J_conjugation_inplace')
    for g, h in (('J_left', 'J_left_inplace'), ('J_right', 'J_right_inplace'), ('J_conjugation', 'J_conjugation_inplace')):
        for f, P, p in paths(g, [], keep=('J_left_inplace', 'J_right_inplace', 'J_conjugation_inplace')):
            v = unld(strip_ld(p.val)) if p.val is not None else None
            src = [e for e in p.trace if isinstance(e, Ev) and e.k == 'set' and unld(strip_ld(e.obj)) == v]
            ok = len(src) == 1 and canon(src[0].args[0]) == THIS and [x[:3] for x in seq(p)] in ([(h, v, ())],) + (([('J_left_inplace', v, ()), ('J_right_inplace', v, ())], [('J_right_inplace', v, ()), ('J_left_inplace', v, ())]) if g == 'J_conjugation' else ())
            if v is None or not (isinstance(v, tuple) and v[0] == 'v'):
                ctx.count('not recognised')
                continue
            ctx.check(ok, 'R13-op', W(f), 'must copy the matrix, apply %s to the copy and return it' % h, g)
    for f, P, p in paths('swap_cols'):
        a, b = ('ix', COL, P[0]), ('ix', COL, P[1])
        expect(f, p, [[('swap', None, (a, b))], [('swap', None, (b, a))]], 'swap_cols')
    for f, P, p in paths('J_right_inplace', []):
        ls = [it for it in p.trace if isinstance(it, Loop)]
        if len(ls) != 1 or trip(ls[0]) is None:
            ctx.count('not recognised')
            continue
        sy, lo, hi, st = trip(ls[0])[:4]
        ok = True
        for q in ls[0].paths:
            sw = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call']
            if len(sw) != 1 or short(sw[0].name) != 'swap':
                ok = None
                continue
            ij = [colix(a, THIS) for a in sw[0].args]
            if None in ij:
                ok = None
                continue
        if ok and st in (1, -1):
            a, b = (canon(lock(ls[0], x)) for x in ij)
            for n in range(8):
                env = {N_: n}
                l0, h0 = evald(canon(lo), env), evald(canon(hi), env)
                if l0 is None or h0 is None:
                    ctx.count('not recognised')
                    break
                cols = list(range(n))
                for z in (range(l0, h0) if st == 1 else range(h0 - 1, l0 - 1, -1)):
                    x, y = evald(a, {N_: n, sy: z}), evald(b, {N_: n, sy: z})
                    if x is None or y is None or not (0 <= x < n and 0 <= y < n):
                        cols = None
                        break
                    cols[x], cols[y] = cols[y], cols[x]
                ctx.check(cols == list(range(n))[::-1], 'R13-op', W(f, ls[0].line), 'with %d columns the swaps from %s to %s do not reverse them' % (n, show(lo), show(hi)), 'J_right/range')
    # appending and erasing columns
    for f, P, p in paths('append_column', []):
        s = [x[:3] for x in seq(p)]
        ok = len(s) == 1 and s[0][0] in ('emplace_back', 'push_back') and s[0][1] == COL and (not s[0][2] or empty_vec(s[0][2][0]))
        if len(s) == 1 and s[0][0] == 'resize':
            ok = s[0][2][:1] == (add(N_, 1),)
        ctx.check(ok, 'R13-op', W(f), 'does not append one empty column', 'append_column()')
        shapes(f, p, M_, add(N_, 1), 'append_column()')
    for f, P, p in paths('append_column', ['']):
        s = [x[:3] for x in seq(p)]
        a = s[0][2][0] if len(s) == 1 and s[0][2] else None
        if isinstance(a, tuple) and a[0] == 'app' and len(a[2]) == 1:
            a = unld(strip_ld(a[2][0]))
        ctx.check(len(s) == 1 and s[0][0] in ('emplace_back', 'push_back') and s[0][1] == COL and a == P[0], 'R13-op', W(f), 'does not append its argument', 'append_column(x)')
        shapes(f, p, M_, add(N_, 1), 'append_column(x)')
    for nm, types, m in (('append_row', [], lambda P: add(M_, 1)), ('erase_row_unsafe', [], lambda P: sub(M_, 1)), ('erase_final_rows_unsafe', ['long'], lambda P: sub(M_, P[0])), ('set_nrow', ['long'], lambda P: P[0])):
        for f, P, p in paths(nm, types):
            expect(f, p, [[]], nm)
            shapes(f, p, m(P), N_, nm)
    for f, P, p in paths('erase_column', ['long']):
        expect(f, p, [[('erase', COL, (('it', COL, P[0]),))]], 'erase_column(i)')
        shapes(f, p, M_, sub(N_, 1), 'erase_column(i)')
    for f, P, p in paths('erase_column', []):
        expect(f, p, [[('erase', COL, (('it', COL, sub(N_, 1)),))], [('pop_back', COL, ())], [('resize', COL, (sub(N_, 1),))]], 'erase_column()')
        shapes(f, p, M_, sub(N_, 1), 'erase_column()')
    it = lambda k: ('it', COL, k)
    for f, P, p in paths('erase_final_columns', ['long']):
        expect(f, p, [[('resize', COL, (sub(N_, P[0]),))], [('erase', COL, (it(sub(N_, P[0])), it(N_)))]], 'erase_final_columns')
        shapes(f, p, M_, sub(N_, P[0]), 'erase_final_columns')
    for f, P, p in paths('erase_initial_cols', ['long']):
        s = [x[:3] for x in seq(p)]
        zero = Facts(p.trace).holds('==', P[0], 0)
        if zero:
            ctx.check(not s and shape(p, 'n') == N_ or shape(p, 'n') == sub(N_, P[0]), 'R13-op', W(f), 'erasing no column changes the matrix', 'erase_initial_cols/0')
            continue
        expect(f, p, [[('rotate', None, (it(0), it(P[0]), it(N_))), ('resize', COL, (sub(N_, P[0]),))], [('erase', COL, (it(0), it(P[0])))],
                      [('rotate', None, (it(0), it(P[0]), it(N_))), ('erase', COL, (it(sub(N_, P[0])), it(N_)))]], 'erase_initial_cols')
        shapes(f, p, M_, sub(N_, P[0]), 'erase_initial_cols')
    # append a sparse row
    for f, P, p in paths('append_sparse_row', None):
        ls = [x for x in p.trace if isinstance(x, Loop)]
        if len(ls) != 1:
            ctx.count('not recognised')
            continue
        nzrow(ctx, f, ls[0], P[0], M_, 'append_sparse_row')
        shapes(f, p, add(M_, 1), N_, 'append_sparse_row')
    # insertion = append + permutation
    for types, arg in ((['long'], 0), (['long', 'vector'], 1)):
        for f, P, p in paths('insert_row', types, keep=('append_row', 'permute_rows', 'ipermute_rows'), k0='insert_row'):
            k0 = 'insert_row/%d' % arg
            ap = [e for e in p.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'append_row']
            grown = bool(ap) or shape(p, 'm') == add(M_, 1)
            if arg:
                ctx.check(len(ap) == 1 and unld(strip_ld(ap[0].args[0])) == P[1], 'R13-op', W(f), 'does not append the row it is given', k0 + '/append')
            else:
                ctx.check(grown and len(ap) <= 1, 'R13-op', W(f), 'does not grow by one row', k0 + '/append')
            last = M_ if not ap else None          # position of the new row
            permtable(ctx, f, p, P[0], k0, rows=True)
    for types, arg in ((['long'], 0), (['long', 'SparseVector'], 1)):
        for f, P, p in paths('insert_column', types, keep=('append_column', 'permute_cols', 'ipermute_cols')):
            k0 = 'insert_column/%d' % arg
            ap = [e for e in p.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'append_column']
            ctx.check(len(ap) == 1 and (not arg or [unld(strip_ld(a)) for a in ap[0].args] == [P[1]]), 'R13-op', W(f), 'does not append the column it is given', k0 + '/append')
            permtable(ctx, f, p, P[0], k0, rows=False)


def empty_vec(t):
    t = unld(t)
    return isinstance(t, tuple) and t[0] == 'app' and sh(t[1]) == 'SparseVector' and not t[2]


def nzrow(ctx, f, L, v, row, k0):
    """every nonzero (j, x) of v is appended to column j as (row, x)"""
    its = iterates(L, field(v, 'indval'))
    for q in L.paths:
        es = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call']
        if len(es) != 1 or short(es[0].name) != 'emplace_back':
            if q.exit in ('n', 'c') and not es:
                ctx.bad('R13-op', W(f, L.line), 'an entry of the row is not appended', k0 + '/skip')
            else:
                ctx.count('not recognised')
            continue
        e = es[0]
        j = colix(e.obj, THIS)
        a = [canon(unld(strip_ld(x))) for x in e.args]
        if j is None or its is None or len(a) != 2:
            ctx.count('not recognised')
            continue
        el = ('ix', field(v, 'indval'), its)
        ctx.check(j == ('f', el, 'ind') and a[1] == ('f', el, 'val') and a[0] == row, 'R13-op', W(f, e.line), 'column %s gets (%s, %s)' % (show(j), show(a[0]), show(a[1])), k0 + '/entry')


def permtable(ctx, f, p, ind, k0, rows):
    """the permutation that moves the last row/column to position ind, applied in its direction"""
    use = [e for e in p.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('permute_rows', 'ipermute_rows', 'permute_cols', 'ipermute_cols')]
    if len(use) != 1 or not use[0].args:
        if not use:
            ctx.bad('R13-op', W(f), 'the new %s is never moved to its place' % ('row' if rows else 'column'), k0 + '/move')
        ctx.count('not recognised')
        return
    e = use[0]
    ctx.check(short(e.name).endswith('rows') == rows, 'R13-op', W(f, e.line), 'permutes %s' % e.name, k0 + '/which')
    scatter = short(e.name) in ('permute_rows', 'permute_cols')
    perm = unld(strip_ld(e.args[0]))
    loops = [L for L in p.trace if isinstance(L, Loop) and any(isinstance(x, Ev) and x.k == 'call' and x.obj is not None and unld(strip_ld(x.obj)) == perm for q in L.paths for x in q.trace)]
    if len(loops) != 1 or trip(loops[0]) is None:
        ctx.count('not recognised')
        return
    L = loops[0]
    sy, lo, hi, st = trip(L)[:4]
    # number of rows/columns after appending
    N = canon(hi)
    n1 = shape(p, 'm' if rows else 'n')
    if n1 == (M_ if rows else N_):
        # appended by a call: the member already counts the new one
        want = n1
    else:
        want = n1
    ctx.check(unld(lo) == 0 and N == want and st == 1, 'R13-op', W(f, L.line), 'the permutation covers [%s, %s) of %s' % (show(lo), show(hi), show(want)), k0 + '/range')
    for q in L.paths:
        if q.exit not in ('n', 'c'):
            continue
        ps = [x for x in q.trace if isinstance(x, Ev) and x.k == 'call' and x.obj is not None and unld(strip_ld(x.obj)) == perm]
        if len(ps) != 1 or len(ps[0].args) != 1:
            ctx.count('not recognised')
            continue
        v = canon(unld(ps[0].args[0]))
        got = table(q, v, sy, ind, N, scatter)
        if got is None:
            ctx.count('not recognised')
            continue
        ctx.check(not got, 'R13-op', W(f, ps[0].line), 'position %s %s %s: %s' % (show(sy), 'goes to' if scatter else 'takes', show(v), got), k0 + '/table')


def evald(t, env):
    """value of a term with integer division, or None"""
    if isinstance(t, tuple) and t and t[0] == 'app' and t[1] in ('/', '>>') and len(t[2]) == 2:
        a, b = evald(canon(t[2][0]), env), evald(canon(t[2][1]), env)
        return None if a is None or b is None or (t[1] == '/' and b == 0) else a // b if t[1] == '/' else a >> b
    if isinstance(t, tuple) and t and t[0] == 'poly':
        at = {a for m, c in t[1] for a in m}
        e = dict(env)
        for a in at:
            v = evald(a, env)
            if v is None:
                return None
            e[a] = v
        return evalc(t, e)
    return evalc(t, env)


def truth(t, env):
    """truth value of a comparison under env, or None"""
    if t[0] != 'cmp':
        return None
    a, b = evalc(canon(t[2]), env), evalc(canon(t[3]), env)
    if a is None or b is None:
        return None
    return {'<': a < b, '==': a == b, '<=': a <= b}.get(t[1])


def table(q, v, sy, ind, N, scatter):
    """the entry v of a table that moves the last of N to position ind: '' when right on every order
    type of (sy, ind, N), a counterexample, or None when a term is not understood"""
    for n in range(1, 6):
        for k in range(n):
            for i in range(n):
                env = {sy: i, ind: k}
                if isinstance(N, tuple) and N[0] == 'poly':
                    at = [a for m, c in N[1] for a in m]
                    if len(at) != 1:
                        return None
                    off = evalc(N, {at[0]: 0})
                    env[at[0]] = n - off
                else:
                    env[N] = n
                live = True
                for c in q.trace:
                    if isinstance(c, Cond):
                        r = truth(c.t, env)
                        if r is None:
                            return None
                        if r != c.pol:
                            live = False
                            break
                if not live:
                    continue
                got = evalc(v, env)
                if got is None:
                    return None
                w = (k if i == n - 1 else i + 1 if i >= k else i) if scatter else (n - 1 if i == k else i - 1 if i > k else i)
                if got != w:
                    return 'with %d positions and the new one at %d, %d gives %d instead of %d' % (n, k, i, got, w)
    return ''


# ------------------------------------------------------------------ constructed matrices
def newmat(v):
    """(rows, columns, list term) of a constructed matrix"""
    v = unld(v)
    if isinstance(v, tuple) and v[0] == 'app' and sh(v[1]) == 'ColumnMatrix' and len(v[2]) == 3:
        return tuple(canon(unld(strip_ld(x))) for x in v[2])
    return None


def content(p, C):
    s = Seqs()
    s.run(p.trace)
    return s.get(C)


def norm1(segs):
    return [tuple(canon(x) if i else x for i, x in enumerate(sg)) for sg in segs]


def built(ctx, u):
    def paths(name, types=None, keep=()):
        for f in cm(u, name, types=types):
            ctx.function(f)
            for p in eng(u, f, keep).run(f):
                if p.exit == 'ret' or p.exit == 'n':
                    yield f, [par(f, i, u) for i in range(len(f.d['ps']))], p

    def result(f, P, p, rows, cols, want, k0):
        r = newmat(p.val) if p.val is not None else None
        if r is None:
            ctx.count('not recognised')
            return
        ctx.count('operations')
        ctx.check(r[0] == rows and r[1] == cols, 'R13-shape', W(f), 'returns a %s x %s matrix instead of %s x %s' % (show(r[0]), show(r[1]), show(rows), show(cols)), k0 + '/shape')
        segs = content(p, r[2])
        if segs is None or want is None:
            ctx.count('not recognised')
            return
        sg = [x for x in segs if x[0] != 'el']
        compare(f, segs, want, k0)

    def compare(f, segs, want, k0):
        got = []
        for s in segs:
            if s[0] == 'for':
                got.append((canon(s[2]), canon(s[3]), canon(unld(subst(s[4], s[1], XX)))))
            else:
                ctx.count('not recognised')
                return
        if len(got) != len(want):
            if any(has_opaque(g[2]) for g in got):
                ctx.count('not recognised')
                return
            ctx.bad('R13-build', W(f), 'columns are %s' % '; '.join('X in [%s, %s): %s' % tuple(map(show, g)) for g in got), k0 + '/cols')
            return
        for (lo, hi, t), (wl, wh, ok, txt) in zip(got, want):
            # allow a shifted running index
            lo2, hi2, t2 = lo, hi, t
            if lo != wl and sub(hi, lo) == sub(wh, wl):
                d = sub(lo, wl)
                lo2, hi2, t2 = wl, wh, canon(subst(t, XX, add(XX, d)))
            ctx.check((lo2, hi2) == (wl, wh), 'R13-build', W(f), 'columns are built for X in [%s, %s) instead of [%s, %s)' % (show(lo), show(hi), show(wl), show(wh)), k0 + '/range')
            ctx.check(ok(t2), 'R13-build', W(f), 'column X is %s instead of %s' % (show(t2), txt), k0 + '/col')

    def call(name, *args, obj=None):
        """term is name(obj, args)"""
        def ok(t):
            t = unld(t)
            if not (isinstance(t, tuple) and t[0] == 'app' and short(t[1]) == name):
                return False
            a = tuple(canon(unld(strip_ld(x))) for x in t[2])
            w = ((obj,) if obj is not None else ()) + args
            return a[:len(w)] == w and all(isinstance(x, tuple) and x[0] == 'v' for x in a[len(w):])
        return ok
    cx = lambda M, i=XX: ('ix', ('f', M, 'col'), i)
    for f, P, p in paths('block'):
        result(f, P, p, sub(P[1], P[0]), sub(P[3], P[2]), [(P[2], P[3], call('block', P[0], P[1], obj=cx(THIS)), 'col[X].block(%s, %s)' % (show(P[0]), show(P[1])))], 'block')
    for f, P, p in paths('submatrix'):
        pp = ('app', 'bats::util::partial_perm', (P[0], M_), 0)
        def sub_ok(t, P=P):
            t = unld(t)
            if not (isinstance(t, tuple) and t[0] == 'app' and short(t[1]) == 'subvector' and len(t[2]) == 2):
                return False
            o, a = (canon(unld(strip_ld(x))) for x in t[2])
            return o == cx(THIS, ('ix', P[1], XX)) and isinstance(a, tuple) and a[0] == 'app' and short(a[1]) == 'partial_perm' and tuple(map(unld, a[2])) == (P[0], M_)
        result(f, P, p, size_of(P[0]), size_of(P[1]), [(0, size_of(P[1]), sub_ok, 'the rows of col[cind[X]] numbered by rind')], 'submatrix')
    for f, P, p in paths('operator*', None, keep=('gemv', 'operator*')):
        if f.d['ps'] and cls_of(f.name) == 'ColumnMatrix':
            t = u.type(f.d['ps'][0]['t'])
            if 'ColumnMatrix' in t:
                g = lambda x, P=P: call('gemv', cx(P[0]), obj=THIS)(x) or call('operator*', cx(P[0]), obj=THIS)(x)
                result(f, P, p, M_, ('f', P[0], 'n'), [(0, ('f', P[0], 'n'), g, 'this * B[X]')], 'gemm')
            elif 'SparseVector' in t:
                ctx.count('operations')
                v = unld(p.val)
                ctx.check(call('gemv', P[0], obj=THIS)(v) if isinstance(v, tuple) and v[0] == 'app' else True, 'R13-build', W(f), 'returns %s' % show(v), 'A*x')
            else:
                s = lambda x, P=P: x == mul(cx(THIS), P[0]) or call('operator*', P[0], obj=cx(THIS))(x)
                result(f, P, p, M_, N_, [(0, N_, s, 'col[X] * a')], 'scalar')
    for nm in ('u_solve', 'l_solve'):
        for f, P, p in paths(nm, ['ColumnMatrix', 'ColumnMatrix'], keep=(nm,)):
            result(f, P, p, ('f', P[1], 'm'), ('f', P[1], 'n'), [(0, ('f', P[1], 'n'), call(nm, P[0], cx(P[1])), '%s(%s, A[X])' % (nm, show(P[0])))], nm + '(A)')
    for nm, g in (('u_inv', 'u_solve'), ('l_inv', 'l_solve')):
        for f, P, p in paths(nm, None, keep=(g, 'identity')):
            ctx.count('operations')
            v = unld(p.val)
            ok = isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == g and canon(unld(strip_ld(v[2][0]))) == P[0]
            if ok:
                i = canon(unld(strip_ld(v[2][1])))
                ok = isinstance(i, tuple) and i[0] == 'app' and short(i[1]) == 'identity' and unld(i[2][0]) in (('f', P[0], 'm'), ('f', P[0], 'n'))
            ctx.check(ok, 'R13-build', W(f), 'returns %s instead of %s against the identity' % (show(v), g), nm)
    for f, P, p in paths('identity', ['long']):
        def unit(t):
            t = unld(t)
            return isinstance(t, tuple) and t[0] == 'app' and sh(t[1]) == 'SparseVector' and (tuple(map(unld, t[2])) == (XX,) or tuple(map(unld, t[2]))[:1] == (XX,) and len(t[2]) == 2 and unld(t[2][1]) == 1)
        result(f, P, p, P[0], P[0], [(0, P[0], unit, 'the unit vector X')], 'identity')
    for f, P, p in paths('direct_sum', None):
        A, B = P
        fm, fn = lambda M: ('f', M, 'm'), lambda M: ('f', M, 'n')
        cp = lambda t: t == cx(A)
        result(f, P, p, add(fm(A), fm(B)), add(fn(A), fn(B)), [(0, fn(A), cp, 'A[X]'), (0, fn(B), call('shift_inds', fm(A), obj=cx(B)), 'B[X] shifted by the rows of A')], 'direct_sum')
    for f, P, p in paths('tensor_product', None):
        A, B = P
        r = newmat(p.val)
        if r is None:
            ctx.count('not recognised')
            continue
        ctx.count('operations')
        fm, fn = lambda M: ('f', M, 'm'), lambda M: ('f', M, 'n')
        ctx.check(r[0] == mul(fm(A), fm(B)) and r[1] == mul(fn(A), fn(B)), 'R13-shape', W(f), 'returns a %s x %s matrix' % (show(r[0]), show(r[1])), 'tensor/shape')
        for L in p.trace:
            if not isinstance(L, Loop):
                continue
            t = trip(L)
            for q in L.paths:
                inner = [x for x in q.trace if isinstance(x, Loop)]
                for L2 in inner:
                    t2 = trip(L2)
                    for q2 in L2.paths:
                        for e in q2.trace:
                            if isinstance(e, Ev) and e.k == 'call' and unld(strip_ld(e.obj)) == r[2] and t and t2:
                                v = unld(strip_ld(e.args[0]))
                                ok = call('tensor', cx(B, t2[0]), fm(B), obj=cx(A, t[0]))(v)
                                ctx.check(ok, 'R13-build', W(f, e.line), 'column (i, j) is %s instead of A[i].tensor(B[j], rows of B)' % show(v), 'tensor/col')
                                ctx.check((unld(t[1]), canon(t[2]), unld(t2[1]), canon(t2[2])) == (0, fn(A), 0, fn(B)) and t[3] == 1 and t2[3] == 1, 'R13-build', W(f, L.line), 'columns (i, j) run over [%s, %s) x [%s, %s)' % (show(t[1]), show(t[2]), show(t2[1]), show(t2[2])), 'tensor/range')
    # transpose
    for f, P, p in paths('transpose', []):
        r = newmat(p.val)
        if r is None:
            ctx.count('not recognised')
            continue
        ctx.count('operations')
        ctx.check(r[0] == N_ and r[1] == M_, 'R13-shape', W(f), 'returns a %s x %s matrix' % (show(r[0]), show(r[1])), 'transpose/shape')
        C = r[2]
        init = [e for e in p.trace if isinstance(e, Ev) and e.k == 'set' and unld(strip_ld(e.obj)) == C]
        if init:
            a = unld(init[0].args[0])
            if isinstance(a, tuple) and a[0] == 'app' and a[2] and not isinstance(a[2][0], str):
                ctx.check(canon(a[2][0]) == M_, 'R13-build', W(f), 'makes %s columns' % show(a[2][0]), 'transpose/size')
        for L in p.trace:
            if not isinstance(L, Loop):
                continue
            t = trip(L)
            for q in L.paths:
                for L2 in q.trace:
                    if not isinstance(L2, Loop) or not t:
                        continue
                    sy = iterates(L2, ('f', cx(THIS, t[0]), 'indval'))
                    for q2 in L2.paths:
                        es = [e for e in q2.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back')]
                        if q2.exit in ('n', 'c') and not es and sy is not None:
                            ctx.bad('R13-build', W(f, L2.line), 'an entry is not copied', 'transpose/skip')
                        for e in es:
                            o = unld(strip_ld(e.obj))
                            if sy is None or not (isinstance(o, tuple) and o[0] == 'ix' and unld(o[1]) == C) or len(e.args) != 2:
                                ctx.count('not recognised')
                                continue
                            el = ('ix', ('f', cx(THIS, t[0]), 'indval'), sy)
                            ctx.check(unld(o[2]) == ('f', el, 'ind') and unld(strip_ld(e.args[0])) == t[0] and unld(strip_ld(e.args[1])) == ('f', el, 'val'), 'R13-build', W(f, e.line), 'entry %s of column %s goes to column %s as (%s, %s)' % (show(sy), show(t[0]), show(o[2]), show(e.args[0]), show(e.args[1])), 'transpose/entry')
                            ctx.check((unld(t[1]), canon(t[2])) == (0, N_) and t[3] == 1, 'R13-build', W(f, L.line), 'transposes columns [%s, %s)' % (show(t[1]), show(t[2])), 'transpose/range')
    for f, P, p in paths('T', [], keep=('transpose',)):
        v = unld(p.val)
        ctx.check(isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == 'transpose', 'R13-build', W(f), 'returns %s' % show(v), 'T')
    # matrix-vector product
    for f, P, p in paths('gemv', None):
        if cls_of(f.name) != 'ColumnMatrix':
            continue
        x, y = P[0], unld(strip_ld(p.val))
        ini = [e for e in p.trace if isinstance(e, Ev) and e.k == 'set' and unld(strip_ld(e.obj)) == y]
        ls = [L for L in p.trace if isinstance(L, Loop)]
        if len(ls) != 1 or not ini:
            ctx.count('not recognised')
            continue
        ctx.count('operations')
        ctx.check(empty_vec(ini[0].args[0]), 'R13-build', W(f), 'the result starts as %s' % show(ini[0].args[0]), 'gemv/init')
        sy = iterates(ls[0], field(x, 'indval'))
        for q in ls[0].paths:
            es = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call']
            if sy is None or len(es) != 1 or short(es[0].name) != 'axpy':
                if sy is not None and q.exit in ('n', 'c') and not es:
                    ctx.bad('R13-build', W(f, ls[0].line), 'an entry of x contributes nothing', 'gemv/skip')
                ctx.count('not recognised')
                continue
            el = ('ix', field(x, 'indval'), sy)
            e = es[0]
            a = [canon(unld(strip_ld(z))) for z in e.args]
            ctx.check(unld(strip_ld(e.obj)) == y and a[0] == ('f', el, 'val') and a[1] == cx(THIS, ('f', el, 'ind')), 'R13-build', W(f, e.line), 'adds %s * %s' % (show(a[0]), show(a[1])), 'gemv/term')
        if sy is None:
            for q in ls[0].paths:
                cs = cursors(ls[0])
                st = [s0 for d, (nm, sy2, s0, cc) in cs.items() if cc == field(x, 'indval')]
                for s0 in st:
                    ctx.check(unld(s0) == 0 or s0 == ('it', field(x, 'indval'), 0), 'R13-build', W(f, ls[0].line), 'starts at entry %s of x' % show(s0), 'gemv/start')
    # x^T A
    for f, P, p in paths('operator*', ['SparseVector', 'ColumnMatrix']):
        x, A = P
        v = unld(p.val)
        if not (isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == 'SparseVector' and len(v[2]) == 2):
            ctx.count('not recognised')
            continue
        ctx.count('operations')
        vi, vv = (unld(strip_ld(z)) for z in v[2])
        for L in p.trace:
            if not isinstance(L, Loop) or trip(L) is None:
                continue
            t = trip(L)
            prod = mul(cx(A, t[0]), x)
            ctx.check((unld(t[1]), canon(t[2])) == (0, ('f', A, 'n')) and t[3] == 1, 'R13-build', W(f, L.line), 'multiplies columns [%s, %s)' % (show(t[1]), show(t[2])), 'xA/range')
            for q in L.paths:
                es = {}
                for e in q.trace:
                    if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back'):
                        es.setdefault(unld(strip_ld(e.obj)), []).append(unld(strip_ld(e.args[0])))
                z = Facts(q.trace).holds('==', prod, 0)
                if z is None:
                    if es:
                        ctx.bad('R13-build', W(f, L.line), 'stores an entry that may be zero', 'xA/zero')
                    continue
                want = {} if z else {vi: [t[0]], vv: [prod]}
                ctx.check(es == want, 'R13-build', W(f, L.line), 'column %s with %s product stores %s' % (show(t[0]), 'zero' if z else 'nonzero', '; '.join('%s << %s' % (show(k), ', '.join(map(show, y))) for k, y in es.items()) or 'nothing'), 'xA/entry')
    # sums
    for nm, w in (('operator+', (1, 1)), ('operator-', (1, -1))):
        for f, P, p in paths(nm, ['ColumnMatrix']):
            if cls_of(f.name) != 'ColumnMatrix':
                continue
            B = P[0]
            C = unld(strip_ld(p.val))
            ini = [canon(e.args[0]) for e in p.trace if isinstance(e, Ev) and e.k == 'set' and unld(strip_ld(e.obj)) == C]
            ls = colloops(p, C)
            if not ini or not ls or ini[0] not in (THIS, B):
                ctx.count('not recognised')
                continue
            ctx.count('operations')
            tot = {THIS: 0, B: 0}
            tot[ini[0]] = 1
            for c in ls:
                ctx.check(c.lo == 0 and c.hi in (N_, ('f', B, 'n'), ('f', C, 'n')), 'R13-build', W(f, c.L.line), 'combines columns [%s, %s)' % (show(c.lo), show(c.hi)), nm + '/range')
                if len(c.cases) != 1:
                    ctx.count('not recognised')
                    tot = None
                    break
                for o, a, l in c.cases[0][1]:
                    src = [m for m in (THIS, B) if len(a) > 1 and a[1] == cx(m)]
                    if o == 'axpy' and src:
                        tot[src[0]] = add(tot[src[0]], a[0])
                    elif o == 'scale_inplace':
                        tot = {k: mul(x, a[0]) for k, x in tot.items()}
                    else:
                        tot = None
                        break
                if tot is None:
                    break
            if tot is None:
                ctx.count('not recognised')
                continue
            ctx.check((tot[THIS], tot[B]) == w, 'R13-build', W(f), 'computes %s * this + %s * B' % (show(tot[THIS]), show(tot[B])), nm)
    # mixing two columns
    for f, P, p in paths('mix_cols', None):
        j, k, a, b, c, d = P
        st = {j: {j: 1, k: 0}, k: {j: 0, k: 1}}
        good = True
        for e in p.trace:
            if not isinstance(e, Ev) or e.k != 'call':
                continue
            i = colix(e.obj, THIS) if e.obj is not None else None
            o = short(e.name)
            if i not in st:
                good = False
                break
            if o == 'scale_inplace':
                st[i] = {z: mul(x, unld(e.args[0])) for z, x in st[i].items()}
            elif o == 'axpy':
                src = e.args[1]
                si = colix(src, THIS)
                if si not in st:
                    good = False
                    break
                if isinstance(src, tuple) and src[0] == 'ld':
                    old = {j: int(si == j), k: int(si == k)} if src[2] == 0 else dict(st[si])
                else:
                    old = st[si]
                st[i] = {z: add(x, mul(unld(e.args[0]), old[z])) for z, x in st[i].items()}
            else:
                good = False
                break
        if not good:
            ctx.count('not recognised')
            continue
        ctx.count('operations')
        ctx.check(st[j] == {j: a, k: c}, 'R13-op', W(f), 'column j becomes %s' % ' + '.join('%s * %s' % (show(x), show(z)) for z, x in st[j].items()), 'mix_cols/j')
        ctx.check(st[k] == {j: b, k: d}, 'R13-op', W(f), 'column k becomes %s' % ' + '.join('%s * %s' % (show(x), show(z)) for z, x in st[k].items()), 'mix_cols/k')
    # constructors
    for f in cm(u, 'ColumnMatrix'):
        ts = [u.type(x['t']) for x in f.d['ps']]
        P = [par(f, i, u) for i in range(len(ts))]
        if f.d.get('imp') or f.d.get('dfd') or not ts or 'stream' in ts[0] or 'string' in ts[0]:
            continue
        for p in eng(u, f).run(f):
            if p.exit == 'throw':
                continue
            segs = content(p, COL)
            m, n = shape(p, 'm'), shape(p, 'n')
            k0 = 'ctor/%d/%s' % (len(ts), 'CSC' if 'CSC' in ts[0] else 'col' if 'vector' in ts[-1] else 'mat' if 'ColumnMatrix' in ts[0] else 'sz')
            ev = [e for e in p.trace if isinstance(e, Ev) and e.k == 'call' and e.obj is not None and unld(strip_ld(e.obj)) == COL]
            if 'CSC' in ts[0] or ('ColumnMatrix' in ts[0] and len(ts) == 1):
                A = P[0]
                ctx.function(f)
                ctx.count('operations')
                ctx.check((m, n) == (('f', A, 'm'), ('f', A, 'n')), 'R13-shape', W(f), 'is %s x %s' % (show(m), show(n)), k0 + '/shape')
                if 'CSC' in ts[0]:
                    ix = lambda F, i: ('ix', ('f', A, F), i)
                    def okc(t):
                        t = unld(t)
                        if not (isinstance(t, tuple) and t[0] == 'app' and sh(t[1]) == 'SparseVector' and len(t[2]) == 3):
                            return False
                        a = [unld(z) for z in t[2]]
                        return a[0] == ('it', ('f', A, 'rowind'), ix('colptr', XX)) and a[1] == ('it', ('f', A, 'val'), ix('colptr', XX)) and a[2] == sub(ix('colptr', add(XX, 1)), ix('colptr', XX))
                    if segs:
                        compare(f, segs, [(0, ('f', A, 'n'), okc, 'entries colptr[X] .. colptr[X+1] of A')], k0)
                else:
                    sets = [(L, q, e) for L in p.trace if isinstance(L, Loop) for q in L.paths for e in q.trace if isinstance(e, Ev) and e.k in ('set', 'call') and (e.k == 'set' or short(e.name) == 'operator=') and e.obj is not None and colix(e.obj, THIS) is not None]
                    for L, q, e in sets:
                        t = trip(L)
                        v = unld(strip_ld(e.args[0]))
                        if t is None:
                            continue
                        while isinstance(v, tuple) and v[0] == 'app' and sh(v[1]) == 'SparseVector' and len(v[2]) == 1:
                            v = unld(strip_ld(v[2][0]))
                        ctx.check(colix(e.obj, THIS) == t[0] and canon(v) == cx(A, t[0]) and (unld(t[1]), canon(t[2])) == (0, ('f', A, 'n')), 'R13-build', W(f, e.line), 'column %s is converted from %s for [%s, %s)' % (show(colix(e.obj, THIS)), show(v), show(t[1]), show(t[2])), k0 + '/col')
            elif len(ts) >= 2 and 'long' in ts[0] and 'long' in ts[1]:
                ctx.function(f)
                ctx.count('operations')
                ctx.check((m, n) == (P[0], P[1]), 'R13-shape', W(f), 'is %s x %s' % (show(m), show(n)), k0 + '/shape')
                if len(ts) == 3 and 'vector' in ts[2] and 'SparseVector' in ts[2] and ts[2].startswith('const std::vector'):
                    sv = [e for e in p.trace if isinstance(e, Ev) and e.k == 'set' and unld(strip_ld(e.obj)) == COL]
                    ctx.check(len(sv) == 1 and unld(strip_ld(sv[0].args[0])) == P[2], 'R13-build', W(f), 'does not hold the columns it is given', k0 + '/col')
                elif ev and short(ev[0].name) in ('resize', 'assign'):
                    a = [unld(strip_ld(z)) for z in ev[0].args]
                    ctx.check(a[0] == P[1], 'R13-build', W(f), 'has %s columns' % show(a[0]), k0 + '/cols')
                    if len(ts) == 3 and len(a) > 1 and isinstance(a[1], tuple) and a[1][0] == 'app':
                        ctx.check(short(a[1][1]) == 'dense' and tuple(map(unld, a[1][2]))[:2] == (P[2], P[0]), 'R13-build', W(f), 'columns are %s' % show(a[1]), k0 + '/fill')
                    elif len(ts) == 2 and len(a) > 1:
                        ctx.check(empty_vec(a[1]), 'R13-build', W(f), 'columns are %s' % show(a[1]), k0 + '/fill')


def has_opaque(t):
    return any(isinstance(s, tuple) and s and s[0] == 'app' for s in subterms(t))


# ------------------------------------------------------------------ solves
def solves(ctx, u):
    for nm, up in (('u_solve', True), ('l_solve', False)):
        for f in cm(u, nm, types=['ColumnMatrix', 'SparseVector']):
            ctx.function(f)
            T_, y = par(f, 0, u), par(f, 1, u)
            done = False
            for p in Engine(u, vocab=lambda n, x: cls_of(n) == 'SparseVector' and short(n) not in (CUR - {'lower_bound', 'upper_bound', 'find'}), maxpaths=20000).run(f):
                if p.exit != 'ret':
                    continue
                x = unld(strip_ld(p.val))
                ini = [e for e in p.trace if isinstance(e, Ev) and e.k == 'set' and unld(strip_ld(e.obj)) == x]
                ctx.check(not ini or unld(strip_ld(ini[0].args[0])) == y or (isinstance(unld(ini[0].args[0]), tuple) and unld(ini[0].args[0])[0] == 'app' and unld(strip_ld(unld(ini[0].args[0])[2][0])) == y), 'R13-solve', W(f), 'x starts as %s' % (show(ini[0].args[0]) if ini else ''), nm + '/init')
                for L in p.trace:
                    if not isinstance(L, Loop):
                        continue
                    for d, s0 in L.start.items():
                        s0 = unld(s0)
                        if isinstance(s0, tuple) and s0[0] == 'app' and short(s0[1]) in ('lower_bound', 'upper_bound') and unld(strip_ld(s0[2][0])) == x:
                            k = canon(unld(strip_ld(s0[2][-1])))
                            k = sub(k, 1) if short(s0[1]) == 'upper_bound' and not up else add(k, 1) if short(s0[1]) == 'upper_bound' else k
                            # entries before (after) the start are never visited: rows [0, k) are for u_solve
                            if up:
                                dd = sub(k, ('f', T_, 'n'))
                                ctx.check(not isinstance(dd, int) or dd >= 0, 'R13-solve', W(f, L.line), 'starts below row %s' % show(k), nm + '/start')
                            else:
                                ctx.check(not isinstance(k, int) or k <= 0, 'R13-solve', W(f, L.line), 'starts at row %s' % show(k), nm + '/start')
                    for q in L.paths:
                        if q.exit == 'throw':
                            continue
                        rep = [(k, e) for k, e in enumerate(q.trace) if isinstance(e, Ev) and short(e.name) == 'replace' and unld(strip_ld(e.obj)) == x]
                        axs = [(k, e) for k, e in enumerate(q.trace) if isinstance(e, Ev) and short(e.name) == 'axpy' and unld(strip_ld(e.obj)) == x]
                        if not rep:
                            if axs:
                                ctx.bad('R13-solve', W(f, L.line), 'an entry is eliminated without being divided by the diagonal', nm + '/replace')
                            continue
                        done = True
                        e = rep[0][1]
                        a = unld(e.args[1])
                        tgt = unld(e.args[0])
                        pos = tgt[2] if isinstance(tgt, tuple) and tgt[0] == 'it' else tgt
                        # the pivot row
                        el = [s for s in subterms(a) if isinstance(s, tuple) and len(s) == 3 and s[0] == 'f' and s[2] == 'val']
                        el = list({unld(s): 0 for s in el})
                        xe = [s for s in el if s[1] in (('ix', ('f', x, 'indval'), pos), ('deref', pos))]
                        ue = [s for s in el if colof(s, T_) is not None and s not in xe]
                        if len(xe) != 1 or len(ue) != 1:
                            qn = quotient(a)
                            ctx.check(False if (not xe or not ue) and not opaque_cursor(a) else True, 'R13-solve', W(f, e.line), 'entry %s is replaced by %s' % (show(pos), show(a)), nm + '/quotient')
                            ctx.count('not recognised')
                            continue
                        j = ('f', xe[0][1], 'ind')
                        ctx.check(a == mul(xe[0], inv(ue[0])) or quot(a, xe[0], ue[0]), 'R13-solve', W(f, e.line), 'entry %s is replaced by %s' % (show(pos), show(a)), nm + '/quotient')
                        ctx.check(colof(ue[0], T_) == j, 'R13-solve', W(f, e.line), 'divides by an entry of column %s for row %s' % (show(colof(ue[0], T_)), show(j)), nm + '/column')
                        lbj = [s for s in subterms(ue[0]) if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) in ('lower_bound', 'upper_bound')]
                        for s in lbj:
                            ctx.check(short(s[1]) == 'lower_bound' and unld(strip_ld(s[2][-1])) == j, 'R13-solve', W(f, e.line), 'the diagonal entry is looked up as %s' % show(s), nm + '/diag')
                        if lbj:
                            D = unld(lbj[0])
                            known = [c for c in q.trace if isinstance(c, Cond) and c.t[0] == 'cmp' and any(unld(z) == D for s in c.t[2:4] for z in subterms(s))]
                            ctx.check(bool(known), 'R13-solve', W(f, e.line), 'reads the diagonal entry of a column that may have none: %s' % showconds(q), nm + '/present')
                        d0 = ue[0][1]
                        if isinstance(d0, tuple) and d0[0] == 'ix' and isinstance(d0[1], tuple) and d0[1][0] == 'f':
                            ends = {0: 'first', sub(size_of(d0[1]), 1): 'last'}
                            if d0[2] in ends:
                                ctx.check(ends[d0[2]] == ('last' if up else 'first'), 'R13-solve', W(f, e.line), 'divides by the %s entry of the column' % ends[d0[2]], nm + '/diag')
                        for k, e2 in axs:
                            b = [canon(unld(strip_ld(z))) for z in e2.args]
                            ok = len(b) >= 4 and b[0] == neg(a) and b[1] == ('ix', ('f', T_, 'col'), j)
                            ctx.check(ok, 'R13-solve', W(f, e2.line), 'subtracts %s * %s' % (show(b[0]), show(b[1])), nm + '/axpy')
                            if len(b) >= 4:
                                lo, hi = (0, j) if up else (add(j, 1), ('f', T_, 'm'))
                                ctx.check((b[2], b[3]) == (lo, hi), 'R13-solve', W(f, e2.line), 'on rows [%s, %s) instead of [%s, %s)' % (show(b[2]), show(b[3]), show(lo), show(hi)), nm + '/rows')
                        if q.exit in ('n', 'c'):
                            ctx.check(len(axs) == 1, 'R13-solve', W(f, L.line), 'goes on without eliminating the column', nm + '/axpy')
                            # next position
                            nx = [v for d, (n_, sy) in L.syms.items() for v in [q.env.get(d)] if d in q.env and isinstance(L.start.get(d), tuple) and (L.start[d][0] == 'it' or L.start[d][0] == 'app')]
                            for v in nx:
                                v = unld(v)
                                lb = [s for s in subterms(v) if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) in ('lower_bound', 'upper_bound')]
                                if lb and v != lb[0] and isinstance(sub(v, lb[0]), int):
                                    ctx.bad('R13-solve', W(f, L.line), 'continues %s entries beside %s' % (show(sub(v, lb[0])), show(lb[0])), nm + '/next')
                                for s in lb:
                                    lbn, key_ = short(s[1]), unld(strip_ld(s[2][-1]))
                                    good = (lbn, key_) in ([('upper_bound', sub(j, 1)), ('lower_bound', j)] if up else [('lower_bound', add(j, 1)), ('upper_bound', j)])
                                    ctx.check(good, 'R13-solve', W(f, L.line), 'continues at %s(%s)' % (lbn, show(key_)), nm + '/next')
            if done:
                ctx.count('operations')


def quot(a, x, d):
    a = unld(a)
    if isinstance(a, tuple) and a[0] == 'app' and short(a[1]) in ('operator/', '/'):
        return tuple(map(unld, a[2])) == (x, d)
    return False


def opaque_cursor(a):
    return False


def colof(t, M):
    for s in subterms(t):
        if isinstance(s, tuple) and len(s) == 3 and s[0] == 'ix' and unld(s[1]) == ('f', M, 'col'):
            return unld(s[2])
    return None


# ------------------------------------------------------------------ structure tests
def tests(ctx, u):
    nn = lambda j, M=THIS: size_of(colterm(M, j))

    def decided(q, j, spec):
        """does the path establish spec (True) or its negation (False)"""
        return spec(Facts(q.trace), j)

    def plain(q, j):
        """every condition of the path compares sizes, end entries and positions of column j"""
        ok = {nn(j), first(j), lst(j), j, N_}
        for c in q.trace:
            if isinstance(c, Cond):
                if c.t[0] != 'cmp' or any(canon(x) not in ok and not isinstance(x, (int, Fraction)) and not lin_over(canon(x), ok) for x in c.t[2:4]):
                    return False
            elif isinstance(c, Loop):
                return False
        return True

    def lin_over(t, ok):
        return isinstance(t, tuple) and t[0] == 'poly' and all(a in ok for m, c in t[1] for a in m)

    def every(name, spec, txt, keep=(), M=None):
        """answers false exactly in an iteration where spec(column j) is false"""
        for f in cm(u, name, types=[]):
            ctx.function(f)
            n = 0
            for p in eng(u, f, keep).run(f):
                if p.exit != 'ret':
                    continue
                ls = [L for L in p.trace if isinstance(L, Loop)]
                lv = [x for x in p.trace if isinstance(x, Leave)]
                if len(ls) != 1 or trip(ls[0]) is None:
                    ctx.count('not recognised')
                    continue
                t = trip(ls[0])
                if not isinstance(unld(p.val), int) or any(isinstance(x, Cond) for x in p.trace):
                    ctx.count('not recognised')
                    continue
                n += 1
                early = lv and lv[-1].path.exit in ('ret', 'b')
                ctx.check(unld(p.val) == (0 if early else 1), 'R13-test', W(f), 'answers %s %s' % (show(p.val), 'on leaving the loop early' if early else 'after all columns'), name + '/answer')
                ctx.check((unld(t[1]), canon(t[2])) == (0, N_), 'R13-test', W(f, ls[0].line), 'looks at columns [%s, %s)' % (show(t[1]), show(t[2])), name + '/range')
                for q in ls[0].paths:
                    r = decided(q, t[0], spec)
                    if r is None and not plain(q, t[0]):
                        ctx.count('not recognised')
                        continue
                    if q.exit in ('ret', 'b'):
                        ctx.check(r is False, 'R13-test', W(f, ls[0].line), 'answers false for a column with %s: %s' % (txt, showconds(q)), name + '/false')
                    elif q.exit in ('n', 'c'):
                        ctx.check(r is True, 'R13-test', W(f, ls[0].line), 'accepts a column without %s: %s' % (txt, showconds(q)), name + '/true')
            if n:
                ctx.count('operations')

    def nonempty(fa, j):
        z = fa.holds('==', nn(j), 0)
        if z is None:
            g = fa.holds('<', 0, nn(j))
            return g
        return not z
    first = lambda j: ('f', ('ix', colterm(THIS, j), 0), 'ind')
    lst = lambda j: ('f', ('ix', colterm(THIS, j), sub(nn(j), 1)), 'ind')

    def upper(fa, j):
        ne = nonempty(fa, j)
        if ne is False:
            return True
        g = fa.holds('<', j, lst(j))
        return None if g is None else not g

    def lower(fa, j):
        ne = nonempty(fa, j)
        if ne is False:
            return True
        return None if fa.holds('<', first(j), j) is None else not fa.holds('<', first(j), j)

    def uinv(fa, j):
        ne = nonempty(fa, j)
        if ne is False:
            return False
        return fa.holds('==', lst(j), j)

    def zero(fa, j):
        ne = nonempty(fa, j)
        return None if ne is None else not ne
    every('is_zero', zero, 'no entry')
    every('is_upper', upper, 'last entry on or above the diagonal')
    every('is_lower', lower, 'first entry on or below the diagonal')
    every('is_upper_invert', uinv, 'last entry on the diagonal')
    # unique pivots
    for f in cm(u, 'is_reduced', types=[]):
        ctx.function(f)
        for p in eng(u, f).run(f):
            ls = [L for L in p.trace if isinstance(L, Loop)]
            lv = [x for x in p.trace if isinstance(x, Leave)]
            if p.exit != 'ret' or len(ls) != 1 or trip(ls[0]) is None:
                ctx.count('not recognised')
                continue
            ctx.count('operations')
            t = trip(ls[0])
            j = t[0]
            early = lv and lv[-1].path.exit in ('ret', 'b')
            ctx.check(unld(p.val) == (0 if early else 1), 'R13-test', W(f), 'answers %s %s' % (show(p.val), 'on leaving the loop early' if early else 'after all columns'), 'is_reduced/answer')
            ctx.check((unld(t[1]), canon(t[2])) == (0, N_), 'R13-test', W(f, ls[0].line), 'looks at columns [%s, %s)' % (show(t[1]), show(t[2])), 'is_reduced/range')
            for q in ls[0].paths:
                fa = Facts(q.trace)
                ne = nonempty(fa, j)
                cnt = [c for c in q.trace if isinstance(c, Cond) and any(isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) in ('count', 'find') for s in subterms(c.t))]
                wr = [e for e in q.trace if isinstance(e, Ev) and (e.k == 'set' and isinstance(e.obj, tuple) and e.obj[0] == 'ix' or short(e.name) in ('insert', 'emplace'))]
                if ne is False:
                    ctx.check(q.exit in ('n', 'c') and not wr, 'R13-test', W(f, ls[0].line), 'an empty column decides the answer', 'is_reduced/empty')
                elif ne:
                    for c in cnt:
                        ks = [s for s in subterms(c.t) if isinstance(s, tuple) and s and s[0] == 'f' and s[2] == 'ind']
                        ctx.check(not ks or unld(ks[0]) == lst(j), 'R13-test', W(f, c.line), 'looks up row %s instead of the last entry' % show(ks[0]) if ks else '', 'is_reduced/pivot')
                    for e in wr:
                        k = unld(e.obj[2]) if e.k == 'set' else unld(e.args[0])
                        ctx.check(k == lst(j), 'R13-test', W(f, e.line), 'files column under row %s' % show(k), 'is_reduced/file')
                    if q.exit in ('n', 'c') and cnt:
                        ctx.check(bool(wr), 'R13-test', W(f, ls[0].line), 'goes on without recording the pivot', 'is_reduced/file')
                        absent = [c for c in cnt if c.t[0] == 'cmp' and c.t[1] == '==' and 0 in (c.t[2], c.t[3])]
                        if absent:
                            ctx.check(absent[0].pol, 'R13-test', W(f, ls[0].line), 'goes on although the pivot is taken', 'is_reduced/taken')
                    elif q.exit == 'ret' and cnt:
                        absent = [c for c in cnt if c.t[0] == 'cmp' and c.t[1] == '==' and 0 in (c.t[2], c.t[3])]
                        if absent:
                            ctx.check(not absent[0].pol, 'R13-test', W(f, ls[0].line), 'answers false although the pivot is free', 'is_reduced/taken')
    # pivot matrices: at most one entry per column of M and of M^T
    for f in cm(u, 'is_pivot_matrix', types=[]):
        ctx.function(f)
        for p in eng(u, f, ('transpose', 'T')).run(f):
            if p.exit != 'ret':
                continue
            lv = [x for x in p.trace if isinstance(x, Leave)]
            ls = [L for L in p.trace if isinstance(L, Loop)]
            early = lv and lv[-1].path.exit in ('ret', 'b')
            ctx.check(unld(p.val) == (0 if early else 1), 'R13-test', W(f), 'answers %s %s' % (show(p.val), 'on leaving a loop early' if early else 'at the end'), 'is_pivot_matrix/answer')
            seen = set()
            for L in ls:
                t = trip(L)
                if t is None:
                    ctx.count('not recognised')
                    continue
                tr = [unld(strip_ld(e.obj)) for e in p.trace if isinstance(e, Ev) and e.k == 'set' and isinstance(unld(e.args[0]), tuple) and unld(e.args[0])[0] == 'app' and short(unld(e.args[0])[1]) in ('transpose', 'T')]
                for M, N in [(THIS, N_)] + [(x, M_) for x in tr]:
                    if any(isinstance(c, Cond) and any(unld(s) == nn(t[0], M) for s in subterms(c.t)) for q in L.paths for c in q.trace):
                        seen.add(M)
                        ctx.check((unld(t[1]), canon(t[2])) == (0, N), 'R13-test', W(f, L.line), 'looks at [%s, %s)' % (show(t[1]), show(t[2])), 'is_pivot_matrix/range')
                        for q in L.paths:
                            g = Facts(q.trace).holds('<', 1, nn(t[0], M))
                            ctx.check(g is (q.exit == 'ret'), 'R13-test', W(f, L.line), '%s with %s' % ('answers false' if q.exit == 'ret' else 'goes on', showconds(q)), 'is_pivot_matrix/bound')
            if not early:
                ctx.count('operations')
                ctx.check(len(seen) == 2, 'R13-test', W(f), 'must look at the columns and at the rows', 'is_pivot_matrix/both')
    # shapes by transposition and conjugation
    for nm, inner, conv in (('is_EU', 'is_EL', ('transpose', 'T')), ('is_ELhat', 'is_EU', ('J_conjugation',)), ('is_EUhat', 'is_EL', ('J_conjugation',))):
        for f in cm(u, nm, types=[]):
            ctx.function(f)
            for p in eng(u, f, ('is_EL', 'is_EU', 'transpose', 'T', 'J_conjugation', 'is_ELhat', 'is_EUhat')).run(f):
                if p.exit != 'ret':
                    continue
                v = unld(p.val)
                chain = []
                while isinstance(v, tuple) and v[0] == 'app' and len(v[2]) >= 1:
                    chain.append(short(v[1]))
                    v = unld(strip_ld(v[2][0]))
                if v != THIS or not chain:
                    ctx.count('not recognised')
                    continue
                ctx.count('operations')
                # E shapes under transpose and J: EL -T-> EU, EL -J-> EUhat, EU -J-> ELhat, ELhat -T-> EUhat
                T_, J_ = {'is_EL': 'is_EU', 'is_EU': 'is_EL', 'is_ELhat': 'is_EUhat', 'is_EUhat': 'is_ELhat'}, {'is_EL': 'is_EUhat', 'is_EUhat': 'is_EL', 'is_EU': 'is_ELhat', 'is_ELhat': 'is_EU'}
                s = chain[0]
                for c in chain[1:]:
                    s = T_.get(s, s) if c in ('T', 'transpose') else J_.get(s, s) if c == 'J_conjugation' else '?'
                ctx.check(s == nm, 'R13-test', W(f), 'tests %s of %s, which is %s' % (chain[0], ' of '.join(chain[1:]) or 'the matrix', s), nm)
    # EL: increasing pivots, then empty columns
    for f in cm(u, 'is_EL', types=[]):
        ctx.function(f)
        for p in eng(u, f).run(f):
            if p.exit != 'ret':
                continue
            ls = [L for L in p.trace if isinstance(L, Loop)]
            if len(ls) != 2:
                ctx.count('not recognised')
                continue
            lv = [x for x in p.trace if isinstance(x, Leave)]
            ret = lv and lv[-1].path.exit == 'ret'
            ctx.check(unld(p.val) == (0 if ret else 1), 'R13-test', W(f), 'answers %s' % show(p.val), 'is_EL/answer')
            for n, L in enumerate(ls):
                ix = {}
                for d, (nm_, sy) in L.syms.items():
                    ix[sy] = unld(L.start.get(d))
                cs = counters(L)
                js = [sy for sy, s0, d in cs.values() if d == 1]
                js = js or [sy for sy in ix if any(isinstance(c, Cond) and any(unld(s) == nn(sy) for s in subterms(c.t)) for q in L.paths for c in q.trace)]
                if not js:
                    ctx.count('not recognised')
                    continue
                j = js[0]
                prev = [sy for sy in ix if sy != j]
                if n == 0:
                    ctx.check(ix.get(j) == 0, 'R13-test', W(f, L.line), 'starts at column %s' % show(ix.get(j)), 'is_EL/start')
                    for sy in prev:
                        ctx.check(ix[sy] == -1, 'R13-test', W(f, L.line), 'starts above row %s' % show(ix[sy]), 'is_EL/start-row')
                for q in L.paths:
                    fa = Facts(q.trace)
                    ne = nonempty(fa, j)
                    if n == 1:
                        ctx.check((ne is False) == (q.exit in ('n', 'c')), 'R13-test', W(f, L.line), '%s for %s column after an empty one' % ('goes on' if q.exit != 'ret' else 'answers false', 'an empty' if ne is False else 'a nonempty'), 'is_EL/rest')
                        continue
                    two = fa.holds('<', 1, nn(j))
                    inc = None
                    for sy in prev:
                        inc = fa.holds('<', sy, first(j))
                    if q.exit in ('n', 'c'):
                        ctx.check(ne and two is False and inc, 'R13-test', W(f, L.line), 'accepts a column that may have several entries or a pivot that does not increase: %s' % showconds(q), 'is_EL/accept')
                        for d, (nm_, sy) in L.syms.items():
                            if sy in prev:
                                ctx.check(unld(q.env.get(d)) == first(j), 'R13-test', W(f, L.line), 'remembers %s as the last pivot' % show(q.env.get(d)), 'is_EL/prev')
                    elif q.exit == 'ret':
                        ctx.check(two or inc is False, 'R13-test', W(f, L.line), 'answers false for %s' % showconds(q), 'is_EL/reject')
            ctx.count('operations')
    # equality
    for f in cm(u, 'operator==', types=['ColumnMatrix']):
        ctx.function(f)
        B = par(f, 0, u)
        for p in eng(u, f).run(f):
            if p.exit != 'ret':
                continue
            fa = Facts(p.trace)
            sm, sn = fa.holds('==', M_, ('f', B, 'm')), fa.holds('==', N_, ('f', B, 'n'))
            ls = [L for L in p.trace if isinstance(L, Loop)]
            if not ls:
                v = unld(p.val)
                if any(unld(s) == COL for x in p.trace if isinstance(x, Cond) for s in subterms(x.t)):
                    continue
                if v == 1 and not any(unld(s) == COL for x in p.trace if isinstance(x, Cond) for s in subterms(x.t)):
                    ctx.bad('R13-test', W(f), 'equal without looking at the columns', '==/all')
                elif v == 0:
                    ctx.check(sm is False or sn is False, 'R13-test', W(f), 'unequal although the shapes agree', '==/shape')
                continue
            ctx.count('operations')
            ctx.check(sm and sn, 'R13-test', W(f), 'compares columns of matrices whose shapes may differ', '==/shape')
            lv = [x for x in p.trace if isinstance(x, Leave)]
            early = lv and lv[-1].path.exit in ('ret', 'b')
            ctx.check(unld(p.val) == (0 if early else 1), 'R13-test', W(f), 'answers %s %s' % (show(p.val), 'on leaving the loop early' if early else 'after all columns'), '==/answer')
            t = trip(ls[0])
            if t:
                ctx.check((unld(t[1]), canon(t[2])) in ((0, N_), (0, ('f', B, 'n'))), 'R13-test', W(f, ls[0].line), 'compares columns [%s, %s)' % (show(t[1]), show(t[2])), '==/range')
                for q in ls[0].paths:
                    cs = [c for c in q.trace if isinstance(c, Cond) and any(isinstance(s, tuple) and s and s[0] == 'ix' and s[1] == COL for s in subterms(unld(c.t)))]
                    if q.exit in ('n', 'c') and not cs and not any(isinstance(x, (Loop, Ev)) for x in q.trace):
                        ctx.bad('R13-test', W(f, ls[0].line), 'goes on without comparing the columns: %s' % showconds(q), '==/skip')
                    for c in cs:
                        both = {colix(s, THIS) for s in subterms(c.t) if colix(s, THIS) is not None} | {colix(s, B) for s in subterms(c.t) if colix(s, B) is not None}
                        ctx.check(both == {t[0]}, 'R13-test', W(f, c.line), 'compares columns %s' % ', '.join(map(show, both)), '==/cols')
                        if c.t[0] == 'truth' and isinstance(unld(c.t[1]), tuple) and unld(c.t[1])[0] == 'app':
                            o = short(unld(c.t[1])[1])
                            if o in ('operator!=', 'operator=='):
                                ctx.check((c.pol == (o == 'operator!=')) == (q.exit == 'ret'), 'R13-test', W(f, c.line), 'goes %s' % ('on with unequal columns' if q.exit != 'ret' else 'unequal with equal columns'), '==/sense')
                        elif c.t[0] == 'cmp' and c.t[1] == '==':
                            ctx.check((not c.pol) == (q.exit == 'ret'), 'R13-test', W(f, c.line), 'wrong sense', '==/sense')
    # counting and access
    for f in cm(u, 'nnz', types=[]):
        ctx.function(f)
        for p in eng(u, f).run(f):
            for L in p.trace:
                if isinstance(L, Loop) and trip(L):
                    t = trip(L)
                    ctx.count('operations')
                    ctx.check((unld(t[1]), canon(t[2])) == (0, N_), 'R13-test', W(f, L.line), 'counts columns [%s, %s)' % (show(t[1]), show(t[2])), 'nnz/range')
                    for q in L.paths:
                        for d, (nm_, sy) in L.syms.items():
                            if sy != t[0] and sy == unld(strip_ld(p.val)):
                                ctx.check(unld(q.env.get(d)) == add(sy, nn(t[0])) and unld(L.start.get(d)) == 0, 'R13-test', W(f, L.line), 'count becomes %s' % show(q.env.get(d)), 'nnz/sum')
    for nm, w in (('nrow', M_), ('ncol', N_)):
        for f in cm(u, nm, types=[]):
            for p in eng(u, f).run(f):
                ctx.function(f)
                ctx.check(canon(p.val) == w, 'R13-test', W(f), 'returns %s' % show(p.val), nm)
    for nm in ('operator()', 'getval'):
        for f in cm(u, nm, types=['long', 'long']):
            i, j = par(f, 0, u), par(f, 1, u)
            for p in Engine(u, vocab=lambda n, x: cls_of(n) == 'SparseVector' and short(n) in ('operator[]', 'getval')).run(f):
                ctx.function(f)
                v = unld(p.val)
                ok = isinstance(v, tuple) and (v[0] == 'app' and short(v[1]) in ('operator[]', 'getval') and tuple(unld(strip_ld(x)) for x in v[2]) == (cterm(j), i) or v[0] == 'ix' and (unld(v[1]), unld(v[2])) == (cterm(j), i))
                if isinstance(v, tuple) and v[0] in ('app', 'ix'):
                    ctx.check(ok, 'R13-test', W(f), 'returns %s' % show(v), nm)
    # dense output
    for f in cm(u, 'dump_dense', types=[]):
        ctx.function(f)
        for p in Engine(u, vocab=lambda n, x: cls_of(n) == 'SparseVector' and short(n) in ('operator[]', 'getval')).run(f):
            arr = unld(strip_ld(p.val)) if p.val is not None else None
            dense(ctx, f, p, lambda o, i, j: isinstance(o, tuple) and o[0] == 'ix' and canon(o[2]) == add(i, mul(j, M_)), 'dump_dense')
    for f in cm(u, 'to_row_array', types=[]):
        ctx.function(f)
        A = None
        for p in Engine(u, vocab=lambda n, x: cls_of(n) == 'SparseVector' and short(n) in ('operator[]', 'getval')).run(f):
            dense(ctx, f, p, lambda o, i, j: isinstance(o, tuple) and o[0] == 'ix' and canon(o[2]) == i, 'to_row_array')


def dense(ctx, f, p, place, k0):
    """every entry (i, j) is written to place(i, j)"""
    for L in p.trace:
        if not isinstance(L, Loop) or not trip(L):
            continue
        t = trip(L)
        for q in L.paths:
            for L2 in q.trace:
                if not isinstance(L2, Loop) or not trip(L2):
                    continue
                t2 = trip(L2)
                for q2 in L2.paths:
                    for e in q2.trace:
                        if not isinstance(e, Ev) or e.k not in ('set', 'call') or not e.args or e.obj is None:
                            continue
                        v, tgt = unld(strip_ld(e.args[0])), unld(strip_ld(e.obj))
                        if isinstance(v, tuple) and v[0] == 'f' and isinstance(tgt, tuple) and tgt[0] == 'f' and v[2] == tgt[2]:
                            v, tgt = v[1], tgt[1]
                        if isinstance(v, tuple) and v[0] == 'app' and short(v[1]) in ('operator[]', 'getval'):
                            o, i = unld(strip_ld(v[2][0])), unld(strip_ld(v[2][1]))
                        elif isinstance(v, tuple) and v[0] == 'ix':
                            o, i = unld(v[1]), unld(v[2])
                        else:
                            continue
                        j = colix(o, THIS)
                        if j is None:
                            continue
                        rng_ = {t[0]: (unld(t[1]), canon(t[2])), t2[0]: (unld(t2[1]), canon(t2[2]))}
                        if i not in rng_ or j not in rng_:
                            ctx.count('not recognised')
                            continue
                        ctx.count('operations')
                        ctx.check(rng_[i] == (0, M_) and rng_[j] == (0, N_), 'R13-test', W(f, e.line), 'rows run over [%s, %s), columns over [%s, %s)' % tuple(map(show, rng_[i] + rng_[j])), k0 + '/range')
                        ctx.check(place(tgt, i, j), 'R13-test', W(f, e.line), 'entry (%s, %s) goes to %s' % (show(i), show(j), show(e.obj)), k0 + '/place')


# ------------------------------------------------------------------ the rest
def others(ctx, u):
    # Schur complement of an entry
    for f in cm(u, 'schur_complement'):
        ctx.function(f)
        i, j = par(f, 0, u), par(f, 1, u)
        for p in Engine(u, vocab=lambda n, x: cls_of(n) == 'SparseVector' and short(n) not in (CUR - {'operator[]', 'getval'}), maxpaths=20000).run(f):
            ls = colloops(p, THIS)
            if p.exit == 'throw' or not ls or len(ls) != 1:
                ctx.count('not recognised')
                continue
            ctx.count('operations')
            c = ls[0]
            ctx.check((c.lo, c.hi) == (add(j, 1), N_), 'R13-op', W(f, c.L.line), 'eliminates from columns [%s, %s)' % (show(c.lo), show(c.hi)), 'schur_complement/range')
            for conds, ops, q in c.cases:
                for o, a, l in ops:
                    el = lambda k: ('app', 'SparseVector::operator[]', (cterm(k), i), 0)
                    b = a[0]
                    e1, e0 = entryof(b, XX, i), entryof(b, j, i)
                    ok = o == 'axpy' and len(a) >= 4 and e1 is not None and e0 is not None and (b == neg(mul(e1, inv(e0))) or ratio(b, e1, e0)) and a[1] == cterm(j)
                    if o == 'axpy' and e1 is None and e0 is None:
                        ctx.count('not recognised')
                        continue
                    ctx.check(ok, 'R13-op', W(f, l), 'column X gets %s(%s)' % (o, ', '.join(map(show, a))), 'schur_complement/axpy')
                    if ok:
                        ctx.check((a[2], a[3]) == (add(i, 1), M_) or (a[2], a[3]) == (i, M_), 'R13-op', W(f, l), 'on rows [%s, %s)' % (show(a[2]), show(a[3])), 'schur_complement/rows')
                if not ops:
                    zs = [(t, pol) for t, pol in conds if t[0] == 'cmp' and t[1] == '==' and 0 in (t[2], t[3]) and entryof(t, XX, i) is not None]
                    ctx.check(any(pol for t, pol in zs), 'R13-op', W(f, c.L.line), 'leaves a column with a nonzero entry alone', 'schur_complement/skip')
    # x^T A: entry j is x * A[j] for every column with a nonzero product
    for f in u.funcs:
        if f.d.get('dep') or f.d.get('b') is None or not f.file.endswith('col_matrix.hpp') or short(f.name) != 'operator*' or len(f.d['ps']) != 2:
            continue
        t0, t1 = (u.type(z['t']) for z in f.d['ps'])
        if 'SparseVector' not in t0.split('<')[0] and 'ColumnMatrix' in t0 or 'ColumnMatrix' not in t1:
            continue
        ctx.function(f)
        x, A = par(f, 0, u), par(f, 1, u)
        for p in Engine(u, vocab=lambda n, z: cls_of(n) == 'SparseVector' and short(n) == 'operator*').run(f):
            ls = [L for L in p.trace if isinstance(L, Loop)]
            v = unld(p.val)
            if p.exit != 'ret' or len(ls) != 1 or trip(ls[0]) is None or not (isinstance(v, tuple) and v[0] == 'app' and sh(v[1]) == 'SparseVector' and len(v[2]) == 2):
                ctx.count('not recognised')
                continue
            ctx.count('operations')
            li, lv = (unld(strip_ld(z)) for z in v[2])
            L = ls[0]
            t = trip(L)
            ctx.check((unld(t[1]), canon(t[2])) == (0, ('f', A, 'n')), 'R13-op', W(f, L.line), 'multiplies columns [%s, %s)' % (show(t[1]), show(t[2])), 'x*A/range')
            for q in L.paths:
                prods = {s for it in q.trace for s in subterms(unld(it.t) if isinstance(it, Cond) else ('x',) + tuple(unld(z) for z in getattr(it, 'args', ())) ) if isinstance(s, tuple) and s and (s[0] == 'app' and short(str(s[1])) == 'operator*' or s[0] == 'poly') and any(colix(z, A) is not None for z in subterms(s))}
                want = mul(x, ('ix', ('f', A, 'col'), t[0]))
                push = {unld(strip_ld(e.obj)): unld(strip_ld(e.args[0])) for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back')}
                fa = Facts(q.trace)
                if li in push or lv in push:
                    ctx.check(push.get(li) == t[0], 'R13-op', W(f, L.line), 'entry %s goes to position %s' % (show(push.get(lv)), show(push.get(li))), 'x*A/entry')
                    pv = push.get(lv)
                    ctx.check(pv == want or isinstance(pv, tuple) and pv[0] == 'app' and {unld(strip_ld(z)) for z in pv[2][:2]} == {x, ('ix', ('f', A, 'col'), t[0])}, 'R13-op', W(f, L.line), 'entry %s is %s' % (show(t[0]), show(pv)), 'x*A/value')
                elif q.exit in ('n', 'c'):
                    zero = [c for c in q.trace if isinstance(c, Cond) and c.t[0] == 'cmp' and c.t[1] == '==' and 0 in (c.t[2], c.t[3])]
                    ctx.check(any(c.pol for c in zero), 'R13-op', W(f, L.line), 'drops a product that may be nonzero: %s' % showconds(q), 'x*A/drop')
    # merge of new columns
    for f in cm(u, 'insert_columns'):
        ctx.function(f)
        inds, new = par(f, 0, u), par(f, 1, u)
        n = 0
        for p in eng(u, f).run(f):
            if p.exit == 'throw':
                continue
            fin = [e for e in p.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('swap', 'operator=') and any(unld(strip_ld(a)) == COL for a in list(e.args) + [e.obj])]
            if not fin:
                ctx.count('not recognised')
                continue
            out = [unld(strip_ld(a)) for a in list(fin[-1].args) + ([fin[-1].obj] if fin[-1].obj is not None else []) if unld(strip_ld(a)) != COL]
            out = out[0] if out else None
            ctx.check(shape(p, 'n') == add(N_, size_of(inds)) or shape(p, 'n') == add(N_, size_of(new)), 'R13-shape', W(f), 'leaves %s columns' % show(shape(p, 'n')), 'insert_columns/n')
            ok = True
            lastl = None
            for L in p.trace:
                if not isinstance(L, Loop):
                    continue
                for q in L.paths:
                    sw = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'swap']
                    if len(sw) != 1:
                        ok = False
                        continue
                    a = [unld(strip_ld(x)) for x in sw[0].args]
                    tg = [x for x in a if isinstance(x, tuple) and x[0] == 'ix' and unld(x[1]) == out]
                    src = [x for x in a if x not in tg]
                    if len(tg) != 1 or len(src) != 1 or not (isinstance(src[0], tuple) and src[0][0] == 'ix'):
                        ok = False
                        continue
                    n += 1
                    i, (S, k) = unld(tg[0][2]), (unld(src[0][1]), unld(src[0][2]))
                    ctx.check(S in (new, COL), 'R13-op', W(f, sw[0].line), 'takes a column from %s' % show(S), 'insert_columns/source')
                    # cursors move with what was placed
                    for d, (nm_, sy) in L.syms.items():
                        step = sub(unld(q.env.get(d, sy)), sy)
                        want = 1 if sy in (i, k) else 0
                        ctx.check(step == want, 'R13-op', W(f, L.line), '%s moves by %s after %s was placed' % (nm_, show(step), show(src[0])), 'insert_columns/step')
                    fa = Facts(q.trace)
                    two = [c for c in q.trace if isinstance(c, Cond) and any(isinstance(s, tuple) and s and s[0] == 'ix' and unld(s[1]) == inds for s in subterms(c.t))]
                    if two:
                        here = None
                        el = {unld(s) for s in subterms(two[0].t) if isinstance(s, tuple) and s and s[0] == 'ix' and unld(s[1]) == inds}
                        if len(el) == 1 and two[0].t[0] == 'cmp':
                            # the next index is never behind the position
                            e0, = el
                            bad_ = [(x, y) for x in range(4) for y in range(x, 5) if truth(two[0].t, {i: x, e0: y}) == two[0].pol and (x == y) != (S == new)]
                            ctx.check(not bad_, 'R13-op', W(f, sw[0].line), 'places %s at position %s when the next index is %s' % ((show(src[0]),) + (bad_[0] if bad_ else (0, 0))), 'insert_columns/choice')
                        for s in subterms(two[0].t):
                            if isinstance(s, tuple) and s and s[0] == 'ix' and unld(s[1]) == inds:
                                here = fa.holds('==', unld(s), i)
                                if S == new:
                                    ctx.check(unld(s[2]) == k, 'R13-op', W(f, sw[0].line), 'compares index %s but places column %s' % (show(s[2]), show(k)), 'insert_columns/which')
                        ctx.check(here is None or here == (S == new), 'R13-op', W(f, sw[0].line), 'places %s at %s although the next index is %s' % (show(src[0]), show(i), 'this one' if here else 'another'), 'insert_columns/choice')
            if not ok:
                ctx.count('not recognised')
            # both lists are exhausted
            for S in (new, COL):
                ex = False
                for it in p.trace:
                    if isinstance(it, Leave):
                        for c in it.path.trace:
                            if isinstance(c, Cond) and c.t[0] == 'cmp' and c.t[1] == '<' and not c.pol and canon(c.t[3]) in (size_of(S), N_ if S == COL else size_of(S)):
                                ex = True
                ctx.check(ex or not ok, 'R13-op', W(f), 'may stop before all of %s is placed' % show(S), 'insert_columns/rest')
        if n:
            ctx.count('operations')
    # sparse rows appended and permuted into place
    for f in cm(u, 'insert_sparse_rows'):
        ctx.function(f)
        inds, rows = par(f, 0, u), par(f, 1, u)
        for p in eng(u, f, ('append_sparse_row', 'permute_rows')).run(f):
            if p.exit == 'throw':
                continue
            ap = [(L, e) for L in p.trace if isinstance(L, Loop) for q in L.paths for e in q.trace if isinstance(e, Ev) and short(e.name) == 'append_sparse_row']
            pr = [e for e in p.trace if isinstance(e, Ev) and short(e.name) == 'permute_rows']
            if len(ap) != 1 or len(pr) != 1:
                ctx.check(bool(pr), 'R13-op', W(f), 'new rows are never moved to their places', 'insert_sparse_rows/move')
                ctx.count('not recognised')
                continue
            ctx.count('operations')
            perm = unld(strip_ld(pr[0].args[0]))
            tail = [e for e in p.trace if isinstance(e, Ev) and short(e.name) == 'insert' and unld(strip_ld(e.obj)) == perm]
            for e in tail:
                a = [unld(x) for x in e.args]
                ctx.check(not (isinstance(a[0], tuple) and a[0][0] == 'it' and a[0][1] == perm) or a[0][2] == size_of(perm), 'R13-op', W(f, e.line), 'the places of the new rows must come last', 'insert_sparse_rows/tail')
                ctx.check(a[1] == ('it', inds, 0) and a[2] == ('it', inds, size_of(inds)), 'R13-op', W(f, e.line), 'appends %s' % ', '.join(map(show, a[1:])), 'insert_sparse_rows/tail')
            # an old row moves by the number of new rows at or before its new place
            for L in p.trace:
                if not isinstance(L, Loop) or not any(isinstance(e, Ev) and e.k == 'call' and e.obj is not None and unld(strip_ld(e.obj)) == perm for q in L.paths for e in q.trace):
                    continue
                t = trip(L)
                if t is None:
                    ctx.count('not recognised')
                    continue
                ctx.check(unld(t[1]) == 0 and canon(t[2]) in (sub(M_, size_of(inds)), M_), 'R13-op', W(f, L.line), 'old rows are [%s, %s)' % (show(t[1]), show(t[2])), 'insert_sparse_rows/range')
                for q in L.paths:
                    for L2 in q.trace:
                        if isinstance(L2, Loop):
                            for q2 in L2.paths:
                                if q2.exit not in ('n', 'c'):
                                    continue
                                steps = {nm_: sub(unld(q2.env.get(d, sy)) if not (isinstance(q2.env.get(d), tuple) and q2.env[d][0] == 'it') else q2.env[d][2], sy) for d, (nm_, sy) in L2.syms.items()}
                                ctx.check(all(s == 1 for s in steps.values()) and len(steps) == 2, 'R13-op', W(f, L2.line), 'place and index move by %s' % {k: show(v) for k, v in steps.items()}, 'insert_sparse_rows/step')
                                cs = [c for c in q2.trace if isinstance(c, Cond) and c.t[0] == 'cmp' and c.t[1] in ('<', '<=') and any(isinstance(s, tuple) and s and s[0] == 'ix' and unld(s[1]) == inds for s in subterms(c.t))]
                                for c in cs:
                                    # inds[k] <= j, i.e. !(j < inds[k])
                                    a_, b_ = unld(c.t[2]), unld(c.t[3])
                                    le = (c.t[1] == '<' and not c.pol and isinstance(b_, tuple) and b_[0] == 'ix' and unld(b_[1]) == inds) or (c.t[1] == '<=' and c.pol and isinstance(a_, tuple) and a_[0] == 'ix')
                                    ctx.check(le, 'R13-op', W(f, c.line), 'a row moves on only while the next new row is at or before it: %s' % c, 'insert_sparse_rows/while')
    # permutation that moves appended rows to their places
    for f in cm(u, 'insert_rows', types=['vector', 'vector<SparseVector']):
        ctx.function(f)
        inds, rows = par(f, 0, u), par(f, 1, u)
        for p in eng(u, f, ('permute_rows', 'ipermute_rows')).run(f):
            if p.exit == 'throw':
                continue
            ctx.check(shape(p, 'm') == add(M_, size_of(inds)), 'R13-shape', W(f), 'leaves %s rows' % show(shape(p, 'm')), 'insert_rows(rows)/m')
            pr = [e for e in p.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('permute_rows', 'ipermute_rows')]
            if len(pr) == 1:
                a = unld(strip_ld(pr[0].args[0]))
                inverse = isinstance(a, tuple) and a[0] == 'app' and short(a[1]) in ('sortperm', 'inv_perm')
                ctx.check(inverse == (short(pr[0].name) == 'permute_rows'), 'R13-op', W(f, pr[0].line), 'the table lists what each place takes: it must be inverted for permute_rows', 'insert_rows(rows)/direction')
            for L in p.trace:
                if not isinstance(L, Loop):
                    continue
                for q in L.paths:
                    for L2 in q.trace:
                        if not isinstance(L2, Loop):
                            continue
                        for q2 in L2.paths:
                            for e in q2.trace:
                                if isinstance(e, Ev) and e.k == 'call' and e.obj is not None and colix(e.obj, THIS) is not None and trip(L):
                                    t = trip(L)
                                    sy = iterates(L2, ('f', ('ix', rows, t[0]), 'indval'))
                                    if sy is None:
                                        ctx.count('not recognised')
                                        continue
                                    el = ('ix', ('f', ('ix', rows, t[0]), 'indval'), sy)
                                    b = [canon(unld(strip_ld(x))) for x in e.args]
                                    ctx.check(colix(e.obj, THIS) == ('f', el, 'ind') and b == [add(t[0], M_), ('f', el, 'val')], 'R13-op', W(f, e.line), 'column %s gets (%s)' % (show(colix(e.obj, THIS)), ', '.join(map(show, b))), 'insert_rows(rows)/entry')
                                    ctx.count('operations')


def entryof(t, col, row):
    """the atom of t that reads entry (row, col)"""
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] == 'app' and isinstance(s[1], str) and short(s[1]) in ('operator[]', 'getval', 'operator()') and len(s[2]) >= 2:
            if unld(strip_ld(s[2][0])) == cterm(col) and unld(strip_ld(s[2][1])) == row:
                return s
    return None


def ratio(b, e1, e0):
    """b = -e1/e0 in operator form"""
    for s in subterms(b):
        if isinstance(s, tuple) and s and s[0] == 'app' and isinstance(s[1], str) and short(s[1]) in ('operator/', '/'):
            x, y = (unld(z) for z in s[2][:2])
            if y == e0 and (x == e1 and b == neg(s) or b == s and neg(x) == e1):
                return True
    return False


def run(ctx):
    u, = prog.load(['colmat'])
    maps(ctx, u)
    simple(ctx, u)
    built(ctx, u)
    solves(ctx, u)
    tests(ctx, u)
    others(ctx, u)
