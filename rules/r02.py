"""Elimination rule.  In every column-reduction routine, for each abstract path of one arbitrary
iteration: (elimination) the coefficient with which column k = pivot_map[r] is added to column j
is -(entry of column j in row r)/(last entry of column k), computed from the current columns, and
only where row r has an owner; (claim) a pivot row is claimed only for the last entry of the
column being reduced, only if it has no owner, by that column; (progress) elimination of a column
stops only when the column is empty, its pivot was claimed or all its entries were visited;
(coverage) the outer loop visits every column of its range from the left; (map) the returned pivot
map starts without owners; and the optional passes (clearing, compression, cycle removal,
sparsification, index extraction) touch exactly the columns their guard allows."""
from rules.common import *

PROP = dict(
    id="R02", title="Column reduction eliminates with the right coefficient and claims pivots once",
    statement="For every matrix over a field, each column reduction (standard, extra, divide-and-conquer, parallel) turns every column it visits into a zero column or a column whose lowest entry (pivot) is in a row no other column has as pivot, only ever adding -(entry)/(pivot) times a column that owns the entry's row, and returns the map from pivot rows to columns. The helpers around it (clearing, compression, extracting homology indices, removing extra cycles, sparsifying the basis) touch exactly the columns their documented condition selects and never change a pivot.",
    over=["inputs", "configurations"],
    text="all matrices, all reduction flags, all columns",
    why="tests compare a handful of small random matrices; a reduction that skips an entry only for some sparsity pattern, or claims a pivot twice, yields a plausible but wrong barcode",
    files=["include/homology/reduction.hpp", "include/homology/parallel.hpp"],
    mechanism=[("pivot loop", "reduce_matrix_standard, reduce_matrix_extra, reduce_column_*"), ("pivot map", "pivot_to_col / p2c")],
)
LEVEL = "other"
TECHNIQUE = "path-sensitive dataflow with value numbering over the resolved templates"
MINIMUM = {"eliminations": 10, "claims": 9}
ASSUMPTIONS = ["columns are sorted by row (decided separately for the vector type)", "std containers behave as modelled"]

STD = ['bats::reduce_matrix_standard', 'bats::reduce_column_standard', 'bats::reduce_block_sequential']
EXTRA = ['bats::reduce_matrix_extra', 'bats::reduce_column_extra']
ALL = STD + EXTRA + ['bats::reduce_block_dq', 'bats::reduce_matrix']


def axpys(p):
    return [e for e in p.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy' and col_of(e.obj) is not None]


def owner_known(facts, P, r):
    """row r known to have an owner in the map P: True / False / None"""
    t = ('ix', P, r)
    a = facts.holds('==', t, NO_IND)
    if a is not None:
        return not a
    b = facts.holds('==', 0, ('app', 'count', (P, r), 0))
    if b is not None:
        return not b
    return None


def elimination(ctx, f, p, ctxloops, M):
    """each axpy on M cancels an entry with its owner column"""
    found = []
    for ev in axpys(p):
        m, j = col_of(ev.obj)
        if m != M:
            continue
        j = unld(j)
        ctx.count("eliminations")
        w = f.loc(ev.line)
        k0 = '%s:elimination' % f.name
        src = col_of(ev.args[1])
        if not ctx.check(src is not None and src[0] == M, 'elimination', w, '%s: column %s of %s is combined with something that is not a column of it' % (f.name, show(j), show(M)), k0):
            continue
        k = unld(src[1])
        q = quotient(ev.args[0])
        ent = entry_of(q[1]) if q else None
        den = unld(q[2]) if q else None
        ok = q is not None and q[0] == -1 and ent is not None and ent[0] == M and ent[1] == j and ent[3] == 'val'
        ctx.check(ok, 'elimination', w, '%s: coefficient %s of the column addition is not -(entry of column %s)/(pivot of column %s)' % (f.name, show(unld(ev.args[0])), show(j), show(k)), k0)
        if not ok:
            continue
        ctx.check(den == last(M, k, 'val'), 'elimination', w, '%s: divides by %s, not by the pivot of the added column %s' % (f.name, show(den), show(k)), k0)
        r = entry(M, j, ent[2], 'ind')
        okk = isinstance(k, tuple) and k[0] == 'ix' and k[2] == r
        ctx.check(okk, 'elimination', w, '%s: the added column is %s, not the owner of row %s' % (f.name, show(k), show(r)), k0)
        if okk:
            fa = Facts(upto(p, ev))
            ctx.check(owner_known(fa, k[1], r) is True, 'elimination', w, '%s: column %s is used without knowing that row %s has an owner' % (f.name, show(k), show(r)), k0)
        st = [x for x in ev.ctx if col_of(x) is not None and unld(col_of(x)[0]) == M]
        ctx.check(not st, 'elimination', w, '%s: the coefficient was read before column %s last changed' % (f.name, show(j)), k0)
        found.append((ev, j, ent[2], k))
    return found


def claims(p):
    """stores into a pivot map: P[r] = j with r the row of an entry"""
    out = []
    for e in p.trace:
        if isinstance(e, Ev) and e.k == 'set' and e.name == '=':
            o = unld(e.obj)
            if o[0] == 'ix':
                en = entry_of(o[2])
                if en is not None and en[3] == 'ind':
                    out.append((e, o[1], en))
    return out


def pivot_loops(ctx, f, paths, M, extra):
    n = 0
    for L, p0, lp in loops_of(paths):
        el = [x for q in L.paths for x in elimination(ctx, f, q, lp, M)]
        cl = [(q, c) for q in L.paths for c in claims(q)]
        if not el and not cl:
            continue
        n += 1
        js = {x[1] for x in el} | {c[2][1] for q, c in cl}
        ctx.check(len(js) == 1, 'claim', f.loc(L.line), '%s: one pivot loop works on columns %s' % (f.name, ', '.join(show(x) for x in js)), '%s:column' % f.name)
        j = sorted(js, key=key)[0]
        if not el:
            ctx.bad('elimination', f.loc(L.line), '%s: no path eliminates entries of column %s' % (f.name, show(j)), '%s:noelim' % f.name)
        if not cl:
            ctx.bad('claim', f.loc(L.line), '%s: no path claims the pivot of column %s' % (f.name, show(j)), '%s:noclaim' % f.name)
        its = {unld(x)[1] if False else x for x in ()}
        # the position variable, if the loop walks the column
        xs = {x[2] for x in el} | {c[2][2] for q, c in cl}
        lastpos = sub(('size', colterm(M, j), 0), 1)
        walkvar = None
        for x in xs:
            if x == lastpos:
                continue
            hit = [d for d, (nm, sy) in L.syms.items() if unld(sy) == x]
            if hit:
                walkvar = hit[0]
                st = L.start.get(walkvar)
                ok = isinstance(st, tuple) and st[0] == 'it' and unld(st[1]) == colterm(M, j) and unld(st[2]) == lastpos
                ctx.check(ok, 'progress', f.loc(L.line), '%s: the scan of column %s starts at %s, not at its last entry' % (f.name, show(j), show(st)), '%s:start' % f.name)
            else:
                ctx.bad('claim', f.loc(L.line), '%s: handles entry %s of column %s instead of the last one' % (f.name, show(x), show(j)), '%s:pos' % f.name)
        for q, (ev, P, en) in cl:
            ctx.count("claims")
            fa = Facts(upto(q, ev))
            r = entry(M, j, en[2], 'ind')
            k0 = '%s:claim' % f.name
            ctx.check(unld(ev.args[0]) == j, 'claim', f.loc(ev.line), '%s: row %s is claimed for column %s while reducing column %s' % (f.name, show(r), show(unld(ev.args[0])), show(j)), k0)
            ctx.check(owner_known(fa, P, r) is False, 'claim', f.loc(ev.line), '%s: row %s may already have an owner when column %s claims it' % (f.name, show(r), show(j)), k0)
            if en[2] == lastpos:
                ctx.check(q.exit in ('b', 'ret'), 'progress', f.loc(ev.line), '%s: keeps eliminating column %s with itself after claiming its pivot' % (f.name, show(j)), k0)
            elif walkvar is not None:
                ctx.check(first_only(L, q, walkvar), 'claim', f.loc(ev.line), '%s: the claim is not restricted to the last nonzero of column %s' % (f.name, show(j)), k0)
        if walkvar is not None:
            for q in L.paths:
                if q.exit != 'n':
                    continue
                nx = q.env.get(walkvar)
                nx = unld(nx[2]) if isinstance(nx, tuple) and nx[0] == 'it' else unld(nx)
                sy = unld(L.syms[walkvar][1])
                had = bool(axpys(q))
                if not had:
                    ok = nx == sub(sy, 1)
                    ctx.check(ok, 'progress', f.loc(L.line), '%s: moves from entry %s to %s of column %s without eliminating it' % (f.name, show(sy), show(nx), show(j)), '%s:step' % f.name)
                else:
                    fa = Facts(q.trace)
                    # next entry: as many entries from the end as before (the ones above were visited)
                    off = sub(('size', colterm(M, j), 0), nx)
                    ok = any(unld(sy2) == off for d, (nm, sy2) in L.syms.items()) or nx == sub(sy, 1) or (is_num(off) and off == 1)
                    ctx.check(ok, 'progress', f.loc(L.line), '%s: after eliminating entry %s the scan of column %s continues at %s' % (f.name, show(sy), show(j), show(nx)), '%s:step' % f.name)
        for q in leaves(L):
            fa = Facts(q.trace)
            done = fa.empty(colterm(M, j)) is True or bool(claims(q))
            if not done and walkvar is not None:
                sy = L.syms[walkvar][1]
                done = fa.holds('<', sy, 0) is True
            ctx.check(done, 'progress', f.loc(L.line), '%s: the loop over column %s is left although the column is not empty and its pivot is unclaimed (condition: %s)' % (
                f.name, show(j), ', '.join(repr(c) for c in q.trace if isinstance(c, Cond)) or 'none'), '%s:exit' % f.name)
        cover(ctx, f, p0, lp, L, j, M)
    return n


def first_only(L, q, walkvar):
    """claiming path is possible only while no entry was passed: some variable g has its initial value on
    this path and every path that moves past an entry changes it for good"""
    fa = Facts(q.trace)
    for d, (nm, sy) in L.syms.items():
        if d == walkvar:
            continue
        st = L.start.get(d)
        if not is_num(st):
            continue
        init = fa.holds('==', sy, st) is True or (st == 0 and fa.st.facts.get(('truth', unld(sy))) is False) or (st == 1 and fa.st.facts.get(('truth', unld(sy))) is True)
        if not init:
            continue
        ok = True
        for r in L.paths:
            if r.exit != 'n':
                continue
            nx = unld(r.env.get(d))
            fr = Facts(r.trace)
            isinit = fr.holds('==', sy, st) is True or (st == 0 and fr.st.facts.get(('truth', unld(sy))) is False) or (st == 1 and fr.st.facts.get(('truth', unld(sy))) is True)
            notinit = fr.holds('==', sy, st) is False or (st == 0 and fr.st.facts.get(('truth', unld(sy))) is True) or (st == 1 and fr.st.facts.get(('truth', unld(sy))) is False)
            delta = sub(nx, unld(sy))
            if axpys(r):
                ok = ok and nx == unld(sy)
            else:
                changed = (is_num(nx) and nx != st) or (is_num(delta) and delta > 0) or (notinit and nx == unld(sy))
                ok = ok and changed
        if ok:
            return True
    return False


def cover(ctx, f, p0, lp, L, j, M):
    """the loop variable of the enclosing loop runs over the whole range from the left"""
    if not lp:
        return
    O = lp[-1]
    if O.kind == 'rfor':
        return
    hit = [d for d, (nm, sy) in O.syms.items() if unld(sy) == j]
    if not ctx.check(bool(hit), 'coverage', f.loc(O.line), '%s: column %s of the pivot loop is not the variable of the enclosing loop' % (f.name, show(j)), '%s:cover' % f.name):
        return
    d = hit[0]
    params = {('sym', p['n'], 0) for p in f.d['ps']}
    st = unld(O.start[d])
    ctx.check(st == 0 or st in params, 'coverage', f.loc(O.line), '%s: the columns start at %s' % (f.name, show(st)), '%s:cover' % f.name)
    for q in O.paths:
        if q.exit != 'n':
            ctx.bad('coverage', f.loc(O.line), '%s: the loop over the columns can be left early (%s)' % (f.name, q.exit), '%s:cover' % f.name)
            continue
        nx = sub(unld(q.env.get(d)), j)
        ctx.check(nx == 1, 'coverage', f.loc(O.line), '%s: the column index advances by %s' % (f.name, show(nx)), '%s:cover' % f.name)
        ctx.check(any(isinstance(x, Loop) and x.line == L.line for x in q.trace), 'coverage', f.loc(O.line), '%s: a path over the columns skips the reduction of column %s' % (f.name, show(j)), '%s:cover' % f.name)
    for q in O.exit:
        fa = Facts(q.trace)
        ok = fa.holds('<', j, ('f', M, 'n')) is False or fa.holds('==', j, ('f', M, 'n')) is True or any(fa.holds('<', j, x) is False or fa.holds('==', j, x) is True for x in params)
        ctx.check(ok, 'coverage', f.loc(O.line), '%s: the loop over the columns ends on %s, not at the number of columns' % (f.name, ', '.join(repr(c) for c in q.trace)), '%s:cover' % f.name)


def pivot_map_init(ctx, f, p, M):
    """the map returned was created without owners"""
    v = p.val
    comps = [x for _, x in v[1]] if isinstance(v, tuple) and v[0] == 'tup' else [v]
    P = unld(comps[0])
    init = [e for e in p.trace if isinstance(e, Ev) and e.k == 'set' and e.name == 'init' and unld(e.obj) == P]
    if not init:
        return
    a = unld(init[0].args[0])
    if isinstance(a, tuple) and a[0] == 'app' and 'unordered_map' in a[1]:
        ctx.check(len([x for x in a[2] if not isinstance(x, tuple) or x[0] != 'app']) == 0, 'map', f.loc(init[0].line), '%s: pivot map starts non-empty' % f.name, '%s:map' % f.name)
    elif isinstance(a, tuple) and a[0] == 'app' and 'vector' in a[1]:
        ok = len(a[2]) >= 2 and a[2][0] == ('f', M, 'm') and a[2][1] == NO_IND
        fills = [e for e in p.trace if isinstance(e, Ev) and short(e.name) in ('fill', 'assign') and NO_IND in e.args]
        ctx.check(ok or fills, 'map', f.loc(init[0].line), '%s: pivot map starts as %s instead of one unowned slot per row' % (f.name, show(a)), '%s:map' % f.name)


def matrix_param(f, u):
    ps = params_of_type(f, u, 'ColumnMatrix', False)
    return ('v', ps[0]['n'], 0) if ps else None


def reductions(ctx, u):
    done = set()
    for name in ALL:
        fs = [f for f in u.find(name) if matrix_param(f, u)]
        ctx.need(fs, 'anchor vanished: %s' % name)
        for f in fs:
            if (f.file, f.line) in done:
                continue
            done.add((f.file, f.line))
            ctx.function(f)
            M = matrix_param(f, u)
            keep = ('reduce_block_dq',) if name == 'bats::reduce_matrix' else ()
            e = Engine(u, vocab=lambda n, x: la_mutator(n, x) or short(n) in keep)
            paths = e.run(f)
            for g in e.inlined:
                ctx.function(g)
            n = pivot_loops(ctx, f, paths, M, name in EXTRA)
            for p in paths:
                if p.exit == 'ret' and p.val is not None:
                    pivot_map_init(ctx, f, p, M)
            if name.endswith('reduce_block_dq'):
                dq(ctx, f, paths, M)
            if name == 'bats::reduce_matrix' and any(any(isinstance(ev, Ev) and short(ev.name) == 'reduce_block_dq' for ev in p.trace) for p in paths):
                dq_entry(ctx, f, paths, M)
            if name in STD + EXTRA:
                ctx.need(n, '%s has no pivot loop any more' % f)


def dq(ctx, f, paths, M):
    """the two halves are disjoint, adjacent and cover the block; the left map is completed with the nonzero columns of the right"""
    seen = False
    ps = [p['n'] for p in f.d['ps']]
    j0, j1 = [('sym', n, 0) for n in ps if n not in ('max_block_size', 'level', 'max_depth') and ('v', n, 0) != M and not n == 'U'][:2]
    for p in paths:
        if p.exit != 'ret':
            continue
        calls = [(i, e) for i, e in enumerate(p.trace) if isinstance(e, Ev) and short(e.name) == 'reduce_block_dq' and e.k == 'call']
        if not calls:
            continue
        seen = True
        rng = []
        for i, e in calls:
            a = [unld(x) for x in e.args if not (isinstance(x, tuple) and x[0] == 'v')]
            rng.append((a[0], a[1]))
        srt = sorted(rng, key=lambda r: 0 if r[0] == j0 else 1)
        ok = len(srt) == 2 and srt[0][0] == j0 and srt[0][1] == srt[1][0] and srt[1][1] == j1
        ctx.check(ok, 'blocks', f.loc(calls[0][1].line), '%s: the halves are %s of [%s,%s)' % (f.name, ' and '.join('[%s,%s)' % (show(a), show(b)) for a, b in rng), show(j0), show(j1)), '%s:blocks' % f.name)
        if not ok:
            continue
        left = [e for i, e in calls if unld([x for x in e.args if not (isinstance(x, tuple) and x[0] == 'v')][0]) == j0][0]
        right = [e for i, e in calls if e is not left][0]
        sets = {}
        for e in p.trace:
            if isinstance(e, Ev) and e.k == 'set' and isinstance(e.args[0], tuple) and e.args[0][0] == 'f' and e.args[0][2] in ('get0', 'get1'):
                sets[unld(e.obj)] = (('L' if unld(e.args[0][1]) == unld(left.res) else 'R'), e.args[0][2])
        v = p.val
        ok = isinstance(v, tuple) and v[0] == 'tup' and len(v[1]) == 2
        if ok:
            a, b = unld(v[1][0][1]), unld(v[1][1][1])
            ok = sets.get(a) == ('L', 'get0') and sets.get(b) == ('L', 'get1')
        ctx.check(ok, 'blocks', f.loc(left.line), '%s: does not return the left map and column list completed with the right half' % f.name, '%s:blocks' % f.name)
        fix = [it for it in p.trace if isinstance(it, Loop)]
        ok2 = False
        for L in fix:
            rngv = unld(strip_ld(L.rng)) if L.rng is not None else None
            if rngv is not None and sets.get(rngv) == ('R', 'get1'):
                ok2 = True
                for q in L.paths:
                    el = ('ix', rngv, L.var)
                    app = [e for e in q.trace if isinstance(e, Ev) and short(e.name) in ('emplace_back', 'push_back')]
                    fa = Facts(q.trace)
                    emp = fa.empty(colterm(M, unld(el)))
                    okk = all(unld(e.args[0]) == unld(el) and unld(e.obj) == b for e in app) and (bool(app) == (emp is False))
                    ctx.check(okk, 'blocks', f.loc(L.line), '%s: the list of nonzero columns is not extended exactly for the nonzero columns' % f.name, '%s:blocks' % f.name)
                    ps_ = {c[1] for it in q.trace if isinstance(it, Loop) for r in it.paths for c in claims(r)}
                    ctx.check(ps_ <= {a}, 'blocks', f.loc(L.line), '%s: columns of the right half are reduced against a map other than the left one' % f.name, '%s:blocks' % f.name)
        ctx.check(ok2, 'blocks', f.loc(right.line), '%s: the nonzero columns of the right half are not reduced against the left half' % f.name, '%s:blocks' % f.name)
    ctx.check(seen, 'blocks', f.loc(), '%s: no recursion on halves' % f.name, '%s:blocks' % f.name)


def dq_entry(ctx, f, paths, M):
    for p in paths:
        if p.exit != 'ret':
            continue
        call = [e for e in p.trace if isinstance(e, Ev) and short(e.name) == 'reduce_block_dq']
        ctx.check(len(call) == 1, 'blocks', f.loc(), '%s: calls the block reduction %d times' % (f.name, len(call)), '%s:dq' % f.name)
        for e in call:
            a = [unld(x) for x in e.args if not (isinstance(x, tuple) and x[0] == 'v')]
            ctx.check(a[0] == 0 and a[1] == ('f', M, 'n'), 'blocks', f.loc(e.line), '%s: reduces columns [%s,%s)' % (f.name, show(a[0]), show(a[1])), '%s:dq' % f.name)
        P = unld(p.val)
        ok = False
        for it in p.trace:
            if isinstance(it, Loop):
                for q in it.paths:
                    for e in q.trace:
                        if isinstance(e, Ev) and e.k == 'set' and unld(e.obj)[0] == 'ix' and unld(e.obj)[1] == P:
                            i, v = unld(e.obj)[2], unld(e.args[0])
                            ok = isinstance(i, tuple) and isinstance(v, tuple) and i[0] == 'f' and v[0] == 'f' and i[2] == 'first' and v[2] == 'second' and i[1] == v[1]
        ctx.check(ok, 'map', f.loc(), '%s: the result is not filled with (pivot row -> column)' % f.name, '%s:dq' % f.name)


def blocks(ctx, u):
    fs = u.find('bats::partial_reduce_parallel')
    ctx.need(fs, 'anchor vanished: partial_reduce_parallel')
    for f in fs:
        ctx.function(f)
        M = matrix_param(f, u)
        n = ('f', M, 'n')
        for L, p0, lp in loops_of(Engine(u, vocab=lambda nm, x: la_mutator(nm, x) or short(nm) in ('reduce_block_sequential', 'reduce_block_dq')).run(f)):
            for q in L.paths:
                for e in q.trace:
                    if not isinstance(e, Ev) or short(e.name) not in ('reduce_block_sequential', 'reduce_block_dq'):
                        continue
                    a, b = [unld(x) for x in e.args if not (isinstance(x, tuple) and x[0] == 'v')][:2]
                    fa = Facts(upto(q, e))
                    inside = isinstance(b, tuple) and b[0] == 'app' and b[1] == 'min' and n in b[2] or fa.holds('<', n, b) is False
                    ctx.check(inside, 'blocks', f.loc(e.line), '%s: block [%s,%s) is not known to end inside the matrix' % (f.name, show(a), show(b)), '%s:inside' % f.name)
                    width = sub(b, a) if not (isinstance(b, tuple) and b[0] == 'app') else sub([x for x in b[2] if x != n][0], a)
                    d = [d for d, (nm, sy) in L.syms.items() if unld(sy) == a]
                    ok = bool(d) and sub(unld(q.env[d[0]]), a) == width and L.start[d[0]] == 0
                    ctx.check(ok, 'blocks', f.loc(e.line), '%s: consecutive blocks of width %s do not tile the columns' % (f.name, show(width)), '%s:tile' % f.name)


# ---------------------------------------------------------------- helpers
def appended(p):
    return [e for e in p.trace if isinstance(e, Ev) and short(e.name) in ('emplace_back', 'push_back')]


def index_of_loop(L):
    """terms that equal the position in the range on every iteration"""
    out = set()
    for d, (nm, sy) in L.syms.items():
        st = L.start.get(d)
        if isinstance(st, tuple) and st and st[0] == 'it':
            st = st[2]
        ok = st == 0
        for q in L.paths:
            if q.exit != 'n':
                continue
            nx = q.env.get(d)
            nx = nx[2] if isinstance(nx, tuple) and nx[0] == 'it' else nx
            ok = ok and sub(unld(nx), unld(sy)) == 1
        if ok:
            out.add(unld(sy))
    if L.kind == 'rfor':
        out.add(unld(L.var))
    return out


def canon(t, L):
    """all position variables of the loop become one symbol"""
    ids = index_of_loop(L)

    def r(x):
        if x in ids:
            return ('sym', '#', 0)
        if isinstance(x, tuple) and x:
            if x[0] == 'poly':
                z = 0
                for m, c in x[1]:
                    y = c
                    for a in m:
                        y = mul(y, r(a))
                    z = add(z, y)
                return z
            return tuple(r(y) if isinstance(y, tuple) else y for y in x)
        return x
    return r(unld(t))


POS = ('sym', '#', 0)


def cfacts(p, L):
    fa = Facts()
    for it in p.trace:
        if isinstance(it, Cond):
            t = it.t
            if t[0] == 'cmp':
                a, b = canon(t[2], L), canon(t[3], L)
                if t[1] == '==' and key(a) > key(b):
                    a, b = b, a
                fa.st.facts[('cmp', t[1], a, b)] = it.pol
            else:
                fa.st.facts[canon(t, L)] = it.pol
    return fa


def selection(ctx, u, name, nargs, select, rule):
    """f returns exactly the positions # (in order) for which `select(facts, args)` is True"""
    fs = [f for f in u.find(name) if len(f.d['ps']) == nargs]
    ctx.need(fs, 'anchor vanished: %s/%d' % (name, nargs))
    done = set()
    for f in fs:
        if (f.file, f.line) in done:
            continue
        done.add((f.file, f.line))
        ctx.function(f)
        args = [('v', p['n'], 0) for p in f.d['ps']]
        paths = Engine(u, vocab=lambda n, x: la_mutator(n, x)).run(f)
        for L, p, lp in loops_of(paths):
            if not any(appended(q) for q in L.paths):
                continue
            ctx.count("selection loops")
            for q in L.paths:
                fa = cfacts(q, L)
                want = select(fa, args)
                got = appended(q)
                ok = want is not None and bool(got) == want and all(canon(e.args[0], L) == POS for e in got) and len(got) <= 1
                ctx.check(ok, rule, f.loc(L.line), '%s: on the path [%s] it %s' % (f.name, ', '.join(repr(c) for c in q.trace if isinstance(c, Cond)), 'selects ' + ', '.join(show(e.args[0]) for e in got) if got else 'selects nothing'), '%s:select' % f.name)
                ctx.check(q.exit == 'n', rule, f.loc(L.line), '%s: the scan stops early' % f.name, '%s:select' % f.name)


def helpers(ctx, u):
    def un(fa, P):
        return fa.holds('==', ('ix', P, POS), NO_IND)

    def col_empty(fa, M):
        return fa.empty(colterm(M, POS))

    def neg3(x):
        return None if x is None else not x

    selection(ctx, u, 'bats::get_clearing_inds', 1, lambda fa, a: neg3(un(fa, a[0])), 'clearing-indices')

    def ex2(fa, a):
        e, n = col_empty(fa, a[0]), un(fa, a[1])
        if e is False or n is False:
            return False
        return True if e and n else None
    selection(ctx, u, 'bats::extract_basis_indices', 2, ex2, 'homology-indices')
    selection(ctx, u, 'bats::extract_basis_indices', 1, lambda fa, a: col_empty(fa, a[0]), 'homology-indices')

    for f in u.find('bats::get_compression_inds'):
        ctx.function(f)
        M = ('v', f.d['ps'][0]['n'], 0)
        for L, p, lp in loops_of(Engine(u, vocab=lambda n, x: la_mutator(n, x)).run(f)):
            for q in L.paths:
                fa = cfacts(q, L)
                for e in q.trace:
                    if isinstance(e, Ev) and e.k == 'set' and unld(e.obj)[0] == 'ix':
                        v = e.args[0]
                        emp = fa.empty(colterm(M, POS))
                        ok = canon(unld(e.obj)[2], L) == POS and is_num(v) and emp is not None and bool(v) == (not emp)
                        ctx.check(ok, 'compression-indices', f.loc(e.line), '%s: column is %s but marked %s' % (f.name, 'empty' if emp else 'nonempty', show(v)), '%s:comp' % f.name)

    # clearing: clear exactly the columns that are pivots one dimension up
    for f in u.find('bats::reduce_matrix_clearing'):
        ctx.function(f)
        ps = [p['n'] for p in f.d['ps']]
        M = ('v', ps[0], 0)
        paths = Engine(u, vocab=lambda n, x: la_mutator(n, x) or short(n) == 'reduce_matrix').run(f)
        for p in paths:
            L = [it for it in p.trace if isinstance(it, Loop)]
            red = [i for i, e in enumerate(p.trace) if isinstance(e, Ev) and short(e.name) == 'reduce_matrix']
            ctx.check(bool(red) and all(mat_of(p.trace[i].args[0]) == M for i in red), 'clearing', f.loc(), '%s: does not reduce the matrix' % f.name, '%s:clr' % f.name)
            ctx.check(bool(L) and red and p.trace.index(L[0]) < red[0], 'clearing', f.loc(), '%s: clears after reducing' % f.name, '%s:clr' % f.name)
            for l in L:
                for q in l.paths:
                    fa = cfacts(q, l)
                    cl = [e for e in q.trace if isinstance(e, Ev) and short(e.name) == 'clear' and col_of(e.obj) and col_of(e.obj)[0] == M]
                    if len(ps) >= 5:
                        U, R, P = [('v', x, 0) for x in ps[1:4]]
                        own = fa.holds('==', ('ix', P, POS), NO_IND)
                        asg = [e for e in q.trace if isinstance(e, Ev) and e.k == 'set' and col_of(e.obj) and col_of(e.obj)[0] == U]
                        ok = own is not None and len(cl) == (0 if own else 1) and len(asg) == len(cl) and all(canon(col_of(e.obj)[1], l) == POS for e in cl + asg)
                        ok = ok and all(canon(e.args[0], l) == ('ix', ('f', R, 'col'), ('ix', P, POS)) for e in asg)
                        ctx.check(ok, 'clearing', f.loc(l.line), '%s: a column must be cleared and its basis column replaced by the boundary that has it as pivot, exactly when it is a pivot' % f.name, '%s:clr' % f.name)
                    else:
                        ok = len(cl) == 1 and canon(col_of(cl[0].obj)[1], l) == ('ix', ('v', ps[1], 0), POS)
                        ctx.check(ok, 'clearing', f.loc(l.line), '%s: does not clear exactly the given columns' % f.name, '%s:clr' % f.name)
    for f in u.find('bats::reduce_matrix_compression'):
        ctx.function(f)
        ps = [p['n'] for p in f.d['ps']]
        M = ('v', ps[0], 0)
        C = [('v', p['n'], 0) for p in f.d['ps'] if 'vector<bool' in u.type(p['t'])][0]
        for p in Engine(u, vocab=lambda n, x: la_mutator(n, x) or short(n) == 'reduce_matrix').run(f):
            evs = [e for e in p.trace if isinstance(e, Ev) and short(e.name) in ('clear_rows', 'reduce_matrix')]
            ok = [short(e.name) for e in evs] == ['clear_rows', 'reduce_matrix'] and mat_of(evs[0].obj) == M and unld(evs[0].args[0]) == C and mat_of(evs[1].args[0]) == M
            ctx.check(ok, 'compression', f.loc(), '%s: must clear the given rows of the matrix and then reduce it' % f.name, '%s:cmpr' % f.name)

    # optional passes: guards on the added column
    for f in u.find('bats::remove_extra_cycles'):
        ctx.function(f)
        R, U = [('v', p['n'], 0) for p in f.d['ps'][:2]]
        for p, lp in all_paths(Engine(u, vocab=lambda n, x: la_mutator(n, x)).run(f)):
            for ev in axpys(p):
                m, j = col_of(ev.obj)
                j = unld(j)
                if m != U:
                    continue
                src = col_of(ev.args[1])
                k = unld(src[1])
                ctx.count("cycle removals")
                fa = Facts(upto(p, ev))
                q = quotient(ev.args[0])
                en = entry_of(q[1]) if q else None
                ctx.check(src[0] == U and fa.empty(colterm(R, k)) is True, 'cycles', f.loc(ev.line), '%s: adds column %s of the basis although its reduced boundary is not known to be zero' % (f.name, show(k)), '%s:guard' % f.name)
                ok = q is not None and q[0] == -1 and en is not None and en[:2] == (U, j) and k == entry(U, j, en[2], 'ind') and unld(q[2]) == last(U, k, 'val')
                ctx.check(ok, 'cycles', f.loc(ev.line), '%s: coefficient %s does not remove the entry in row %s' % (f.name, show(unld(ev.args[0])), show(k)), '%s:coef' % f.name)
                above_diagonal(ctx, f, lp, en, U, j)
    seen = False
    for f in u.find('bats::sparsify_basis'):
        if len(f.d['ps']) < 5:
            continue
        seen = True
        ctx.function(f)
        R, U = [('v', p['n'], 0) for p in f.d['ps'][:2]]
        for p, lp in all_paths(Engine(u, vocab=lambda n, x: la_mutator(n, x)).run(f)):
            for ev in axpys(p):
                m, j = col_of(ev.obj)
                j = unld(j)
                k = unld(col_of(ev.args[1])[1])
                if m != R:
                    continue
                ctx.count("sparsifications")
                fa = Facts(upto(p, ev))
                safe = fa.empty(colterm(R, k)) is True or fa.holds('<', last(R, k, 'ind'), last(R, j, 'ind')) is True and fa.empty(colterm(R, j)) is False
                ctx.check(safe, 'sparsify', f.loc(ev.line), '%s: adding column %s may change the pivot of reduced column %s' % (f.name, show(k), show(j)), '%s:guard' % f.name)
                en = entry_of(k) if isinstance(k, tuple) else None
                ctx.check(en is not None and en[:2] == (U, j) and en[3] == 'ind', 'sparsify', f.loc(ev.line), '%s: added column %s is not the row of an entry of U[%s]' % (f.name, show(k), show(j)), '%s:col' % f.name)
                above_diagonal(ctx, f, lp, en, U, j)
    ctx.need(seen, 'anchor vanished: sparsify_basis')


def above_diagonal(ctx, f, lp, en, U, j):
    """the scan of basis column j starts strictly above the diagonal entry"""
    if en is None or not lp:
        return
    L = lp[-1]
    for d, (nm, sy) in L.syms.items():
        if unld(sy) == en[2]:
            st = L.start.get(d)
            ok = isinstance(st, tuple) and st[0] == 'it' and unld(st[1]) == colterm(U, j) and is_num(sub(('size', colterm(U, j), 0), unld(st[2]))) and sub(('size', colterm(U, j), 0), unld(st[2])) >= 2
            ctx.check(ok, 'diagonal', f.loc(L.line), '%s: the scan of basis column %s starts at %s and so may cancel its diagonal entry' % (f.name, show(j), show(st)), '%s:diag' % f.name)


def run(ctx):
    u, = prog.load(['core'])
    reductions(ctx, u)
    blocks(ctx, u)
    helpers(ctx, u)
