"""Chain complexes and chain maps as tables of matrices.

Constructors and derived complexes are read as tables: every write `table[index] = matrix` is collected
with the loop ranges and conditions around it, the index is normalised to a dimension k, lists that are
filled by one push per round are resolved to the value of that round, and the matrix is compared, as a
term, with its definition for k = 0, for an arbitrary inner k and for the top.  Blocks of index lists are
only taken along lists that were sorted before.  The columns of tensor products are compared with the
Leibniz formula, with the accumulated index shifts read from the loop that stores them."""
from rules.common import *
from rules.r08 import par, field, inst, uniq
from rules.r16 import ix, definite, methods, TH
from rules.r13 import evald, canon as canon13
from bx.seqs import trip, subst, coef

PROP = dict(
    id="R17", title="Chain complexes and maps: boundary tables, blocks, tensor products",
    statement="The chain complex, cochain complex or DG vector space of a cell complex has in dimension k the boundary matrix of dimension k (its transpose for cochains), an empty 1-row matrix or the augmentation in dimension 0, and as many dimensions as the complex; its accessors return dimensions, maximal dimension and differentials of that table, and the validity checks multiply consecutive differentials in every dimension. A relative complex is the block of cells outside the subcomplex, a subcomplex the block of the given cells, a relative map the block outside both subcomplexes, each taken along sorted index lists; chain maps copy (for cochains transpose) the cellular map in every dimension. The tensor product has the column da (x) b + (-1)^p a (x) db for each pair of cells, at the position and with the index shifts of the direct sum over p+q = n; kron_chain_shift and kron_index use the same positions, the latter listing A x Y and (X minus A) x B once each, sorted. clear_compress_apparent_pairs clears, one dimension down, exactly the columns of pivot rows, and compresses, one dimension up, only rows of columns that no earlier column can reduce.",
    over=["inputs"],
    text="all complexes, subcomplexes, maps, degrees and dimensions; every round of the loops over dimensions and cells",
    why="tests build chain complexes of a few small simplicial complexes; a wrong block, sign or shift in a higher dimension, for unsorted indices, or for a second factor that is larger than the first is not sampled",
    files=["include/chain/chain_complex.hpp", "include/chain/cochain_complex.hpp", "include/chain/chain_map.hpp", "include/dgvs/dgvs.hpp", "include/dgvs/dgmap.hpp", "include/topology/eilenberg_zilber.hpp"],
    mechanism=[("boundary tables", "ChainComplex(X), DGVectorSpace(X, degree), CochainComplex(X)"), ("blocks", "relative_complex, subcomplex, relative_map"), ("tensor products", "tensor_product, EilenbergZilber, kron_index"), ("apparent pairs", "clear_compress_apparent_pairs")],
)
TECHNIQUE = "table reconstruction of constructors and block operations (writes with loop ranges and conditions), term comparison with definitions per dimension case"
LEVEL = "proof"
ASSUMPTIONS = ["boundary_csc, ncells and get_indices are as decided by R08, matrix blocks, products, transposes and conversions by R13, vector operations by R04", "cells of the complex and of the subcomplex are related as the property says (A is a subcomplex of X)"]
MINIMUM = {"tables": 10, "definitions": 12}
KNOWN = {'ncells', 'boundary_csc', 'maxdim', 'ColumnMatrix', 'transpose', 'T', 'submatrix', 'sorted_complement', 'get_indices', 'CSCMatrix', 'identity'}
VOC = KNOWN | {'sort', 'is_zero', 'operator*', 'kron', 'shift_inds', 'operator+', 'append_column', 'clear_cols', 'clear_rows', 'inv_perm', 'set_nrow', 'get_simplex', 'product_paths', 'permute_rows', 'permute_cols', 'union_add'}


def eng(u, f, extra=(), **kw):
    root = short(f.name)
    return Engine(u, vocab=lambda n, x: (short(n) in VOC or short(n) in extra or la_mutator(n, x)) and short(n) != root, **kw).run(f)


def rec(ctx, what):
    ctx.count(what + " not recognised")


def app(n, *a):
    return ('app', n, tuple(a))


# ------------------------------------------------------------------ canonical terms
def canon(t, ren=None):
    """short names; number of columns as .n; transposes of empty matrices; block rows by name"""
    t = unld(t)
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'poly':
        out = 0
        for m, c in t[1]:
            x = c
            for a in m:
                x = mul(x, canon(a, ren))
            out = add(out, x)
        return out
    if t[0] == 'size':
        a = canon(t[1], ren)
        if isinstance(a, tuple) and a[0] == 'f' and a[2] == 'col':
            return field(a[1], 'n')
        if isinstance(a, tuple) and a[0] == 'app' and a[1] == 'sorted_complement' and len(a[2]) == 2:
            return sub(a[2][1], canon(('size', a[2][0], 0), ren))
        if isinstance(a, tuple) and a[0] == 'app' and a[1] == 'get_indices' and len(a[2]) == 3:
            return app('ncells', a[2][1], a[2][2])
        return ('size', a, 0)
    if t[0] == 'app':
        n = ('new ' if str(t[1]).startswith('new ') else '') + short(str(t[1])).replace('new ', '')
        a = [canon(x, ren) for x in t[2]]
        if n == 'T':
            n = 'transpose'
        if n == 'transpose' and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'app' and a[0][1] == 'new ColumnMatrix' and len(a[0][2]) in (2, 3):
            m = a[0][2]
            return app('new ColumnMatrix', m[1], m[0], *m[2:])
        if n == 'new ColumnMatrix' and len(a) == 3 and a[2] == 0:
            a = a[:2]
        if n == 'new ColumnMatrix' and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'app' and a[0][1] == 'new CSCMatrix':
            a = list(a[0][2])
        if n == 'new ColumnMatrix' and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'app' and a[0][1] in ('new ColumnMatrix', 'transpose'):
            return a[0]                                        # a copy
        return ('app', n, tuple(a))
    if t[0] == 'ix':
        b, i = canon(t[1], ren), canon(t[2], ren)
        if ren and b in ren and any(x == ('size', b, 0) for x in subterms(i)):
            return ('unk', 'back', b)
        if ren and b in ren:
            r = ren[b](i)
            if r is not None:
                return canon(r, ren)
        if isinstance(b, tuple) and b[0] == 'app' and b[1] == 'get_indices' and len(b[2]) == 2:
            return app('get_indices', b[2][0], b[2][1], i)
        return ('ix', b, i)
    return tuple(canon(x, ren) if isinstance(x, tuple) else x for x in t)


def known(t, extra=()):
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] in ('deref', 'ite', 'envvar', 'lv', 'unk', 'opaque'):
            return False
        if isinstance(s, tuple) and s and s[0] == 'app' and str(s[1]).replace('new ', '') not in KNOWN and str(s[1]) not in extra:
            return False
    return True


# ------------------------------------------------------------------ tables
def cont(L):
    return [q for q in L.paths if q.exit in ('n', 'c')]


def has(trace, pred):
    for it in trace:
        if isinstance(it, Loop):
            if any(has(q.trace, pred) for q in it.paths):
                return True
        elif isinstance(it, Leave):
            if has(it.path.trace, pred):
                return True
        elif isinstance(it, Ev) and pred(it):
            return True
    return False


def writes(trace, root, loops=(), cds=()):
    """(loops, conditions, index, value, event) of every write root[index] = value"""
    cds = list(cds)
    for it in trace:
        if isinstance(it, Cond):
            cds.append(it)
        elif isinstance(it, Leave):
            cds += [x for x in it.path.trace if isinstance(x, Cond)]
        elif isinstance(it, Ev):
            if it.k == 'set' and it.obj is not None and it.args:
                o = unld(it.obj)
                if isinstance(o, tuple) and o[0] == 'ix' and o[1] == root:
                    yield loops, tuple(cds), o[2], it.args[0], it
        elif isinstance(it, Loop):
            for q in cont(it):
                yield from writes(q.trace, root, loops + ((it, q),), tuple(cds) + tuple(x for x in q.trace if isinstance(x, Cond)))


def pushed(trace):
    """local lists that get exactly one push per round of a loop: name -> (index -> value)"""
    out = {}
    fresh = set()
    for it in trace:
        if isinstance(it, Ev) and it.k == 'set' and it.obj is not None and it.args:
            v = unld(it.args[0])
            if isinstance(v, tuple) and v[0] == 'app' and short(str(v[1])) == 'get_indices' and len(v[2]) == 2:
                out[unld(it.obj)] = lambda i, v=v: app('get_indices', v[2][0], v[2][1], i)
            if isinstance(v, tuple) and v[0] == 'app' and str(v[1]).startswith('new ') and 'vector' in str(v[1]) and (not v[2] or v[2][0] != 0 and len(v[2]) <= 2):
                fresh.add((unld(it.obj), not v[2]))
        if not isinstance(it, Loop):
            continue
        tr = trip(it)
        if tr is None or tr[3] != 1:
            continue
        sy, lo = tr[0], tr[1]
        per = {}
        for q in cont(it):
            mine = {}
            for ev in q.trace:
                if isinstance(ev, Loop):
                    if has([ev], lambda e: e.k == 'call' and short(e.name) in ('emplace_back', 'push_back')):
                        for x in ev.paths:
                            for e in flat(x):
                                if isinstance(e, Ev) and e.obj is not None:
                                    mine[unld(e.obj)] = None
                elif isinstance(ev, Ev) and ev.k == 'call' and short(ev.name) in ('emplace_back', 'push_back') and ev.obj is not None:
                    o = unld(ev.obj)
                    mine[o] = None if o in mine else unld(ev.args[0])
                elif isinstance(ev, Ev) and ev.k == 'set' and ev.obj is not None and isinstance(unld(ev.obj), tuple) and unld(ev.obj)[0] == 'ix':
                    o = unld(ev.obj)
                    c = coef(o[2], sy)
                    if c == (1, 0):
                        mine[('set', o[1])] = None if ('set', o[1]) in mine else unld(ev.args[0])
            for o, v in mine.items():
                per.setdefault(o, []).append(v)
        for o, vs in per.items():
            if len(vs) != len(cont(it)) or any(v is None for v in vs) or any(v != vs[0] for v in vs):
                continue
            v = vs[0]
            if o[0] == 'set':
                if (o[1], False) in fresh:
                    out[o[1]] = lambda i, v=v, sy=sy: subst(v, sy, i)
            elif (o, True) in fresh and is_num(lo):
                out[o] = lambda i, v=v, sy=sy, lo=lo: subst(v, sy, add(i, lo))
    return out


def zero(fa, k, lo=None):
    """is the dimension k zero: True / False / None"""
    for op, a, b, r in (('==', k, 0, None), ('<', 0, k, False), ('<', k, 1, None), ('<', 0, k, False)):
        h = fa.holds(op, a, b)
        if h is not None:
            return h if op == '==' or (a, b) == (k, 1) else (not h)
    return None


def table(ctx, f, p, w, root, at0, rest, N, key, top=None, extra=(), base=None):
    """compares the writes of one path to `root` with a definition; at0/top: list of terms, rest: k -> list"""
    ren = pushed(p.trace)
    env = ren
    ws = list(writes(p.trace, root))
    cv = []                      # (kind, lo, hi)
    unsure = False
    fa0 = [it for it in p.trace if isinstance(it, Cond)]
    NN = [canon(n) for n in N]
    for loops, cds, i, v, ev in ws:
        fa = Facts(list(cds))
        lt = []
        for L, q in loops:
            tr = trip(L)
            lt.append(tr)
        i = canon(i, env)
        sy = [t for t in lt if t is not None and any(s == t[0] for s in subterms(i))]
        loc = f.loc(ev.line)
        val = canon(v, env)
        if not loops or not sy:
            if loops:
                unsure = True
                continue
            if i == 0:
                want, case = at0, 'dimension 0'
            elif top is not None and any(i == sub(n, 1) for n in NN):
                want, case = top, 'the top'
            else:
                want, case = [canon(x) for x in rest(i)], 'dimension %s' % show(i)
            cv.append((i, add(i, 1)))
            cmpv(ctx, loc, w, val, [canon(x) for x in want], case, key, extra)
            continue
        if len(sy) != 1 or len(loops) != 1:
            unsure = True
            continue
        s, lo, hi, st = sy[0]
        c = coef(i, s)
        if c is None or c[0] != 1:
            unsure = True
            continue
        off = c[1]
        lo, hi = canon(add(lo, off), env), canon(add(hi, off), env)
        if st not in (1, -1):
            ctx.check(not is_num(st), 'R17-cover', loc, '%s visits every %s-th dimension only' % (w, show(st)), key + '/cover')
            unsure = True
            continue
        K = ('sym', 'dim#', 'k')
        z = zero(fa, add(s, off))
        if z is None and is_num(lo) and lo >= 1:
            z = False
        oth = [x for x in cds if x not in fa0 and not about0(x, add(s, off), s) and not loopcond(x, loops)]
        if oth:
            unsure = True
        if z is not False and is_num(lo) and lo <= 0:
            cmpv(ctx, loc, w, canon(subst(subst(unld(v), s, sub(K, off)), K, 0), env), [canon(x) for x in at0], 'dimension 0', key, extra)
            cv.append((0, 1))
        if z is not True:
            cmpv(ctx, loc, w, canon(subst(unld(v), s, sub(K, off)), env), [canon(x) for x in rest(K)], 'dimension k', key, extra)
            cv.append((max(lo, 1) if is_num(lo) else lo, hi))
    # rounds that write nothing
    for it in p.trace:
        if not isinstance(it, Loop) or not has([it], lambda e: e.k == 'set' and e.obj is not None and isinstance(unld(e.obj), tuple) and unld(e.obj)[0] == 'ix' and unld(e.obj)[1] == root):
            continue
        tr = trip(it)
        for q in cont(it):
            if list(writes(q.trace, root)):
                continue
            if tr and all(about0(x, tr[0], tr[0]) or loopcond(x, [(it, q)]) for x in q.trace if isinstance(x, Cond)) and not any(isinstance(x, Loop) or isinstance(x, Ev) and x.k == 'call' for x in q.trace):
                z = zero(Facts([x for x in q.trace if isinstance(x, Cond)]), tr[0])
                if z is True and any(c == (0, 1) for c in cv):
                    continue
                ctx.bad('R17-cover', f.loc(it.line), '%s leaves %s unset' % (w, 'dimension 0' if z else 'a dimension'), key + '/cover')
            else:
                unsure = True
    if not ws:
        return False
    ctx.count("tables")
    if unsure:
        rec(ctx, "covers")
        return True
    cv = sorted(set(cv), key=lambda c: (not is_num(c[0]), repr(c)))
    ends = {0}
    ch = True
    while ch:
        ch = False
        for l, h in cv:
            if h in ends:
                continue
            if l in ends or is_num(l) and any(is_num(e) and l <= e for e in ends):
                ends.add(h)
                ch = True
    okk = any(n in ends for n in NN)
    if not okk:
        bad = any(definite(e, n) for e in ends for n in NN if e != 0) or 0 not in [l for l, h in cv]
        ctx.check(not bad, 'R17-cover', f.loc(), '%s sets the dimensions %s, not each of 0 .. %s' % (w, ', '.join('[%s, %s)' % (show(l), show(h)) for l, h in cv), show(sub(NN[0], 1))), key + '/cover')
        if not bad:
            rec(ctx, "covers")
    else:
        over = [e for e in ends for n in NN if is_num(sub(e, n)) and sub(e, n) > 0]
        ctx.check(not over, 'R17-cover', f.loc(), '%s writes beyond the last dimension' % w, key + '/cover')
    return True


def about0(c, k, s):
    t = c.t
    return t[0] == 'cmp' and {1} >= {1 for x in (unld(t[2]), unld(t[3])) if not is_num(x)} and any(is_num(unld(x)) for x in (t[2], t[3])) and any(y == s for y in subterms(unld(t)))


def loopcond(c, loops):
    for L, q in loops:
        for e in L.exit:
            for x in e.trace:
                if isinstance(x, Cond) and unld(x.t) == unld(c.t):
                    return True
    return False


def cmpv(ctx, loc, w, val, want, case, key, extra=()):
    if val in want:
        ctx.check(True, 'R17-table', loc, '', '%s/%s' % (key, case))
        return
    if known(val, extra):
        ctx.bad('R17-table', loc, '%s: %s is %s, expected %s' % (w, case, show(val), show(want[0])), '%s/%s' % (key, case))
    else:
        rec(ctx, "matrices")


def sizes(ctx, f, p, w, root, N, key):
    """room made for the table"""
    for it in p.trace:
        if not isinstance(it, Ev):
            continue
        n = None
        if it.k == 'call' and short(it.name) == 'resize' and it.obj is not None and unld(it.obj) == root and it.args:
            n = canon(it.args[0])
        elif it.k == 'set' and it.obj is not None and unld(it.obj) == root:
            v = unld(it.args[0])
            if isinstance(v, tuple) and v[0] == 'app' and str(v[1]) == 'new std::vector' and v[2]:
                n = canon(v[2][0])
        if n is not None:
            NN = [canon(x) for x in N]
            ctx.check(n in NN or not any(definite(n, x) for x in NN), 'R17-room', f.loc(it.line), '%s has room for %s dimensions, not %s' % (w, show(n), show(NN[0])), key + '/room')


# ------------------------------------------------------------------ sorted before use
SORTERS = {'sort', 'stable_sort'}


def listof(t, ren=None):
    """list that a sort call sorts"""
    a = [unld(x) for x in t.args]
    if a and isinstance(a[0], tuple) and a[0][0] == 'it':
        return canon(a[0][1], ren)
    return None


def basic(t):
    """an index list whose order nobody established: get_indices or a parameter table"""
    return isinstance(t, tuple) and (t[0] == 'app' and t[1] == 'get_indices' and len(t[2]) == 3 or t[0] == 'ix' and isinstance(t[1], tuple) and t[1][0] in ('v', 'sym'))


def sorted_use(ctx, f, p, w, key, prm):
    """every list that sorted_complement or submatrix reads was sorted before"""
    ren = pushed(p.trace)

    def isbase(t):
        return isinstance(t, tuple) and (t[0] == 'app' and t[1] == 'get_indices' and len(t[2]) == 3 or t[0] == 'ix' and t[1] in prm or t in prm)

    def index(t):
        return t[2][2] if t[0] == 'app' else t[2] if t[0] == 'ix' and t[1] in prm else None

    def at(t, i):
        return app('get_indices', t[2][0], t[2][1], i) if t[0] == 'app' else ('ix', t[1], i) if index(t) is not None else t

    def walk(trace, done, loops):
        done = list(done)
        for n, it in enumerate(trace):
            if isinstance(it, Loop):
                tr = trip(it)
                inner = []
                for q in cont(it):
                    mine = [listof(e, ren) for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in SORTERS]
                    inner.append(mine)
                allq = [x for x in (inner[0] if inner else []) if x is not None and all(x in m for m in inner)]
                for q in it.paths:
                    walk(q.trace, done, loops + [(it, tr, allq)])
                if tr is not None and tr[3] in (1, -1):
                    for x in allq:
                        if any(s == tr[0] for s in subterms(x)):
                            done.append(('range', x, tr))
                        else:
                            done.append(('one', x))
                if it.kind == 'rfor' and it.var is not None:
                    pass
                continue
            if not isinstance(it, Ev):
                continue
            if it.k == 'call' and short(it.name) in SORTERS:
                x = listof(it, ren)
                if x is not None:
                    done.append(('one', x))
                continue
            if it.k == 'call' and short(it.name) not in ('resize', 'reserve', 'emplace_back', 'push_back') and not short(it.name) in VOC:
                for a in it.args:
                    a = canon(a, ren)
                    if isbase(a) or a in prm:
                        done.append(('all', a))
            if it.k == 'pure' and short(it.name) in ('sorted_complement', 'submatrix'):
                for a in it.args:
                    a = canon(a, ren)
                    if not isbase(a):
                        continue
                    ctx.count("index lists")
                    r = ordered(a, done, loops, trace, n)
                    if r is None:
                        rec(ctx, "index lists")
                    else:
                        ctx.check(r, 'R17-sorted', f.loc(it.line), '%s: %s reads %s, which was not sorted' % (w, short(it.name), show(a)), key + '/sorted')

    def ordered(a, done, loops, trace, n):
        i = index(a)
        for d in done:
            if d[0] == 'one' and d[1] == a:
                return True
            if d[0] == 'all' and (d[1] == a or d[1] in prm and a[0] == 'ix' and a[1] == d[1]):
                return None
            if d[0] == 'range':
                x, tr = d[1], d[2]
                if i is None or not isbase(x) or at(x, 0) != at(a, 0):
                    continue
                c = coef(index(x), tr[0])
                if c is None or c[0] != 1:
                    return None
                full = canon(add(tr[1], c[1])) == 0
                return True if full else None
        for L, tr, allq in loops:
            if tr is None or i is None:
                continue
            for x in allq:
                if not isbase(x) or index(x) is None or at(x, 0) != at(a, 0):
                    continue
                dlt = sub(index(x), i)            # the list sorted in this round, minus the list that is read
                if is_num(dlt) and dlt * tr[3] > 0:
                    return True                    # sorted in an earlier round (or before the first used one)
                if dlt == 0:
                    return False                   # sorted later in the same round
        # never mentioned by a sort
        for d in done:
            if d[0] in ('one', 'range') and d[1] is not None and any(s == (a[1] if a[0] == 'ix' else a) for s in subterms(d[1])):
                return None
        for L, tr, allq in loops:
            for x in allq:
                if isbase(x) and at(x, 0) == at(a, 0):
                    return None
        return False

    walk(p.trace, [], [])


# ------------------------------------------------------------------ constructors
def cpx_ctors(ctx, u, cls, root, cells='X'):
    seen = set()
    for f in u.funcs:
        if f.dep or f.d.get('b') is None or f.d.get('imp') or f.d.get('dfd') or short(f.name) != cls or cls_of(f.name) != cls or not f.d['ps']:
            continue
        ts = [u.type(q['t']).replace('const', '').replace('&', '').strip() for q in f.d['ps']]
        tt = ts[0].split('<')[0].split('::')[-1]
        if tt not in ('SimplicialComplex', 'CubicalComplex', 'LightSimplicialComplex', 'CellComplex', 'CellularMap'):
            continue
        yield f, ts, tt


def chain_ctors(ctx, u):
    R = field(TH, 'boundary')
    for f, ts, tt in cpx_ctors(ctx, u, 'ChainComplex', 'boundary'):
        X = par(f, 0, u)
        nc = lambda C, k: app('ncells', C, k)
        N = [add(app('maxdim', X), 1)]
        ctx.function(f)
        for p in eng(u, f):
            if p.exit == 'throw':
                continue
            if len(ts) == 1:
                w, key = 'ChainComplex(%s)' % tt, 'ChainComplex/' + tt
                table(ctx, f, p, w, R, [app('new ColumnMatrix', 1, nc(X, 0))], lambda k: [app('new ColumnMatrix', app('boundary_csc', X, k))], N, key)
            elif len(ts) == 2:
                A = par(f, 1, u)
                w, key = 'relative ChainComplex(%s)' % tt, 'ChainComplex/relative'
                sc = lambda k: app('sorted_complement', app('get_indices', X, A, k), nc(X, k))
                table(ctx, f, p, w, R, [app('new ColumnMatrix', 1, sub(nc(X, 0), nc(A, 0)))],
                      lambda k: [app('new ColumnMatrix', app('submatrix', app('boundary_csc', X, k), sc(sub(k, 1)), sc(k)))], N, key)
                sorted_use(ctx, f, p, w, key, set())
            sizes(ctx, f, p, w, R, N, key)


def cochain_ctors(ctx, u):
    for f, ts, tt in cpx_ctors(ctx, u, 'CochainComplex', 'coboundary'):
        X = par(f, 0, u)
        if len(ts) != 1:
            continue
        nc = lambda C, k: app('ncells', C, k)
        N = [add(app('maxdim', X), 1)]
        ctx.function(f)
        for p in eng(u, f):
            w, key = 'CochainComplex(%s)' % tt, 'CochainComplex'
            cb, dm = field(TH, 'coboundary'), field(TH, 'dim')
            table(ctx, f, p, w, cb, [app('new ColumnMatrix', nc(X, 0), 1)], lambda k: [app('transpose', app('new ColumnMatrix', app('boundary_csc', X, k)))], N, key)
            table(ctx, f, p, w + ' dimensions', dm, [nc(X, 0)], lambda k: [nc(X, k)], N, key + '/dim')
            sizes(ctx, f, p, w, cb, N, key)
            sizes(ctx, f, p, w, dm, N, key + '/dim')


def degree_of(p, d):
    fa = Facts([it for it in p.trace if isinstance(it, Cond)])
    if fa.holds('==', d, -1) is True:
        return -1
    if fa.holds('==', d, 1) is True:
        return 1
    return None if fa.holds('==', d, -1) is None or fa.holds('==', d, 1) is None else 0


def mentions(trace, x):
    """whether a value, a condition or a call of the path depends on x"""
    def inn(t):
        return t is not None and any(s == x for s in subterms(unld(t)))
    for it in trace:
        if isinstance(it, Cond):
            if inn(it.t):
                return True
        elif isinstance(it, Loop):
            if any(mentions(q.trace, x) or any(unld(v) != x and inn(v) for v in q.env.values()) for q in it.paths):
                return True
        elif isinstance(it, Leave):
            if mentions(it.path.trace, x):
                return True
        elif isinstance(it, Ev) and any(inn(a) for a in (it.obj,) + tuple(it.args or ())):
            return True
    return False


def dg_ctors(ctx, u):
    R = field(TH, 'differential')
    for f, ts, tt in cpx_ctors(ctx, u, 'DGVectorSpace', 'differential'):
        X = par(f, 0, u)
        if len(f.d['ps']) < 3:
            continue
        D, AUG = par(f, 1, u), par(f, 2, u)
        nc = lambda k: app('ncells', X, k)
        md = app('maxdim', X)
        N = [add(md, 2)]
        ctx.function(f)
        for p in eng(u, f):
            for it in p.trace:
                if isinstance(it, Ev) and it.k == 'set' and it.obj is not None and unld(it.obj) == field(TH, 'degree'):
                    v = unld(it.args[0])
                    ctx.check(v == D or not known(v) or is_num(v), 'R17-degree', f.loc(it.line), 'DGVectorSpace stores the degree %s' % show(v), 'DGVectorSpace/degree')
            d = degree_of(p, D)
            d = degree_of(p, field(TH, 'degree')) if d in (None, 0) and degree_of(p, field(TH, 'degree')) is not None else d
            w, key = 'DGVectorSpace(%s, %s)' % (tt, d), 'DGVectorSpace/%s/%s' % (tt, d)
            if d == 0:
                ctx.check(p.exit == 'throw', 'R17-degree', f.loc(), 'DGVectorSpace accepts a degree that is neither -1 nor +1', 'DGVectorSpace/degree')
                continue
            if d is None:
                rec(ctx, "degrees")
                continue
            ctx.check(p.exit != 'throw', 'R17-degree', f.loc(), 'DGVectorSpace rejects degree %d' % d, 'DGVectorSpace/degree')
            for it in p.trace:
                if isinstance(it, Ev) and it.k == 'set' and it.obj is not None and unld(it.obj) == field(TH, 'degree'):
                    v = unld(it.args[0])
                    if v == D or is_num(v):
                        ctx.check(v == D or v == d, 'R17-degree', f.loc(it.line), 'DGVectorSpace stores the degree %s' % show(v), 'DGVectorSpace/degree')
            fa = Facts([it for it in p.trace if isinstance(it, Cond)])
            aug = None
            for it in p.trace:
                if isinstance(it, Cond) and it.t[0] != 'cmp' and any(s == AUG for s in subterms(unld(it.t))):
                    aug = it.pol
            if aug is None:
                a0 = None
            else:
                a0 = app('new ColumnMatrix', 1, nc(0), 1) if aug else app('new ColumnMatrix', 0, nc(0))
                if d == 1:
                    a0 = app('transpose', a0)
            b = lambda k: app('new ColumnMatrix', app('boundary_csc', X, k))
            top = app('new ColumnMatrix', nc(md), 0)
            if d == 1:
                top = app('transpose', top)
            r = lambda k: [b(k) if d == -1 else app('transpose', b(k))]
            if a0 is None:
                ctx.check(mentions(p.trace, AUG), 'R17-table', f.loc(), '%s gives dimension 0 the same map with and without augmentation' % w, key + '/augmentation')
                rec(ctx, "augmentations")
                continue
            table(ctx, f, p, w + (' augmented' if aug else ''), R, [a0], r, N, key + ('/augmented' if aug else ''), top=[top])
            sizes(ctx, f, p, w, R, N, key)


def map_ctors(ctx, u):
    for cls in ('ChainMap', 'DGLinearMap'):
        R = field(TH, 'map')
        for f, ts, tt in cpx_ctors(ctx, u, cls, 'map'):
            if tt != 'CellularMap':
                continue
            fm = par(f, 0, u)
            fk = lambda k: app('new ColumnMatrix', ix(field(fm, 'cell_map'), k))
            ctx.function(f)
            for p in eng(u, f):
                N = [add(app('maxdim', fm), 1)]
                key = '%s/%d' % (cls, len(f.d['ps']))
                if len(f.d['ps']) == 5:
                    X, A, Y, B = (par(f, i, u) for i in range(1, 5))
                    sc = lambda C, S, k: app('sorted_complement', app('get_indices', C, S, k), app('ncells', C, k))
                    r = lambda k: [app('new ColumnMatrix', app('submatrix', ix(field(fm, 'cell_map'), k), sc(Y, B, k), sc(X, A, k)))]
                    table(ctx, f, p, 'relative ChainMap', R, r(0), r, N, key)
                    sorted_use(ctx, f, p, 'relative ChainMap', key, set())
                    sizes(ctx, f, p, 'relative ChainMap', R, N, key)
                    continue
                d = -1
                if len(f.d['ps']) == 2:
                    d = degree_of(p, par(f, 1, u))
                    if d == 0:
                        ctx.check(p.exit == 'throw', 'R17-degree', f.loc(), '%s accepts a degree that is neither -1 nor +1' % cls, cls + '/degree')
                        continue
                    if d is None:
                        rec(ctx, "degrees")
                        continue
                    ctx.check(p.exit != 'throw', 'R17-degree', f.loc(), '%s rejects degree %d' % (cls, d), cls + '/degree')
                r = lambda k: [fk(k) if d == -1 else app('transpose', fk(k))]
                table(ctx, f, p, '%s of degree %d' % (cls, d), R, r(0), r, N, '%s/%d' % (key, d))
                sizes(ctx, f, p, cls, R, N, key)


# ------------------------------------------------------------------ blocks
def returned(p):
    """the local table a derived complex is made from"""
    v = unld(p.val) if p.val is not None else None
    while isinstance(v, tuple) and v[0] == 'app' and str(v[1]).startswith('new ') and len(v[2]) == 1:
        v = unld(v[2][0])
    return v


def blocks(ctx, u):
    B = field(TH, 'boundary')
    n = lambda k: field(ix(B, k), 'n')
    for name in ('subcomplex', 'relative_complex'):
        for f in methods(u, 'ChainComplex', name):
            I = par(f, 0, u)
            ctx.function(f)
            for p in eng(u, f):
                if p.exit != 'ret':
                    continue
                R = returned(p)
                sc = lambda k: app('sorted_complement', ix(I, k), n(k))
                if name == 'subcomplex':
                    a0, r = [app('new ColumnMatrix', 1, size_of(ix(I, 0)))], lambda k: [app('submatrix', ix(B, k), ix(I, sub(k, 1)), ix(I, k))]
                else:
                    a0, r = [app('new ColumnMatrix', 1, sub(n(0), size_of(ix(I, 0))))], lambda k: [app('submatrix', ix(B, k), sc(sub(k, 1)), sc(k)), app('submatrix', ix(B, k), app('sorted_complement', ix(I, sub(k, 1)), field(ix(B, k), 'm')), sc(k))]
                N = [add(app('maxdim', TH), 1), size_of(B)]
                if not table(ctx, f, p, name, R, a0, r, N, name):
                    rec(ctx, "blocks")
                sizes(ctx, f, p, name, R, N, name)
                sorted_use(ctx, f, p, name, name, {I})
    for f in methods(u, 'ChainMap', 'relative_map'):
        I, J = par(f, 0, u), par(f, 1, u)
        M = field(TH, 'map')
        ctx.function(f)
        for p in eng(u, f):
            if p.exit != 'ret':
                continue
            R = returned(p)
            r = lambda k: [app('submatrix', ix(M, k), app('sorted_complement', ix(I, k), field(ix(M, k), 'm')), app('sorted_complement', ix(J, k), field(ix(M, k), 'n')))]
            N = [size_of(M), add(app('maxdim', TH), 1)]
            if not table(ctx, f, p, 'relative_map', R, r(0), r, N, 'relative_map'):
                rec(ctx, "blocks")
            sizes(ctx, f, p, 'relative_map', R, N, 'relative_map')
            sorted_use(ctx, f, p, 'relative_map', 'relative_map', {I, J})


# ------------------------------------------------------------------ accessors
def accessors(ctx, u):
    for cls, tab, dg in (('ChainComplex', 'boundary', 0), ('DGVectorSpace', 'differential', 1), ('ChainMap', 'map', 0), ('DGLinearMap', 'map', 0)):
        T = field(TH, tab)
        for name in ('maxdim', 'dim', 'operator[]'):
            for f in methods(u, cls, name):
                if len(f.d['ps']) > 1:
                    continue
                for p in eng(u, f):
                    if p.exit != 'ret' or p.val is None:
                        continue
                    w = '%s::%s' % (cls, name)
                    v = canon(p.val)
                    if name == 'maxdim':
                        want = [sub(size_of(T), 2 if dg else 1)]
                    elif not f.d['ps']:
                        total(ctx, f, p, T, w)
                        continue
                    else:
                        k = par(f, 0, u)
                        i = k
                        if dg:
                            fa = Facts([it for it in p.trace if isinstance(it, Cond)])
                            h = fa.holds('==', field(TH, 'degree'), -1)
                            if h is None:
                                h1 = fa.holds('==', field(TH, 'degree'), 1)
                                h = None if h1 is None else not h1
                            if h is None:
                                if known(v) and not any(x == field(TH, 'degree') for y in [v] + [c.t for c in p.trace if isinstance(c, Cond)] for x in subterms(unld(y))):
                                    ctx.bad('R17-accessor', f.loc(), '%s is %s for either degree' % (w, show(v)), w)
                                else:
                                    rec(ctx, "accessors")
                                continue
                            i = k if h else add(k, 1)
                        want = [ix(T, i)] if name == 'operator[]' else [field(ix(T, i), 'n')]
                    want = [canon(x) for x in want]
                    if v in want:
                        ctx.check(True, 'R17-accessor', f.loc(), '', w)
                        ctx.count("definitions")
                    elif known(v):
                        ctx.bad('R17-accessor', f.loc(), '%s is %s, expected %s' % (w, show(v), show(want[0])), w)
                    else:
                        rec(ctx, "accessors")
    # validity checks
    for f in methods(u, 'ChainComplex', 'is_valid_complex'):
        B = field(TH, 'boundary')
        ctx.function(f)
        for p in eng(u, f):
            for it in p.trace:
                if not isinstance(it, Loop):
                    continue
                tr = trip(it)
                if tr is None:
                    rec(ctx, "validity checks")
                    continue
                s = tr[0]
                for q in it.paths:
                    for e in q.trace:
                        if isinstance(e, Ev) and short(e.name) == 'operator*' and e.obj is not None:
                            a, b = canon(e.obj), canon(e.args[0])
                            if a[0] == 'ix' and b[0] == 'ix' and a[1] == B and b[1] == B:
                                ca, cb = coef(a[2], s), coef(b[2], s)
                                if ca and cb and ca[0] == cb[0] == 1 and is_num(ca[1]):
                                    ctx.count("definitions")
                                    ctx.check(cb[1] == add(ca[1], 1), 'R17-valid', f.loc(e.line), 'is_valid_complex multiplies %s and %s' % (show(a), show(b)), 'valid/product')
                                    lo, hi = canon(add(tr[1], ca[1])), canon(add(tr[2], ca[1]))
                                    want = [app('maxdim', TH), sub(size_of(B), 1)]
                                    ctx.check(not definite(lo, 0) and not (hi not in want and any(definite(hi, x) for x in want)) and tr[3] in (1, -1), 'R17-valid', f.loc(it.line), 'is_valid_complex checks the products %s .. %s, not 0 .. %s' % (show(lo), show(sub(hi, 1)), show(sub(want[0], 1))), 'valid/range')
                    z = [c for c in q.trace if isinstance(c, Cond) and any(isinstance(x, tuple) and x and x[0] == 'app' and short(str(x[1])) == 'is_zero' for x in subterms(unld(c.t)))]
                    if z and q.exit == 'ret' and q.val is not None and is_num(unld(q.val)):
                        ctx.check(not z[-1].pol and unld(q.val) == 0, 'R17-valid', f.loc(), 'is_valid_complex answers %s after %s product' % (show(q.val), 'one zero' if z[-1].pol else 'a nonzero'), 'valid/answer')
            if p.exit == 'ret' and p.val is not None and is_num(unld(p.val)) and not any(isinstance(it, Leave) and it.path.exit == 'ret' for it in p.trace):
                nz = [it for it in p.trace if isinstance(it, Leave) and any(isinstance(c, Cond) and 'is_zero' in repr(c.t) and not c.pol for c in it.path.trace)]
                if any(isinstance(it, Loop) for it in p.trace):
                    ctx.check(unld(p.val) == (0 if nz else 1), 'R17-valid', f.loc(), 'is_valid_complex answers %s when %s product is nonzero' % (show(p.val), 'a' if nz else 'no'), 'valid/answer')
    for f in methods(u, 'DGVectorSpace', 'is_differential'):
        D, k = field(TH, 'differential'), par(f, 0, u)
        for p in eng(u, f):
            v = canon(p.val) if p.val is not None else None
            a = ix(D, add(k, field(TH, 'degree')))
            want = app('is_zero', app('operator*', a, ix(D, k)))
            if v == want:
                ctx.count("definitions")
                ctx.check(True, 'R17-valid', f.loc(), '', 'is_differential')
            elif v is not None and known(v, ('is_zero', 'operator*')):
                ctx.bad('R17-valid', f.loc(), 'is_differential is %s' % show(v), 'is_differential')
            else:
                rec(ctx, "validity checks")


def total(ctx, f, p, T, w):
    for it in p.trace:
        if not isinstance(it, Loop):
            continue
        tr = trip(it)
        if tr is None or tr[3] != 1:
            continue
        for d, (nm, sy) in it.syms.items():
            if sy == tr[0]:
                continue
            ds = [canon(sub(q.env[d], sy)) for q in cont(it) if d in q.env]
            s0 = unld(it.start.get(d))
            want = field(ix(T, tr[0]), 'n')
            hi = canon(tr[2])
            off = coef(hi, app('maxdim', TH))
            if off is not None and off[0] == 1 and 'ChainComplex' in w:
                hi = add(sub(size_of(T), 1), off[1])
            if len(ds) == 1 and known(ds[0]) and s0 is not None:
                ctx.count("definitions")
                ctx.check(s0 == 0 and ds[0] == want and tr[1] == 0 and not definite(hi, size_of(T)), 'R17-accessor', f.loc(it.line), '%s sums %s over [%s, %s) from %s' % (w, show(ds[0]), show(tr[1]), show(tr[2]), show(s0)), w + '/total')


def wrappers(ctx, u):
    for name in ('__ChainComplex', 'Chain', '__CochainComplex', 'Cochain'):
        for f in inst(u, name):
            if not f.d['ps'] or f.d.get('cls'):
                continue
            ts = [u.type(q['t']).split('<')[0].replace('const', '').replace('&', '').strip().split('::')[-1] for q in f.d['ps']]
            if ts[0] not in ('SimplicialComplex', 'CubicalComplex', 'LightSimplicialComplex', 'CellComplex', 'CellularMap'):
                continue
            nargs = len(ts) - 1
            for p in Engine(u, vocab=lambda n, x: True).run(f):
                v = unld(p.val) if p.val is not None else None
                if not (isinstance(v, tuple) and v[0] == 'app'):
                    continue
                a = [unld(x) for x in v[2]][:nargs]
                want = [par(f, i, u) for i in range(nargs)]
                if all(isinstance(x, tuple) and x[0] != 'app' for x in a):
                    ctx.count("definitions")
                    ctx.check(a == want, 'R17-wrapper', f.loc(), '%s passes %s' % (name, ', '.join(map(show, a))), name)


# ------------------------------------------------------------------ tensor products
def isapp(t, n, k=None):
    return isinstance(t, tuple) and t and t[0] == 'app' and t[1] == n and (k is None or len(t[2]) == k)


def dims(t, C, k):
    """is t the dimension of degree k of C"""
    return t in (field(ix(field(C, 'boundary'), k), 'n'), app('ncells', C, k), field(ix(C, k), 'n'))


def tensors(ctx, u, f, A, B, CA, CB, key, extra=()):
    """columns of the tensor product; A, B: factors whose cells are counted, CA, CB: their chain complexes"""
    ctx.function(f)
    for p in eng(u, f, extra, maxpaths=20000):
        C = unld(p.val) if p.val is not None else None
        if not (isinstance(C, tuple) and C[0] in ('v', 'sym')):
            rec(ctx, "tensor products")
            continue
        for it in p.trace:
            if not isinstance(it, Loop):
                continue
            tn = trip(it)
            if tn is None or not has([it], lambda e: short(e.name) == 'append_column'):
                continue
            n = tn[0]
            for q in cont(it):
                degree_n(ctx, u, f, q, n, tn, A, B, CA, CB, C, key)


def dimterm(t, cands):
    return canon(t) in [canon(x) for x in cands]


def degree_n(ctx, u, f, q, n, tn, A, B, CA, CB, C, key):
    Tb = field(C, 'boundary')
    fa = Facts([x for x in q.trace if isinstance(x, Cond)])
    z = zero(fa, n)
    dimA = lambda p: [field(ix(field(CA, 'boundary'), p), 'n'), app('ncells', A, p)]
    dimB = lambda p: [field(ix(field(CB, 'boundary'), p), 'n'), app('ncells', B, p)]
    # start of the differential
    for e in q.trace:
        if isinstance(e, Ev) and e.k == 'set' and e.obj is not None:
            o = canon(e.obj)
            if isinstance(o, tuple) and o[0] == 'ix' and o[1] == Tb:
                v = canon(e.args[0])
                if not isapp(v, 'new ColumnMatrix', 2):
                    rec(ctx, "tensor starts")
                    continue
                r, c = v[2]
                ctx.count("definitions")
                if z is True:
                    wants = [mul(a, b) for a in dimA(0) for b in dimB(0)]
                    if known(c):
                        ctx.check(r == 1 and c in wants and o[2] in (0, n), 'R17-tensor', f.loc(e.line), 'the tensor product starts with %s in dimension %s' % (show(v), show(o[2])), key + '/start0')
                elif z is False:
                    wants = [field(ix(Tb, sub(n, 1)), 'n')]
                    if known(r) and known(c):
                        ctx.check(o[2] == n and r in wants and c == 0, 'R17-tensor', f.loc(e.line), 'differential %s of the tensor product starts as %s' % (show(o[2]), show(v)), key + '/start')
    if z is True:
        return
    # pairs of degrees
    for it in q.trace:
        if not isinstance(it, Loop) or not has([it], lambda e: short(e.name) == 'append_column'):
            continue
        tp = trip(it)
        if tp is None:
            rec(ctx, "tensor degrees")
            continue
        p_ = tp[0]
        # shift accumulator
        acc = None
        for d, (nm, sy) in it.syms.items():
            if sy == p_:
                continue
            acc = (d, sy, unld(it.start.get(d)))
        lo, hi = canon(tp[1]), canon(tp[2])
        ctx.check(not definite(lo, 0) and not definite(hi, add(n, 1)) and tp[3] == 1, 'R17-tensor', f.loc(it.line), 'degree n of the tensor product takes the first factor of degrees [%s, %s)' % (show(lo), show(hi)), key + '/degrees')
        tabs = set()
        for r in cont(it):
            inrange = {}
            for c in r.trace:
                if isinstance(c, Cond) and c.t[0] == 'cmp' and c.t[1] == '<':
                    a, b = canon(c.t[2]), canon(c.t[3])
                    for nm, F, CF, dd in (('A', A, CA, p_), ('B', B, CB, sub(n, p_))):
                        ms = (app('maxdim', F), app('maxdim', CF), sub(size_of(field(CF, 'boundary')), 1))
                        if a in ms and b == dd:
                            inrange[nm] = not c.pol
                        elif a == dd and any(is_num(sub(b, m)) and sub(b, m) != 1 for m in ms):
                            ctx.bad('R17-tensor', f.loc(it.line), 'degree %s of the %s factor is taken only below %s' % (show(a), 'first' if nm == 'A' else 'second', show(b)), key + '/range')
                        elif isinstance(a, tuple) and a[0] == 'app' and a[1] == 'maxdim' and b in (p_, sub(n, p_)) and a not in [app('maxdim', x) for x in (A, B, CA, CB)]:
                            pass
                        elif a in ms and b != dd and known(b) and is_num(sub(b, p_)) or a in ms and b != dd and is_num(sub(b, sub(n, p_))):
                            ctx.bad('R17-tensor', f.loc(it.line), 'degree %s of the %s factor is compared with its maximal dimension' % (show(b), 'first' if nm == 'A' else 'second'), key + '/range')
            app_ = has(r.trace, lambda e: short(e.name) == 'append_column')
            out = 'A' in inrange and not inrange['A'] or 'B' in inrange and not inrange['B']
            if out:
                ctx.check(not app_, 'R17-tensor', f.loc(it.line), 'columns are added for a degree beyond the factors', key + '/range')
            elif app_ and acc is not None:
                about = [unld(c.t) for c in r.trace if isinstance(c, Cond)] + [unld(tp[1]), unld(tp[2])]
                calls = any(isinstance(s, tuple) and s and s[0] == 'app' and short(str(s[1])) not in ('maxdim', 'max', 'min', 'ncells', 'new ColumnMatrix') for t in about for s in subterms(t))
                for nm, F, CF in (('first', A, CA), ('second', B, CB)):
                    ctx.check(calls or any(s in (F, CF) for t in about for s in subterms(t)), 'R17-tensor', f.loc(it.line), 'columns are added for any degree of the %s factor, whatever its dimension' % nm, key + '/range')
            if inrange.get('A') and inrange.get('B') and not out:
                ctx.check(app_, 'R17-tensor', f.loc(it.line), 'no columns are added for a pair of degrees of the factors', key + '/range')
            # accumulator
            if acc is not None and acc[0] in r.env:
                dlt = canon(sub(r.env[acc[0]], acc[1]))
                ok0 = acc[2] == 0
                ctx.check(ok0 or not is_num(acc[2]) and not known(acc[2]), 'R17-shift', f.loc(it.line), 'the shift of degree n starts at %s' % show(acc[2]), key + '/shift0')
                if app_:
                    want = [mul(a, b) for a in dimA(p_) for b in dimB(sub(n, p_))]
                    if dlt in want:
                        ctx.count("definitions")
                        ctx.check(True, 'R17-shift', f.loc(it.line), '', key + '/shift')
                    elif known(dlt):
                        ctx.bad('R17-shift', f.loc(it.line), 'the shift grows by %s for a block of %s columns' % (show(dlt), show(want[0])), key + '/shift')
                elif out:
                    ctx.check(dlt == 0 or not known(dlt), 'R17-shift', f.loc(it.line), 'the shift grows by %s without columns' % show(dlt), key + '/shift')
                # stored before it grows
                for e in r.trace:
                    if isinstance(e, Ev) and e.k == 'set' and e.obj is not None:
                        o = canon(e.obj)
                        if isinstance(o, tuple) and o[0] == 'ix' and isinstance(o[1], tuple) and o[1][0] == 'ix':
                            tabs.add(o[1][1])
                            i, j = o[1][2], o[2]
                            ctx.count("definitions")
                            ctx.check((i, j) == (p_, sub(n, p_)) or not (known(i) and known(j)), 'R17-shift', f.loc(e.line), 'the shift of degrees (p, n-p) is kept at (%s, %s)' % (show(i), show(j)), key + '/kept')
                            v = canon(e.args[0])
                            ctx.check(v == acc[1] or not known(v), 'R17-shift', f.loc(e.line), 'the shift is kept as %s' % show(v), key + '/kept')
            if app_:
                cells(ctx, u, f, r, n, p_, fa, A, B, CA, CB, Tb, dimA, dimB, tabs, key)


def cells(ctx, u, f, r, n, p_, fa0, A, B, CA, CB, Tb, dimA, dimB, tabs, key):
    q_ = sub(n, p_)
    for La in r.trace:
        if not isinstance(La, Loop) or not has([La], lambda e: short(e.name) == 'append_column'):
            continue
        ta = trip(La)
        for s in cont(La):
            for Lb in s.trace:
                if not isinstance(Lb, Loop) or not has([Lb], lambda e: short(e.name) == 'append_column'):
                    continue
                tb = trip(Lb)
                if ta is None or tb is None:
                    rec(ctx, "tensor cells")
                    continue
                i, j = ta[0], tb[0]
                for (t, D, nm, deg_) in ((ta, dimA, 'first', p_), (tb, dimB, 'second', q_)):
                    hi = canon(t[2])
                    if known(hi):
                        ctx.check(t[1] == 0 and t[3] == 1 and hi in D(deg_), 'R17-tensor', f.loc(La.line), 'the cells of the %s factor run over [%s, %s)' % (nm, show(t[1]), show(hi)), key + '/cells')
                for x in cont(Lb):
                    cds = [c for y in (r.trace, s.trace, x.trace) for c in y if isinstance(c, Cond)]
                    local = {}
                    for e in x.trace:
                        if isinstance(e, Ev) and e.k == 'set' and e.obj is not None:
                            local[unld(e.obj)] = e.args[0]
                        if isinstance(e, Ev) and short(e.name) == 'append_column' and e.obj is not None and len(e.args) == 1 and canon(e.obj)[0] == 'ix' and canon(e.obj)[1] == Tb:
                            v = unld(e.args[0])
                            v = canon(local.get(v, v))
                            o = canon(e.obj)
                            ctx.check(o[2] == n or not known(o[2]), 'R17-tensor', f.loc(e.line), 'a column of degree n is added to differential %s' % show(o[2]), key + '/column')
                            leibniz(ctx, f, e, v, i, j, n, p_, q_, cds, CA, CB, dimA, dimB, key, [c for y in (s.trace, x.trace) for c in y if isinstance(c, Cond) and not loopcond(c, [(La, s), (Lb, x)])])


def ev(t, env):
    """integer value of a term under env, or None"""
    t = unld(t)
    if t in env:
        return env[t]
    if isinstance(t, tuple) and t and t[0] == 'app' and t[1] in ('&', '%') and len(t[2]) == 2:
        a, b = ev(t[2][0], env), ev(t[2][1], env)
        return None if a is None or b is None or b == 0 and t[1] == '%' else int(a) & int(b) if t[1] == '&' else int(a) % int(b)
    if isinstance(t, tuple) and t and t[0] == 'poly':
        out = 0
        for m, c in t[1]:
            x = c
            for a in m:
                v = ev(a, env)
                if v is None:
                    return None
                x = x * v
            out += x
        return out
    return evald(canon13(t), env)


def parity_ok(cds, p_, sign, n):
    """is `sign` the parity of p for every small p that satisfies the conditions: True / False / None"""
    ok, unsure = None, False
    for v, nn in [(v, nn) for nn in range(7) for v in range(nn + 1)]:
        live = True
        for c in cds:
            t = unld(c.t)
            if not any(s == p_ for s in subterms(t)):
                continue
            r = None
            if t[0] == 'cmp':
                a, b = ev(t[2], {p_: v, n: nn}), ev(t[3], {p_: v, n: nn})
                if a is not None and b is not None:
                    r = {'<': a < b, '==': a == b, '<=': a <= b}.get(t[1])
                elif t[1] != '<':
                    unsure = True
            else:
                x = ev(t[1] if len(t) == 2 else t, {p_: v, n: nn})
                r = None if x is None else bool(x)
                if r is None:
                    unsure = True
            if r is not None and r != c.pol:
                live = False
        if not live:
            continue
        if sign != (-1) ** v:
            return None if unsure else False
        ok = True
    return ok


def leibniz(ctx, f, e, v, i, j, n, p_, q_, cds, CA, CB, dimA, dimB, key, cell):
    loc = f.loc(e.line)
    if not isapp(v, 'operator+', 2):
        rec(ctx, "tensor columns")
        return
    fa = Facts(cds)
    terms = {}
    for t in v[2]:
        if not isapp(t, 'shift_inds', 2) or not isapp(t[2][0], 'kron', 3):
            rec(ctx, "tensor columns")
            return
        a, b, st = t[2][0][2]
        terms['d' if isapp(b, 'new SparseVector') else 'x'] = (a, b, st, t[2][1])
    if set(terms) != {'d', 'x'}:
        rec(ctx, "tensor columns")
        return
    ctx.count("definitions")

    def unit(t):
        return (t[2][0], t[2][1] if len(t[2]) > 1 else 1) if isapp(t, 'new SparseVector') and 1 <= len(t[2]) <= 2 else None
    colA = ix(field(ix(field(CA, 'boundary'), p_), 'col'), i)
    colB = ix(field(ix(field(CB, 'boundary'), q_), 'col'), j)

    def same(got, want, what):
        if got in want:
            ctx.check(True, 'R17-leibniz', loc, '', key + '/' + what)
        elif known(got):
            ctx.bad('R17-leibniz', loc, 'column of a (x) b: %s is %s, expected %s' % (what, show(got), show(want[0])), key + '/' + what)

    def about_other(c, d):
        o = q_ if d == p_ else p_
        t = unld(c.t)
        return t[0] == 'cmp' and {t[2] == o or is_num(t[2]), t[3] == o or is_num(t[3])} == {True}

    def shift(got, zerodeg, i_, j_, what):
        z = zero(fa, zerodeg)
        if isinstance(got, tuple) and got[0] == 'ix' and isinstance(got[1], tuple) and got[1][0] == 'ix':
            ctx.check((got[1][2], got[2]) == (i_, j_) or not (known(got[1][2]) and known(got[2])), 'R17-leibniz', loc, '%s is shifted as block (%s, %s), expected (%s, %s)' % (what, show(got[1][2]), show(got[2]), show(i_), show(j_)), key + '/shift ' + what)
            if z is None and not any(any(y == p_ for y in subterms(unld(c.t))) and not any(isinstance(y, tuple) and y and y[0] == 'app' and y[1] in ('&', '%') for y in subterms(unld(c.t))) and not about_other(c, zerodeg) for c in cell):
                z = True
            ctx.check(z is not True, 'R17-leibniz', loc, '%s reads a shift outside the table when the degree is zero' % what, key + '/shift ' + what)
        elif is_num(got):
            ctx.check(z is True, 'R17-leibniz', loc, '%s is shifted by %s although its degree is not zero' % (what, show(got)), key + '/shift ' + what)
    a, b, st, sh = terms['d']
    same(a, [canon(colA)], 'da')
    same(b[2][0], [j], 'the cell of da (x) b')
    ub = unit(b)
    if ub and is_num(ub[1]):
        ctx.check(ub[1] == 1, 'R17-leibniz', loc, 'da (x) b has coefficient %s' % show(ub[1]), key + '/coefficient')
    same(st, dimB(q_), 'the stride of da (x) b')
    shift(sh, p_, sub(p_, 1), q_, 'da (x) b')
    a, b, st, sh = terms['x']
    ua = unit(a)
    if ua is None:
        rec(ctx, "tensor columns")
        return
    same(ua[0], [i], 'the cell of a (x) db')
    same(b, [canon(colB)], 'db')
    same(st, [field(ix(field(CB, 'boundary'), q_), 'm')] + dimB(sub(q_, 1)), 'the stride of a (x) db')
    shift(sh, q_, p_, sub(q_, 1), 'a (x) db')
    sg = ua[1]
    if is_num(sg):
        r = parity_ok(cds, p_, sg, n)
        ctx.check(r is not False, 'R17-leibniz', loc, 'a (x) db has sign %s for a degree p of the wrong parity' % show(sg), key + '/sign')
    else:
        rec(ctx, "signs")


def kron_shift(ctx, u):
    for f in inst(u, 'kron_chain_shift'):
        dx, X, dy, Y = (par(f, i, u) for i in range(4))
        ctx.function(f)
        for p in eng(u, f):
            for it in p.trace:
                if not isinstance(it, Loop):
                    continue
                tr = trip(it)
                accs = [(d, sy) for d, (nm, sy) in it.syms.items() if tr and sy != tr[0]]
                if tr is None or len(accs) != 1:
                    rec(ctx, "kron shifts")
                    continue
                d, sy = accs[0]
                k = tr[0]
                ctx.check(not definite(tr[1], 0) and not definite(canon(tr[2]), dx) and tr[3] == 1, 'R17-kron', f.loc(it.line), 'kron_chain_shift sums over [%s, %s), not over the degrees below dx' % (show(tr[1]), show(tr[2])), 'kron_shift/range')
                s0 = unld(it.start.get(d))
                ctx.check(s0 == 0 or not is_num(s0), 'R17-kron', f.loc(it.line), 'kron_chain_shift starts at %s' % show(s0), 'kron_shift/start')
                other = sub(add(dx, dy), k)
                for q in cont(it):
                    dlt = canon(sub(q.env[d], sy)) if d in q.env else None
                    if dlt is None:
                        continue
                    out = None
                    for c in q.trace:
                        if isinstance(c, Cond) and c.t[0] == 'cmp' and c.t[1] == '<':
                            a, b = canon(c.t[2]), canon(c.t[3])
                            if isapp(a, 'maxdim', 1) and a[2][0] in (X, Y):
                                dd = k if a[2][0] == X else other
                                if X != Y:
                                    ctx.check(b == dd or not known(b), 'R17-kron', f.loc(it.line), 'kron_chain_shift compares %s with %s' % (show(b), show(a)), 'kron_shift/range')
                                if c.pol:
                                    out = True
                    if out:
                        ctx.check(dlt == 0 or not known(dlt), 'R17-kron', f.loc(it.line), 'kron_chain_shift counts a degree beyond the factors', 'kron_shift/term')
                        continue
                    if known(dlt):
                        # product of the dimensions of degree k and dx+dy-k
                        ctx.count("definitions")
                        fs = factors(dlt)
                        good = fs is not None and len(fs) == 2 and any(indices(x, X) == [k] and indices(y, Y) == [other] for x, y in (fs, fs[::-1]))
                        ctx.check(good, 'R17-kron', f.loc(it.line), 'kron_chain_shift adds %s for the degrees (k, dx+dy-k)' % show(dlt), 'kron_shift/term')


def factors(t):
    ms = list(poly(t).items())
    return list(ms[0][0]) if len(ms) == 1 and ms[0][1] == 1 else None


def indices(t, C):
    """indices into the tables of C that a dimension reads"""
    out = []
    if isapp(t, 'ncells', 2) and t[2][0] == C:
        return [t[2][1]]
    while isinstance(t, tuple) and t[0] in ('f', 'size'):
        t = t[1]
    if isinstance(t, tuple) and t[0] == 'ix' and any(s == C for s in subterms(t[1])):
        return [t[2]]
    return out


def kron_indices(ctx, u):
    for f in inst(u, 'kron_index'):
        X, AI, Y, BI, md = (par(f, i, u) for i in range(5))
        ctx.function(f)
        for p in eng(u, f, maxpaths=20000):
            if p.exit == 'throw':
                continue
            R = returned(p)
            sortlists(ctx, f, p, {AI})
            for it in p.trace:
                if not isinstance(it, Loop):
                    continue
                tn = trip(it)
                if tn is None or not has([it], lambda e: e.obj is not None and canon(e.obj)[0:2] == ('ix', R) if isinstance(canon(e.obj), tuple) else False):
                    continue
                n = tn[0]
                ctx.check(not definite(tn[1], 0) and not definite(canon(tn[2]), add(md, 1)), 'R17-kron', f.loc(it.line), 'kron_index fills the dimensions [%s, %s)' % (show(tn[1]), show(tn[2])), 'kron_index/dims')
                for q in cont(it):
                    z = zero(Facts([c for c in q.trace if isinstance(c, Cond)]), n)
                    got = []
                    last = None
                    for k_, x in enumerate(q.trace):
                        if isinstance(x, Loop):
                            if has([x], lambda e: short(e.name) in ('emplace_back', 'push_back')):
                                last = k_
                            tr = trip(x)
                            if has([x], lambda e: short(e.name) in ('emplace_back', 'push_back')) and x.kind != 'rfor' and tr and z is not True:
                                pair(ctx, f, x, tr, n, X, AI, Y, BI, R)
                            elif has([x], lambda e: short(e.name) in ('emplace_back', 'push_back')):
                                got.append(x)
                    if z is True:
                        lists(ctx, f, got, 0, 0, 0, X, AI, Y, BI, R, 0, n)
                    fin = [k_ for k_, e in enumerate(q.trace) if isinstance(e, Ev) and e.k == 'call' and short(e.name) in SORTERS and listof(e) in (ix(R, n), ix(R, 0) if z is True else None)]
                    if last is not None:
                        oth = [e for e in q.trace[last + 1:] if isinstance(e, Ev) and e.k == 'call']
                        ctx.check(bool(fin) and fin[-1] > last or bool(oth) and not fin, 'R17-sorted', f.loc(it.line), 'kron_index does not sort the indices of a dimension', 'kron_index/sorted')


def pair(ctx, f, L, tr, n, X, AI, Y, BI, R):
    k = tr[0]
    ctx.check(not definite(tr[1], 0) and not definite(canon(tr[2]), add(n, 1)), 'R17-kron', f.loc(L.line), 'kron_index pairs the degrees [%s, %s)' % (show(tr[1]), show(tr[2])), 'kron_index/degrees')
    accs = [(d, sy) for d, (nm, sy) in L.syms.items() if sy != k]
    other = sub(n, k)
    for q in cont(L):
        loops = [x for x in q.trace if isinstance(x, Loop) and has([x], lambda e: short(e.name) in ('emplace_back', 'push_back'))]
        dlt = canon(sub(q.env[accs[0][0]], accs[0][1])) if len(accs) == 1 else None
        if dlt is not None and accs:
            s0 = unld(L.start.get(accs[0][0]))
            ctx.check(s0 == 0 or not is_num(s0), 'R17-kron', f.loc(L.line), 'the shift of kron_index starts at %s' % show(s0), 'kron_index/shift')
        if not loops:
            if dlt is not None and known(dlt):
                ctx.check(dlt == 0, 'R17-kron', f.loc(L.line), 'the shift of kron_index grows by %s without cells' % show(dlt), 'kron_index/shift')
            fa = [c for c in q.trace if isinstance(c, Cond) and c.t[0] == 'cmp' and isapp(canon(c.t[2]), 'maxdim', 1) and c.pol]
            cs = [c for c in q.trace if isinstance(c, Cond)]
            ctx.check(bool(fa) or len(cs) > 3, 'R17-kron', f.loc(L.line), 'kron_index skips a pair of degrees', 'kron_index/skips')
            continue
        if dlt is not None and known(dlt):
            want = mul(app('ncells', X, k), app('ncells', Y, other))
            ctx.count("definitions")
            ctx.check(dlt == want, 'R17-kron', f.loc(L.line), 'the shift of kron_index grows by %s, expected %s' % (show(dlt), show(want)), 'kron_index/shift')
        lists(ctx, f, loops, k, other, accs[0][1] if len(accs) == 1 else None, X, AI, Y, BI, R, n, n)


def lists(ctx, f, loops, k, other, sh, X, AI, Y, BI, R, dim, n):
    """the two blocks A x Y and (X minus A) x B of one pair of degrees"""
    kinds = []
    for La in loops:
        rng = canon(La.rng) if La.kind == 'rfor' else None
        comp = app('sorted_complement', ix(AI, k), app('ncells', X, k))
        if rng == ix(AI, k):
            kind = 'A'
        elif rng == comp:
            kind = 'X-A'
        elif rng is not None and known(rng):
            ctx.bad('R17-kron', f.loc(La.line), 'kron_index runs over %s, neither the cells of A nor those outside it' % show(rng), 'kron_index/lists')
            continue
        else:
            rec(ctx, "kron lists")
            continue
        a = ix(rng, La.var)
        for s in cont(La):
            for Lb in s.trace:
                if not isinstance(Lb, Loop):
                    continue
                tb = trip(Lb)
                if tb is None:
                    rec(ctx, "kron lists")
                    continue
                if Lb.kind == 'rfor':
                    r2 = canon(Lb.rng)
                    if r2 == ix(BI, other):
                        kb = 'B'
                    elif known(r2):
                        ctx.bad('R17-kron', f.loc(Lb.line), 'kron_index pairs with the cells %s' % show(r2), 'kron_index/lists')
                        continue
                    else:
                        continue
                    b = ix(r2, Lb.var)
                else:
                    hi = canon(tb[2])
                    ctx.check(tb[1] == 0 and (hi == app('ncells', Y, other) or not known(hi)), 'R17-kron', f.loc(Lb.line), 'kron_index pairs with the cells [%s, %s) of Y' % (show(tb[1]), show(hi)), 'kron_index/lists')
                    kb, b = 'Y', tb[0]
                kinds.append((kind, kb))
                for x in cont(Lb):
                    for e in x.trace:
                        if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back'):
                            v = canon(e.args[0])
                            o = canon(e.obj)
                            want = add(add(mul(canon(a), app('ncells', Y, other)), canon(b)), sh if sh is not None else 0)
                            ctx.count("definitions")
                            if v != want and known(v) and sh is not None:
                                ctx.bad('R17-kron', f.loc(e.line), 'kron_index lists %s, expected %s' % (show(v), show(want)), 'kron_index/index')
                            else:
                                ctx.check(True, 'R17-kron', f.loc(e.line), '', 'kron_index/index')
                            if o[0] == 'ix' and o[1] == R:
                                ctx.check(o[2] in (dim, n) or not known(o[2]), 'R17-kron', f.loc(e.line), 'kron_index adds to dimension %s' % show(o[2]), 'kron_index/dim')
    ks = sorted(set(kinds))
    if ks and len(kinds) == len(loops):
        good = ks in ([('A', 'Y'), ('X-A', 'B')],)
        ctx.check(good and len(kinds) == 2, 'R17-kron', f.loc(loops[0].line), 'kron_index lists the blocks %s, not A x Y and (X minus A) x B' % ', '.join('%s x %s' % x for x in kinds), 'kron_index/blocks')


def sortlists(ctx, f, p, prm):
    """sorted_complement on a list of a parameter table that no loop sorted before"""
    done = False
    for it in p.trace:
        if isinstance(it, Loop):
            for q in cont(it):
                for e in q.trace:
                    if isinstance(e, Ev) and e.k == 'call' and short(e.name) in SORTERS:
                        x = listof(e)
                        if isinstance(x, tuple) and x[0] == 'ix' and x[1] in prm:
                            done = True
            if not done and has([it], lambda e: short(e.name) == 'sorted_complement'):
                sub_ = [e for q in it.paths for e in flat(q) if isinstance(e, Ev) and short(e.name) in SORTERS and isinstance(listof(e), tuple) and listof(e)[0] == 'ix' and listof(e)[1] in prm]
                ctx.check(bool(sub_), 'R17-sorted', f.loc(it.line), 'kron_index takes complements of index lists that were not sorted', 'kron_index/complement')
        elif isinstance(it, Ev) and it.k == 'call' and any(canon(a) in prm for a in it.args):
            done = True


# ------------------------------------------------------------------ apparent pairs
def apparent(ctx, u):
    B = field(TH, 'boundary')
    for f in methods(u, 'ChainComplex', 'clear_compress_apparent_pairs'):
        ctx.function(f)
        for p in eng(u, f, maxpaths=20000):
            for it in p.trace:
                if not isinstance(it, Loop):
                    continue
                tr = trip(it)
                if tr is None:
                    rec(ctx, "apparent pairs")
                    continue
                k = tr[0]
                md = app('maxdim', TH)
                ctx.check(not definite(canon(tr[2]), add(md, 1)) and (not is_num(tr[1]) or tr[1] <= 1), 'R17-apparent', f.loc(it.line), 'clear_compress_apparent_pairs treats the dimensions [%s, %s)' % (show(tr[1]), show(tr[2])), 'apparent/range')
                for q in cont(it):
                    round_(ctx, f, q, k, B, md)


def round_(ctx, f, q, k, B, md):
    M = ix(B, k)
    marks = {}          # list -> [(kind, conditions, line)]
    fresh = {}
    fa = Facts([c for c in q.trace if isinstance(c, Cond)])
    for it in q.trace:
        if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'fill':
            o = listof(it)
            fresh[o] = True
        elif isinstance(it, Ev) and it.k == 'set' and it.obj is not None:
            v = unld(it.args[0])
            if isinstance(v, tuple) and v[0] == 'app' and 'vector' in str(v[1]):
                fresh[canon(it.obj)] = True
        elif isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'assign' and it.obj is not None:
            fresh[canon(it.obj)] = True
        elif isinstance(it, Loop):
            tj = trip(it)
            if tj is None:
                continue
            j = tj[0]
            cell = ix(field(ix(field(M, 'col'), j), 'indval'), sub(size_of(field(ix(field(M, 'col'), j), 'indval')), 1))
            piv = canon(field(cell, 'ind'))
            for x in cont(it):
                seen = None
                order_ = []
                for n_, e in enumerate(x.trace):
                    if isinstance(e, Ev) and e.k == 'set' and e.obj is not None:
                        o = canon(e.obj)
                        if isinstance(o, tuple) and o[0] == 'ix' and isinstance(unld(e.args[0]), (int,)) or isinstance(o, tuple) and o[0] == 'ix' and is_num(unld(e.args[0])):
                            if unld(e.args[0]) == 1:
                                kind = 'row' if o[2] == piv else 'col' if o[2] == j else None
                                marks.setdefault(o[1], []).append((kind, x.trace[:n_], e.line, j, piv, x, o[2]))
                    elif isinstance(e, Loop):
                        for y in cont(e):
                            for g in y.trace:
                                if isinstance(g, Ev) and g.k == 'set' and g.obj is not None and is_num(unld(g.args[0])) and unld(g.args[0]) == 1:
                                    o = canon(g.obj)
                                    if isinstance(o, tuple) and o[0] == 'ix':
                                        marks.setdefault(o[1], []).append(('entries', x.trace[:n_], g.line, j, piv, x, e))
    uses = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('clear_cols', 'clear_rows')]
    for e in uses:
        o, lst = canon(e.obj), canon(e.args[0])
        nm = short(e.name)
        if not (o[0] == 'ix' and o[1] == B):
            rec(ctx, "apparent pairs")
            continue
        dl = sub(o[2], k)
        ctx.count("definitions")
        loc = f.loc(e.line)
        ms = marks.get(lst, [])
        kinds = {m[0] for m in ms}
        if nm == 'clear_cols':
            if is_num(dl):
                ctx.check(dl == -1, 'R17-apparent', loc, 'columns of differential k%+d are cleared by the pivots of differential k' % dl, 'apparent/clear')
            if kinds and None not in kinds:
                ctx.check(kinds == {'row'}, 'R17-apparent', loc, 'columns are cleared by marks of %s, not of pivot rows' % ', '.join(sorted(kinds)), 'apparent/clear')
        else:
            if is_num(dl):
                ctx.check(dl == 1, 'R17-apparent', loc, 'rows of differential k%+d are compressed by the columns of differential k' % dl, 'apparent/compress')
            if kinds and None not in kinds:
                ctx.check(kinds == {'col'}, 'R17-apparent', loc, 'rows are compressed by marks of %s, not of columns' % ', '.join(sorted(kinds)), 'apparent/compress')
            for m in ms:
                if m[0] != 'col':
                    continue
                # only under !seen[pivot row], where seen has every entry of every earlier column
                g = [c for c in m[1] if isinstance(c, Cond)]
                good = None
                for c in g:
                    for s in subterms(canon(c.t)):
                        if isinstance(s, tuple) and s and s[0] == 'ix' and s[1] in marks and any(mm[0] == 'entries' for mm in marks[s[1]]):
                            good = (s[1], s[2] == m[4], c.pol)
                low = [s for c in g for s in subterms(canon(c.t)) if isinstance(s, tuple) and s and s[0] == 'ix' and s[1] in marks and s[1] != lst]
                if good is None and low and all(mm[0] in ('row', 'col') for s in low for mm in marks[s[1]]):
                    ctx.bad('R17-apparent', f.loc(m[2]), 'whether an earlier column meets the pivot row is decided from marks that do not cover all entries of a column', 'apparent/guard')
                elif good is None:
                    others = [c for c in g if any(isinstance(s, tuple) and s and s[0] == 'app' for s in subterms(canon(c.t)))]
                    nested = [y for y in m[1] if isinstance(y, (Loop, Leave))]
                    ctx.check(bool(others) or bool(nested), 'R17-apparent', f.loc(m[2]), 'a row is compressed although an earlier column may reduce its column to zero', 'apparent/guard')
                else:
                    ctx.check(good[1] and not good[2], 'R17-apparent', f.loc(m[2]), 'a column is marked under the wrong condition on the rows seen before', 'apparent/guard')
                    # seen is complete: every column with entries adds all of them, after the test
                    S = good[0]
                    ctx.check(bool(fresh.get(S)), 'R17-apparent', f.loc(m[2]), 'the rows seen are kept from one dimension to the next', 'apparent/reset')
                    for Lx in [y for y in q.trace if isinstance(y, Loop)]:
                        for x in cont(Lx):
                            em = any(isinstance(c, Cond) and Facts([c]).empty(field(ix(field(M, 'col'), m[3]), 'indval')) for c in x.trace)
                            adds = [mm for mm in marks[S] if mm[0] == 'entries' and mm[5] is x]
                            if not em:
                                ctx.check(bool(adds), 'R17-apparent', f.loc(Lx.line), 'the rows of a column are not recorded as seen', 'apparent/seen')
                            for mm in adds:
                                te = trip(mm[6])
                                if te is not None:
                                    full = size_of(field(ix(field(M, 'col'), m[3]), 'indval'))
                                    ctx.check(not definite(te[1], 0) and not definite(canon(te[2]), full), 'R17-apparent', f.loc(mm[6].line), 'the rows seen of a column are its entries [%s, %s) only' % (show(te[1]), show(te[2])), 'apparent/seen')
    lows = zero(Facts([c for c in q.trace if isinstance(c, Cond)]), sub(k, 1))
    if not any(short(e.name) == 'clear_cols' for e in uses):
        big = fa.holds('<', 1, k)
        ctx.check(big is not True, 'R17-apparent', f.loc(), 'pivots of a differential clear nothing one dimension down', 'apparent/clear')
    for e in uses:
        if short(e.name) == 'clear_rows':
            h = fa.holds('<', k, md)
            if h is None:
                h = fa.holds('<', k, sub(size_of(B), 1))
            ctx.check(h is not False, 'R17-apparent', f.loc(e.line), 'rows are compressed beyond the last dimension', 'apparent/range')


def run(ctx):
    core, topo, alg = prog.load(['core', 'topo', 'algebra'])
    chain_ctors(ctx, topo)
    cochain_ctors(ctx, topo)
    dg_ctors(ctx, topo)
    map_ctors(ctx, topo)
    map_ctors(ctx, core)
    ctx.need(ctx.counts.get('tables', 0) > 4, 'anchor vanished: tables of chain complexes')
    blocks(ctx, core)
    blocks(ctx, topo)
    accessors(ctx, core)
    wrappers(ctx, topo)
    for f in inst(alg, 'tensor_product'):
        if len(f.d['ps']) == 3 and 'ChainComplex' in alg.type(f.d['ps'][0]['t']):
            A, B = par(f, 0, alg), par(f, 1, alg)
            tensors(ctx, alg, f, A, B, A, B, 'tensor_product')
            break
    for f in inst(topo, 'EilenbergZilber'):
        if len(f.d['ps']) == 4:
            ez(ctx, topo, f)
            break
    kron_shift(ctx, topo)
    kron_indices(ctx, topo)
    apparent(ctx, core)


def ez(ctx, u, f):
    X, Y = par(f, 0, u), par(f, 1, u)
    extra = ('ChainComplex', 'ChainMap', 'union_add')
    for p in eng(u, f, extra, maxpaths=20000):
        made = {}
        for it in p.trace:
            if isinstance(it, Ev) and it.k == 'set' and it.obj is not None:
                v = canon(it.args[0])
                if isapp(v, 'new ChainComplex') and v[2] and v[2][0] in (X, Y):
                    made[v[2][0]] = unld(it.obj)
        CA, CB = made.get(X), made.get(Y)
        C = None
        v = unld(p.val) if p.val is not None else None
        if isinstance(v, tuple) and v[0] == 'tup' and v[1]:
            C = unld(v[1][0][1])
        elif isinstance(v, tuple) and v[0] == 'app' and v[2]:
            C = unld(v[2][0])
        if CA is None or CB is None or C is None:
            rec(ctx, "tensor products")
            return
        for it in p.trace:
            if isinstance(it, Loop):
                tn = trip(it)
                if tn is None or not has([it], lambda e: short(e.name) == 'append_column'):
                    continue
                for q in cont(it):
                    degree_n(ctx, u, f, q, tn[0], tn, X, Y, CA, CB, C, 'EilenbergZilber')
        break
