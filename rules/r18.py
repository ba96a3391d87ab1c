"""Update information: what is inserted, deleted and moved between two filtrations.

The loops that compare two complexes are read round by round: which cell of which complex is looked up
in which other, and what each of the two outcomes appends to which list, as terms over the look-up.  The
index lists are compared with their definitions in filtration order (a position in one complex through
the inverse sorting permutation of the values of the *same* filtration and dimension).  The reversal for
cohomology is replayed as a map of indices, and the routines that delete and insert cells are read as
schedules of operations on R and U, separately for each degree and for the top dimension."""
from rules.common import *
from rules.r08 import par, field, uniq
from rules.r16 import ix, plain, methods, deg, TH, rec
from bx.seqs import trip, subst, coef, counters, visits, lock

PROP = dict(
    id="R18", title="Update information lists every inserted, deleted and moved cell",
    statement="For every pair of filtrations with the same maximal dimension, the update information has for each dimension: every cell of the new complex that the old one lacks, at its position in the new filtration, with its boundary in the new filtration order (with coefficients, where columns are stored); every cell of the old complex that the new one lacks, counted or listed at its old position; and for the common cells a permutation from old to new filtration order, followed by the positions of the deleted cells. It carries the values and sorting permutations of the new filtration; for cohomology all of it is reversed exactly once, with the sizes after deletion and insertion. Updating a reduced complex from it permutes every dimension first, then for each dimension makes the basis triangular, deletes the rows and columns of the deleted cells on both sides before it inserts those of the new cells (boundary columns, unit basis columns; for cohomology the boundary times the basis as rows, in reversed and sorted positions), and keeps the zero matrix above the top dimension in step; with deleted positions listed, the move of the deleted cells to the end is composed with the permutation of the common cells.",
    over=["inputs", "histories"],
    text="all pairs of filtrations, all dimensions, both degrees; every round of the loops over cells",
    why="tests update a few random filtrations and compare Betti numbers; a position taken through the permutation of the other filtration, a boundary in the wrong dimension's order, or an insertion before the deletion shows only for particular orders and overlaps of cells",
    files=["include/filtration/update_information.hpp", "include/homology/dgbasis.hpp", "include/homology/basis.hpp", "include/persistence/filtered_dgbasis.hpp"],
    mechanism=[("comparison of complexes", "UpdateInfo2::UpdateInfo2, Update_info::Update_info"), ("cohomology", "UpdateInfo2::reverse_for_cohomology"), ("application", "ReducedDGVectorSpace::_delete_cells, _insert_cells, update_basis"), ("application of listed positions", "update_basis_general, update_basis_general_clearing (ReducedDGVectorSpace, ReducedChainComplex)")],
)
TECHNIQUE = "per-round case analysis of the comparison loops (term comparison with definitions in filtration order), schedule reconstruction of the update routines per degree"
LEVEL = "proof"
ASSUMPTIONS = ["find_idx, boundary and get_simplices as decided by R08, sorting permutations and their inverses by R05, matrix row/column insertion and deletion by R13, reductions by R02/R01"]
MINIMUM = {"definitions": 10}
LOOK = {'find_idx', 'get_simplices', 'get_simplex', 'boundary', 'filtration_sortperm', 'filtration_iperm', 'ncells', 'maxdim', 'vals', 'complex', 'Kendall_tau', 'find_perm_from_vector', 'filtered_info'}
PUSH = {'emplace_back', 'push_back'}


def cn(t, env=None):
    """short names, snapshots removed, table aliases resolved"""
    t = unld(t)
    if not isinstance(t, tuple) or not t:
        return t
    if env and t in env:
        return env[t]
    if t[0] == 'poly':
        r = 0
        for m, c in t[1]:
            x = c
            for a in m:
                x = mul(x, cn(a, env))
            r = add(r, x)
        return r
    if t[0] == 'app':
        n = short(str(t[1]).replace('new ', ''))
        n = ('new ' if str(t[1]).startswith('new ') else '') + n
        a = tuple(cn(x, env) for x in t[2])
        if n.startswith('new ') and len(a) == 1 and n[4:] in ('vector', 'initializer_list'):
            return a[0]
        return ('app', n, a)
    if t[0] == 'size':
        a = cn(t[1], env)
        if isinstance(a, tuple) and a[0] == 'app' and a[1] == 'get_simplices' and len(a[2]) == 2:
            return ('app', 'ncells', a[2])
        if isinstance(a, tuple) and a[0] == 'app' and a[1] == 'new vector' and len(a[2]) >= 2:
            return a[2][0]
        return ('size', a, 0)
    if t[0] == 'ix':
        b, i = cn(t[1], env), cn(t[2], env)
        return ('ix', b, i)
    return tuple(cn(x, env) if isinstance(x, tuple) else x for x in t)


READ = LOOK | {'new SparseVector', 'new nzpair', 'identity_perm'}


def known(t):
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] in ('deref', 'ite', 'envvar', 'lv', 'unk', 'opaque'):
            return False
        if isinstance(s, tuple) and s and s[0] == 'app' and s[1] not in READ and s[1] != 'new SparseVector':
            return False
    return True


def A(n, *a):
    return ('app', n, tuple(a))


class Ctx:
    def __init__(self, ctx, f, w, key):
        self.ctx, self.f, self.w, self.key = ctx, f, w, key

    def eq(self, got, want, what, line=None, rule='R18-index'):
        wants = want if isinstance(want, list) else [want]
        if got in wants:
            self.ctx.check(True, rule, self.f.loc(line), '', self.key + '/' + what)
        elif known(got):
            self.ctx.bad(rule, self.f.loc(line), '%s: %s is %s, expected %s' % (self.w, what, show(got), show(wants[0])), self.key + '/' + what)
        else:
            rec(self.ctx, "terms")

    def ok(self, c, what, msg, line=None, rule='R18-list'):
        self.ctx.check(c, rule, self.f.loc(line), '%s: %s' % (self.w, msg), self.key + '/' + what)


def cont(L):
    return [q for q in L.paths if q.exit in ('n', 'c')]


def conds(trace):
    out = []
    for it in trace:
        if isinstance(it, Cond):
            out.append(it)
        elif isinstance(it, Leave):
            out += conds(it.path.trace)
    return out


def evs(trace, k=None, names=None):
    for it in trace:
        if isinstance(it, Ev) and (k is None or it.k == k) and (names is None or short(it.name) in names):
            yield it


def deepev(trace):
    for it in trace:
        if isinstance(it, Loop):
            for q in it.paths:
                yield from deepev(q.trace)
        elif isinstance(it, Leave):
            yield from deepev(it.path.trace)
        elif isinstance(it, Ev):
            yield it


def envof(trace):
    """fields assigned once as a whole in straight-line code"""
    out = {}
    for it in trace:
        if isinstance(it, Ev) and it.k == 'set' and it.obj is not None and it.args and it.name != 'init':
            o = unld(it.obj)
            if isinstance(o, tuple) and o[0] == 'f' and o[1] == TH:
                out[o] = None if o in out else it.args[0]
    return {o: cn(v) for o, v in out.items() if v is not None and cn(v) != o}


def looked(q, C):
    """the cell looked up in complex C by this round: (find term, found?)"""
    for c in conds(q.trace):
        t = c.t
        if t[0] != 'cmp' or t[1] != '==':
            continue
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            a = unld(a)
            if isinstance(a, tuple) and a[0] == 'app' and short(str(a[1])) == 'find_idx' and 'NO_IND' in show(b):
                return a, not c.pol
    return None


def vec_of(ev):
    """what container an event appends to"""
    return unld(ev.obj) if ev.obj is not None else None


def pushes(trace, env):
    """container -> [(value, event)] of the straight-line part"""
    out = {}
    for e in evs(trace, 'call', PUSH):
        out.setdefault(vec_of(e), []).append((cn(e.args[0], env) if e.args else None, e))
    return out


def sets(trace, env):
    out = []
    for e in evs(trace, 'set'):
        if e.obj is not None and e.name != 'init' and e.args:
            out.append((cn(e.obj, env), cn(e.args[0], env), e))
    return out


def dimloop(p):
    """loop over dimensions: the first loop that contains a look-up"""
    for it in p.trace:
        if isinstance(it, Loop) and any(looked(q, None) for q, _ in all_paths(it.paths)):
            return it


def engine(u, f, extra=()):
    root = short(f.name)
    return Engine(u, vocab=lambda n, x: (short(n) in LOOK or short(n) in extra or la_mutator(n, x) or n.startswith('std::sort') or short(n) in ('operator=',) and cls_of(n) == 'Filtration') and not (x['k'] == 'ctor' and short(n) == root), maxpaths=20000).run(f)


# ------------------------------------------------------------------ UpdateInfo2
def brad(ctx, u):
    fs = [f for f in u.funcs if not f.dep and f.d.get('b') is not None and not f.d.get('imp') and f.name.endswith('UpdateInfo2::UpdateInfo2') and len(f.d['ps']) == 2]
    ctx.need(fs, "no constructor of UpdateInfo2 from two filtrations")
    for f in fs[:1]:
        ctx.function(f)
        K = Ctx(ctx, f, 'UpdateInfo2', 'UpdateInfo2')
        F1, F2 = par(f, 0, u), par(f, 1, u)
        paths = engine(u, f)
        good = [p for p in paths if p.exit in ('ret', 'n')]
        thr = [p for p in paths if p.exit == 'throw']
        m1, m2 = A('maxdim', F1), A('maxdim', F2)
        for p in good:
            fa = Facts([c for c in p.trace if isinstance(c, Cond)])
            e = any(isinstance(c, Cond) and c.t[0] == 'cmp' and c.t[1] == '==' and {cn(c.t[2]), cn(c.t[3])} == {m1, m2} and c.pol for c in p.trace)
            if not e and not thr and known_conds(p):
                ctx.bad('R18-dims', f.loc(), 'UpdateInfo2 accepts filtrations of different maximal dimension', 'UpdateInfo2/maxdim')
            else:
                ctx.check(True, 'R18-dims', f.loc(), '', 'UpdateInfo2/maxdim')
        for p in good:
            env = envof(p.trace)
            C1, C2 = A('complex', F1), A('complex', F2)
            S1, S2 = A('filtration_sortperm', A('vals', F1)), A('filtration_sortperm', A('vals', F2))
            P1, P2 = A('filtration_iperm', S1), A('filtration_iperm', S2)
            for nm, w in (('newval', A('vals', F2)), ('perms2', S2)):
                got = env.get(field(TH, nm))
                if got is None:
                    rec(ctx, "tables")
                    continue
                ctx.count("definitions")
                K.eq(got, w, nm)
            L = dimloop(p)
            if L is None:
                rec(ctx, "loops over dimensions")
                continue
            tr = trip(L)
            if tr is None or tr[3] not in (1, -1):
                rec(ctx, "loops over dimensions")
                continue
            D = tr[0]
            ctx.count("definitions")
            K.eq(cn(tr[1], env), 0, 'first dimension', L.line, 'R18-cover')
            K.eq(cn(tr[2], env), [add(m1, 1), add(m2, 1)], 'end of the dimensions', L.line, 'R18-cover')
            for q in cont(L):
                brad_dim(ctx, K, f, q, D, env, F1, F2, C1, C2, S1, S2, P1, P2)


def known_conds(p):
    return all(plain(c.t, LOOK) for c in p.trace if isinstance(c, Cond))


def brad_dim(ctx, K, f, q, D, env, F1, F2, C1, C2, S1, S2, P1, P2):
    n1, n2 = A('ncells', C1, D), A('ncells', C2, D)
    perm, ii, ic, nd = ix(field(TH, 'perm'), D), ix(field(TH, 'insertion_indices'), D), ix(field(TH, 'insertion_cols'), D), ix(field(TH, 'ndeletions'), D)
    main = None
    rest = []
    for it in q.trace:
        if isinstance(it, Loop) and main is None and any(looked(x, C1) for x in cont(it)):
            main = it
        elif isinstance(it, Loop) and main is not None:
            rest.append(it)
    if main is None:
        rec(ctx, "comparisons")
        return
    tr = trip(main)
    if tr is None or tr[3] != 1:
        rec(ctx, "comparisons")
        return
    J = tr[0]
    K.eq(cn(tr[1], env), 0, 'first cell', main.line, 'R18-cover')
    K.eq(cn(tr[2], env), n2, 'end of the cells of the new complex', main.line, 'R18-cover')
    j2 = ix(ix(S2, D), J)
    cell = [ix(A('get_simplices', C2, D), j2), A('get_simplex', C2, D, j2)]
    ctr = {d: (sy, s0) for d, (nm, sy) in main.syms.items() for s0 in [main.start.get(d)] if sy != J}
    flag = None
    CT = None
    for x in cont(main):
        lk = looked(x, C1)
        if lk is None:
            rec(ctx, "comparisons")
            continue
        ctx.count("definitions")
        t, found = lk
        ct = cn(t, env)
        ok = ct[2][0] == C1 and ct[2][1] in cell
        K.eq(ct, [A('find_idx', C1, c) for c in cell], 'the cell looked up', main.line)
        st = sets(x.trace, env)
        pu = pushes(x.trace, env)
        steps = {d: sub(x.env.get(d), sy) for d, (sy, s0) in ctr.items() if is_num(sub(x.env.get(d), sy)) and sub(x.env.get(d), sy) != 0}
        if found:
            ps = [(o, v, e) for o, v, e in st if o[0] == 'ix' and o[1] == perm]
            pp = pu.get(perm, [])
            if len(ps) == 1 and not pp:
                o, v, e = ps[0]
                K.eq(v, ix(ix(P1, D), ct), 'old position of a common cell', e.line)
                c = [d for d, (sy, s0) in ctr.items() if o[2] == sy]
                if c:
                    CT = c[0]
                    K.ok(steps.get(CT) == 1, 'count', 'the count of common cells grows by %s per common cell' % show(sub(x.env.get(CT), ctr[CT][0])), e.line)
                    K.eq(cn(ctr[CT][1], env), 0, 'first slot of the common cells', e.line)
                elif plain(o[2]):
                    K.ok(False, 'slot', 'a common cell is put at %s, not at the next slot' % show(o[2]), e.line)
            elif not ps and not pp:
                if not any(e.obj is not None and any(s == field(TH, 'perm') for s in subterms(unld(e.obj))) for e in evs(x.trace)):
                    K.ok(False, 'perm', 'a common cell gets no entry in the permutation', main.line)
            fl = [(o, v, e) for o, v, e in st if o[0] == 'ix' and o[1][0] == 'v' and v in (0, 1)]
            if fl:
                flag = fl[0][0][1]
                K.eq(fl[0][0][2], ct, 'the cell marked as common', fl[0][2].line)
                K.ok(fl[0][1] == 1, 'mark', 'a common cell is unmarked', fl[0][2].line)
            K.ok(not pu.get(ii) and not pu.get(ic), 'insert', 'a common cell is inserted again', main.line)
        else:
            if len(pu.get(ii, [])) == 1:
                K.eq(pu[ii][0][0], J, 'position of an inserted cell', pu[ii][0][1].line)
            elif not any(e.obj is not None and any(s == field(TH, 'insertion_indices') for s in subterms(unld(e.obj))) for e in deepev(x.trace)):
                K.ok(False, 'insert', 'a new cell is not listed for insertion', main.line)
            if len(pu.get(ic, [])) == 1:
                column(ctx, K, f, x, pu[ic][0], D, J, j2, env, C2, P2, main)
            elif not any(e.obj is not None and any(s == field(TH, 'insertion_cols') for s in subterms(unld(e.obj))) for e in deepev(x.trace)):
                K.ok(False, 'column', 'a new cell gets no boundary column', main.line)
            K.ok(not any(o[0] == 'ix' and o[1] == perm for o, v, e in st), 'perm', 'a new cell gets an entry in the permutation of the old cells', main.line)
            if CT is not None:
                K.ok(not steps.get(CT), 'count', 'a new cell is counted as common', main.line)
            elif found is False and steps:
                ctx.count("comparisons")
    if CT is None:
        rec(ctx, "counts")
        return
    after = None
    cts = ctr[CT][0]
    # deletions
    got = [(o, v, e) for o, v, e in sets(q.trace, env) if o == nd]
    for o, v, e in got:
        ctx.count("definitions")
        pos = q.trace.index(e)
        if pos < q.trace.index(main):
            rec(ctx, "counts")
            continue
        moved = [L for L in q.trace[q.trace.index(main) + 1:pos] if isinstance(L, Loop) and CT in L.syms]
        if moved:
            c2 = moved[-1].syms[CT][1]
            if v == sub(n1, c2):
                K.ok(False, 'ndeletions', 'the number of deletions is taken after the deleted cells were counted as well', e.line)
            else:
                rec(ctx, "counts")
            continue
        K.eq(v, sub(n1, cts), 'number of deletions', e.line)
    # deleted cells
    tail = [L for L in rest if any(o[0] == 'ix' and o[1] == perm for x in cont(L) for o, v, e in sets(x.trace, env))]
    if not tail:
        if not any(e.obj is not None and cn(e.obj, env) == perm for L in rest for x in cont(L) for e in deepev(x.trace)) and not any(e.k == 'call' and short(e.name) not in ('sort', 'resize') and any(a is not None and any(s == field(TH, 'perm') for s in subterms(unld(a))) for a in e.args) for e in evs(q.trace)):
            K.ok(False, 'tail', 'deleted cells get no entry in the permutation', main.line)
        else:
            rec(ctx, "deletions")
        return
    for L in tail:
        tr = trip(L)
        if tr is None or tr[3] not in (1, -1):
            rec(ctx, "deletions")
            continue
        j1 = tr[0]
        K.eq(cn(tr[1], env), 0, 'first cell of the old complex', L.line, 'R18-cover')
        K.eq(cn(tr[2], env), n1, 'end of the cells of the old complex', L.line, 'R18-cover')
        if CT in L.syms:
            K.eq(cn(L.start[CT], env), cts, 'first slot of the deleted cells', L.line)
        for x in cont(L):
            st = [(o, v, e) for o, v, e in sets(x.trace, env) if o[0] == 'ix' and o[1] == perm]
            mk_ = marked(x, flag, j1, env)
            if mk_ is None:
                rec(ctx, "deletions")
                continue
            ctx.count("definitions")
            if mk_:
                K.ok(not st, 'tail', 'a common cell is moved to the end as if deleted', L.line)
            else:
                K.ok(len(st) == 1, 'tail', 'a deleted cell gets %s entries in the permutation' % len(st), L.line)
                for o, v, e in st:
                    K.eq(v, ix(ix(P1, D), j1), 'old position of a deleted cell', e.line)
                    if CT in L.syms and o[2] == L.syms[CT][1]:
                        s = sub(x.env.get(CT), L.syms[CT][1])
                        K.ok(s == 1, 'tailcount', 'the slot of deleted cells moves by %s' % show(s), e.line)
                    elif plain(o[2]) and CT in L.syms:
                        K.ok(False, 'tailslot', 'a deleted cell is put at %s, not at the next slot' % show(o[2]), e.line)
    # sorting the tail
    for e in evs(q.trace, 'call', {'sort'}):
        a = [cn(x, env) for x in e.args]
        if len(a) >= 2 and a[0][0] == 'it' and a[0][1] == perm:
            pos = q.trace.index(e)
            first, last = a[0][2], a[1][2]
            fin = [L.syms[CT][1] for L in tail if CT in L.syms]
            K.eq(first, cts, 'start of the sorted tail', e.line)
            K.eq(last, [('size', perm, 0), n1] + fin, 'end of the sorted tail', e.line)


def marked(x, flag, j1, env):
    for c in conds(x.trace):
        t = unld(c.t)
        if t[0] == 'truth':
            s = t[1]
            if isinstance(s, tuple) and s[0] == 'app' and 'operator bool' in s[1]:
                s = s[2][0]
            if s == ('ix', flag, j1):
                return c.pol
        if t[0] == 'cmp' and t[1] == '==' and any(y == ('ix', flag, j1) for z in t[2:] for y in subterms(z)):
            o = [z for z in t[2:] if is_num(z)]
            if o:
                return c.pol == (o[0] == 1)
    return None


def column(ctx, K, f, x, pv, D, J, j2, env, C2, P2, main):
    """the boundary column of an inserted cell"""
    val, ev = pv
    if not (isinstance(val, tuple) and val[0] == 'app' and val[1] == 'new SparseVector'):
        if val != ('v',):
            rec(ctx, "columns")
        return
    if not val[2]:
        zero = Facts(conds(x.trace)).holds('==', D, 0)
        if zero is False or zero is None and not any(s == D for c in conds(x.trace) for s in subterms(unld(c.t)) if c.t[0] == 'cmp'):
            K.ok(False, 'column', 'an inserted cell gets an empty boundary', ev.line)
        return
    b = val[2][0]
    if not (isinstance(b, tuple) and b[0] == 'v') or len(val[2]) != 1:
        rec(ctx, "columns")
        return
    fa = Facts(conds(x.trace))
    pos = x.trace.index(ev)
    bd = A('boundary', C2, D, j2)
    z = fa.holds('==', D, 0)
    if z is None:
        h = fa.holds('<', 0, D)
        z = None if h is None else not h
    local = any(e.k == 'set' and e.name == 'init' and unld(e.obj) == b for e in evs(x.trace[:pos]) if e.obj is not None)
    cl = None
    srt = False
    filled = None
    for n, it in enumerate(x.trace[:pos]):
        if isinstance(it, Ev) and it.obj is not None and unld(it.obj) == b and it.k == 'call' and short(it.name) == 'clear':
            if filled is None:
                cl = n
            else:
                filled = None
        elif isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'resize' and it.obj is not None and unld(it.obj) == b and it.args[:1] == (0,):
            cl = n
        elif isinstance(it, Loop) and any(e.obj is not None and unld(e.obj) == b for q in it.paths for e in deepev(q.trace)):
            filled = it
        elif isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'sort' and it.args:
            a = unld(it.args[0])
            if isinstance(a, tuple) and a[0] == 'it' and a[1] == b and filled is not None:
                srt = True
    other = [e for e in evs(x.trace[:pos]) if e.k == 'call' and short(e.name) not in ('clear', 'sort', 'resize', 'reserve') and (e.obj is not None and unld(e.obj) == b or any(isinstance(a, tuple) and any(s == b for s in subterms(unld(a))) for a in e.args if a is not None))]
    if other:
        rec(ctx, "columns")
        return
    ctx.count("definitions")
    K.ok(local or cl is not None, 'clear', 'the boundary of an inserted cell starts with the entries of the cell before', ev.line)
    if filled is None:
        if z is False or z is None:
            K.ok(False, 'column', 'an inserted cell of positive dimension gets an empty boundary', ev.line)
        return
    if z is True:
        K.ok(False, 'column0', 'the boundary of an inserted vertex is read', ev.line)
        return
    if z is None and not any(c.t[0] == 'cmp' and any(s == D for s in subterms(unld(c.t))) for c in conds(x.trace)):
        K.ok(False, 'column0', 'the boundary of an inserted vertex is read', ev.line)
        return
    K.ok(srt, 'sorted', 'the boundary of an inserted cell is not sorted by its new positions', ev.line)
    tr = trip(filled)
    if tr is None:
        rec(ctx, "columns")
        return
    I, lo, hi, st = tr
    K.eq(cn(lo, env), 0, 'first face', filled.line, 'R18-cover')
    first, second = field(bd, 'first'), field(bd, 'second')
    K.eq(cn(hi, env), [('size', first, 0), ('size', second, 0)], 'end of the faces', filled.line, 'R18-cover')
    for q in cont(filled):
        pu = pushes(q.trace, env).get(b, [])
        if len(pu) != 1:
            K.ok(len(pu) > 0 or conds(q.trace)[1:] != [], 'face', 'a face of an inserted cell is dropped', filled.line)
            continue
        v, e = pu[0]
        got = entry(v)
        if got is None:
            rec(ctx, "columns")
            continue
        K.eq(got[0], ix(ix(P2, sub(D, 1)), ix(first, I)), 'position of a face of an inserted cell', e.line)
        K.eq(got[1], ix(second, I), 'coefficient of a face of an inserted cell', e.line)


def entry(v):
    """(index, value) of an nzpair term"""
    if isinstance(v, tuple) and v:
        if v[0] == 'tup' or v[0] == 'rec':
            d = dict(v[1]) if isinstance(v[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in v[1]) else None
            if d and 'ind' in d and 'val' in d:
                return d['ind'], d['val']
            if d and 'get0' in d:
                return d['get0'], d['get1']
        if v[0] == 'app' and v[1] == 'new nzpair' and len(v[2]) == 2:
            return v[2]
    return None


# ------------------------------------------------------------------ cohomology
def rev(ctx, u):
    fs = [f for f in u.funcs if f.name.endswith('UpdateInfo2::reverse_for_cohomology') and f.d.get('b') is not None]
    ctx.need(fs, 'no reverse_for_cohomology')
    f = fs[0]
    ctx.function(f)
    K = Ctx(ctx, f, 'reverse_for_cohomology', 'reverse')
    flag = field(TH, 'reversed')
    e = Engine(u, vocab=lambda n, x: la_mutator(n, x))
    paths = [p for p in e.run(f) if p.exit != 'throw']
    perm, ii, ic, nd = (field(TH, n) for n in ('perm', 'insertion_indices', 'insertion_cols', 'ndeletions'))
    for p in paths:
        fa = [it for it in p.trace if isinstance(it, Cond)]
        isrev = [c.pol for c in fa if unld(c.t) == ('truth', flag)]
        loops = [it for it in p.trace if isinstance(it, Loop)]
        if isrev and isrev[0]:
            K.ok(not loops, 'twice', 'reverses what was reversed already', rule='R18-reverse')
            continue
        if not isrev:
            if loops:
                K.ok(any(s == flag for c in fa for s in subterms(unld(c.t))), 'twice', 'reverses again on every call', rule='R18-reverse')
            continue
        ctx.count("definitions")
        K.ok(any(o == flag and v == 1 for o, v, ev in sets(p.trace, None)), 'flag', 'does not remember that it has reversed', rule='R18-reverse')
        done = {}
        seen = {}
        for pos, L in enumerate(p.trace):
            if not isinstance(L, Loop):
                continue
            tr = trip(L)
            if tr is None:
                rec(ctx, "reversals")
                done['?'] = 1
                continue
            k, lo, hi, st = tr
            for q in cont(L):
                level(ctx, K, q, k, (cn(lo), cn(hi)), done, pos, L)
            cols = [q for q in cont(L) if has_cols(q)]
            for q in cont(L):
                if cols and q not in cols and '?' not in done:
                    sk = skipped(q, k)
                    K.ok(sk is None, 'cols/skip', 'the boundary columns of dimension %s are not reversed' % sk, L.line, 'R18-reverse')
        for nm in ('perms2', 'perm', 'insertion_indices', 'insertion_cols'):
            if '?' in done:
                continue
            K.ok(('rev', nm) in done, nm, '%s is not reversed' % nm, rule='R18-reverse')
        for nm in ('perm', 'insertion_indices', 'cols'):
            if '?' in done:
                continue
            K.ok(('map', nm) in done, nm + '/map', 'the indices of %s are not replaced by those of the reversed order' % nm, rule='R18-reverse')


def has_cols(q):
    return any(e.k == 'call' and short(e.name) == 'reverse_inds' for e in deepev(q.trace))


def level(ctx, K, q, k, rng, done, pos, L):
    perm, ii, ic, nd = (field(TH, n) for n in ('perm', 'insertion_indices', 'insertion_cols', 'ndeletions'))

    def n2(d):
        return add(sub(('size', ix(perm, d), 0), ix(nd, d)), ('size', ix(ii, d), 0))
    for it in q.trace:
        if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'reverse' and it.args:
            a, b = unld(it.args[0]), unld(it.args[-1])
            if a[0] == 'it' and isinstance(a[1], tuple) and a[1][0] == 'ix':
                o = a[1]
                nm = o[1][2] if o[1][0] == 'f' and o[1][1] == TH else None
                if nm is None:
                    done['?'] = 1
                    continue
                ok = a[2] == 0 and b == ('it', o, ('size', o, 0))
                if not ok:
                    if plain(a) and plain(b):
                        K.ok(False, nm, 'only part of %s is reversed' % nm, it.line, 'R18-reverse')
                    done['?'] = 1
                    continue
                if o[2] != k:
                    c = coef(o[2], k)
                    if c is not None:
                        K.ok(False, nm + '/dim', '%s is reversed in dimension %s of round %s' % (nm, show(o[2]), show(k)), it.line, 'R18-reverse')
                full(ctx, K, nm, k, rng, L, it.line, q)
                key = ('rev', nm)
                if key in done and done[key][0] != pos:
                    K.ok(False, nm + '/again', '%s is reversed twice' % nm, it.line, 'R18-reverse')
                done[key] = (pos, it.line)
                ctx.count("definitions")
            else:
                done['?'] = 1
        elif isinstance(it, Ev) and it.k == 'call' and it.obj is not None and isinstance(unld(it.obj), tuple) and any(s == TH for s in subterms(unld(it.obj))):
            done['?'] = 1
        elif isinstance(it, Loop):
            tr = trip(it)
            if tr is None:
                done['?'] = 1
                continue
            i, lo, hi, st = tr
            for x in cont(it):
                for ev in evs(x.trace):
                    if ev.k == 'set' and ev.obj is not None and ev.name != 'init':
                        o, v = cn(ev.obj), cn(ev.args[0])
                        if o[0] == 'ix' and o[1] in (ix(perm, k), ix(ii, k)):
                            nm = o[1][1][2]
                            n = ('size', ix(perm, k), 0) if nm == 'perm' else n2(k)
                            if coef(o[2], i) == (1, 0):
                                K.eq(v, sub(sub(n, 1), o), 'an index of %s in the reversed order' % nm, ev.line, 'R18-reverse')
                                K.eq(cn(lo), 0, 'first index of ' + nm, it.line, 'R18-reverse')
                                K.eq(cn(hi), ('size', o[1], 0), 'end of the indices of ' + nm, it.line, 'R18-reverse')
                                done[('map', nm)] = (pos, ev.line)
                                full(ctx, K, nm, k, rng, L, it.line, q)
                                ctx.count("definitions")
                            else:
                                done['?'] = 1
                        elif o[0] != 'v':
                            done['?'] = 1
                    elif ev.k == 'call' and short(ev.name) == 'reverse_inds' and ev.obj is not None:
                        o = cn(ev.obj)
                        if o[0] == 'ix' and o[1] == ix(ic, k):
                            K.eq(cn(ev.args[0]), sub(n2(sub(k, 1)), 1), 'top index of the boundary columns', ev.line, 'R18-reverse')
                            K.eq(cn(hi), ('size', o[1], 0), 'end of the boundary columns', it.line, 'R18-reverse')
                            done[('map', 'cols')] = (pos, ev.line)
                            ctx.count("definitions")
                        else:
                            done['?'] = 1
                    elif ev.k == 'call' and ev.obj is not None:
                        done['?'] = 1


def skipped(q, k):
    """smallest positive dimension the path is taken for without reversing columns"""
    zero = Facts(conds(q.trace))
    h = zero.holds('<', 0, k)
    e = zero.holds('==', k, 0)
    if h is False or e is True:
        return None
    cs = [c for c in conds(q.trace) if c.t[0] == 'cmp' and any(s == k for s in subterms(unld(c.t))) and any(is_num(x) for x in c.t[2:])]
    for d in (1, 2):
        ok = True
        for c in cs:
            v = evcmp(subst(unld(c.t), k, d))
            if v is None:
                return None
            ok = ok and v == c.pol
        if ok:
            return d


def evcmp(t):
    if t[0] == 'cmp' and is_num(t[2]) and is_num(t[3]):
        return {'==': t[2] == t[3], '<': t[2] < t[3], '<=': t[2] <= t[3]}.get(t[1])


def full(ctx, K, nm, k, rng, L, line, q):
    al = [('size', field(TH, n), 0) for n in ('perm', 'insertion_indices', 'insertion_cols', 'ndeletions', 'perms2')]
    if rng[0] != 0:
        K.eq(rng[0], 0, 'first dimension of ' + nm, line, 'R18-reverse')
    K.eq(rng[1], al, 'end of the dimensions of ' + nm, line, 'R18-reverse')


# ------------------------------------------------------------------ Update_info
def yuan(ctx, u):
    fs = [f for f in u.funcs if not f.dep and f.d.get('b') is not None and not f.d.get('imp') and not f.d.get('dfd') and f.name.endswith('Update_info::Update_info') and len(f.d['ps']) == 3]
    ctx.need(fs, "no constructor of Update_info from two filtrations")
    for f in fs[:1]:
        ctx.function(f)
        K = Ctx(ctx, f, 'Update_info', 'Update_info')
        F1, F2 = par(f, 0, u), par(f, 1, u)
        for p in engine(u, f):
            if p.exit not in ('ret', 'n'):
                continue
            env = envof(p.trace)
            C1, C2 = A('complex', F1), A('complex', F2)
            for nm, w in (('max_dim', [A('maxdim', F2), A('maxdim', F1)]), ('F_X_vals', A('vals', F1)), ('F_Y_vals', A('vals', F2)),
                          ('F_X_perms', A('filtration_sortperm', A('vals', F1))), ('F_Y_perms', A('filtration_sortperm', A('vals', F2)))):
                got = env.get(field(TH, nm))
                if got is None:
                    rec(ctx, "tables")
                    continue
                ctx.count("definitions")
                al = {field(TH, 'F_X_vals'): A('vals', F1), field(TH, 'F_Y_vals'): A('vals', F2)}
                K.eq(cn(got, al), w, nm)
            for e in evs(p.trace, 'call', {'filtered_info'}):
                K.eq(cn(e.args[0], env), A('filtration_sortperm', A('vals', F1)), 'permutation handed to filtered_info', e.line)
            L = dimloop(p)
            if L is None:
                rec(ctx, "loops over dimensions")
                continue
            tr = trip(L)
            if tr is None or tr[3] != 1:
                rec(ctx, "loops over dimensions")
                continue
            D = tr[0]
            K.eq(cn(tr[1], env), 0, 'first dimension', L.line, 'R18-cover')
            K.eq(cn(tr[2], env), [add(A('maxdim', F2), 1), add(A('maxdim', F1), 1)], 'end of the dimensions', L.line, 'R18-cover')
            for q in cont(L):
                yuan_dim(ctx, K, f, q, D, env, C1, C2)


def yuan_dim(ctx, K, f, q, D, env, C1, C2):
    n1, n2 = A('ncells', C1, D), A('ncells', C2, D)
    role = {}
    # lists of one dimension by the table they are appended to
    for e in evs(q.trace, 'call', PUSH):
        o = vec_of(e)
        if isinstance(o, tuple) and o[0] == 'f' and o[1] == TH and e.args:
            v = unld(e.args[0])
            if isinstance(v, tuple) and v[0] == 'app' and str(v[1]).startswith('new ') and len(v[2]) == 1:
                v = v[2][0]
            role.setdefault(o[2], []).append((v, e))
    for nm in ('deletion_indices', 'addition_indices', 'boundary_indices', 'intersection_indices_X', 'intersection_indices_Y', 'permutations'):
        if nm in role:
            K.ok(len(role[nm]) == 1, nm, '%s grows by %s lists per dimension' % (nm, len(role[nm])), role[nm][0][1].line)
        elif not any(e.obj is not None and any(s == field(TH, nm) for s in subterms(unld(e.obj))) for e in deepev(q.trace)):
            K.ok(False, nm, '%s gets no list in a dimension' % nm)
    R = {nm: role[nm][0][0] for nm in role}
    if any(not (isinstance(R.get(nm), tuple) and R[nm][0] == 'v') for nm in ('deletion_indices', 'addition_indices', 'boundary_indices', 'intersection_indices_X', 'intersection_indices_Y')):
        rec(ctx, "lists")
        return
    tau = role.get('kendall_tau_dists')
    loops = [it for it in q.trace if isinstance(it, Loop)]
    main = next((L for L in loops if any(looked(x, C1) for x in cont(L))), None)
    if main is None:
        rec(ctx, "comparisons")
        return
    tr = trip(main)
    if tr is None or tr[3] != 1:
        rec(ctx, "comparisons")
        return
    J = tr[0]
    K.eq(cn(tr[1], env), 0, 'first cell', main.line, 'R18-cover')
    K.eq(cn(tr[2], env), n2, 'end of the cells of the new complex', main.line, 'R18-cover')
    flag = None
    for x in cont(main):
        lk = looked(x, C1)
        if lk is None:
            rec(ctx, "comparisons")
            continue
        ctx.count("definitions")
        t, found = lk
        ct = cn(t, env)
        K.eq(ct, [A('find_idx', C1, ix(A('get_simplices', C2, D), J)), A('find_idx', C1, A('get_simplex', C2, D, J))], 'the cell looked up', main.line)
        pu = pushes(x.trace, env)

        def one(nm, want, what):
            v = pu.get(R[nm], [])
            if want is None:
                K.ok(not v, what, '%s: %s' % (nm, what), main.line)
            elif len(v) == 1:
                K.eq(v[0][0], want, what, v[0][1].line)
            elif not any(e.obj is not None and unld(e.obj) == R[nm] for e in deepev(x.trace)):
                K.ok(False, what, 'nothing is appended to %s (%s)' % (nm, what), main.line)
        if found:
            one('intersection_indices_X', ct, 'old index of a common cell')
            one('intersection_indices_Y', J, 'new index of a common cell')
            one('addition_indices', None, 'a common cell is listed as added')
            fl = [(o, v, e) for o, v, e in sets(x.trace, env) if o[0] == 'ix' and o[1][0] == 'v' and v in (0, 1)]
            if fl:
                flag = fl[0][0][1]
                K.eq(fl[0][0][2], ct, 'the cell marked as common', fl[0][2].line)
                K.ok(fl[0][1] == 1, 'mark', 'a common cell is unmarked', fl[0][2].line)
        else:
            one('addition_indices', J, 'index of an added cell')
            one('intersection_indices_X', None, 'an added cell is listed as common')
            one('intersection_indices_Y', None, 'an added cell is listed as common')
            z = Facts(conds(x.trace)).holds('<', 0, D)
            if z is not False:
                b = A('boundary', C2, D, J)
                one('boundary_indices', field(b, 'first'), 'faces of an added cell')
                if z is None and not any(c.t[0] == 'cmp' and any(s == D for s in subterms(unld(c.t))) for c in conds(x.trace)) and pu.get(R['boundary_indices']):
                    K.ok(False, 'column0', 'the boundary of an added vertex is read', main.line)
    dl = [L for L in loops if L is not main and any(unld(e.obj) == R['deletion_indices'] for x in L.paths for e in deepev(x.trace) if e.obj is not None)]
    if flag is None or len(dl) != 1:
        if not dl and not any(e.obj is not None and unld(e.obj) == R['deletion_indices'] and e.k == 'call' for e in evs(q.trace)):
            K.ok(False, 'deletions', 'deleted cells are not listed')
        else:
            rec(ctx, "deletions")
        return
    L = dl[0]
    if q.trace.index(L) < q.trace.index(main):
        K.ok(False, 'deletions', 'deleted cells are listed before the cells are compared', L.line)
        return
    tr = trip(L)
    if tr is None:
        rec(ctx, "deletions")
        return
    k, lo, hi, st = tr
    init = {}
    for e in evs(q.trace, 'set'):
        if e.name == 'init' and e.obj is not None and unld(e.obj) == flag:
            init[flag] = cn(e.args[0], env)
    K.eq(cn(lo, env), 0, 'first cell of the old complex', L.line, 'R18-cover')
    h = cn(hi, env)
    if h == ('size', flag, 0) and flag in init:
        h = cn(('size', init[flag], 0), env)
    K.eq(h, n1, 'end of the cells of the old complex', L.line, 'R18-cover')
    for x in cont(L):
        m = marked(x, flag, k, env)
        v = pushes(x.trace, env).get(R['deletion_indices'], [])
        if m is None:
            rec(ctx, "deletions")
        elif m:
            K.ok(not v, 'deletions', 'a common cell is listed as deleted', L.line)
        else:
            ctx.count("definitions")
            K.ok(len(v) == 1, 'deletions', 'a deleted cell is listed %s times' % len(v), L.line)
            for val, e in v:
                K.eq(val, k, 'index of a deleted cell', e.line)


# ------------------------------------------------------------------ application
R_, U_ = field(TH, 'R'), field(TH, 'U')
DEL = {'erase_final_rows_unsafe': ('row', 'last'), 'erase_final_rows': ('row', 'last'), 'erase_final_columns': ('col', 'last'), 'erase_final_cols': ('col', 'last'),
       'erase_initial_cols': ('col', 'first'), 'erase_initial_columns': ('col', 'first'), 'erase_initial_rows': ('row', 'first')}


def mats(ev):
    o = unld(ev.obj) if ev.obj is not None else None
    if isinstance(o, tuple) and o[0] == 'ix' and o[1] in (R_, U_):
        return ('R' if o[1] == R_ else 'U'), o[2]
    return None


def app_cells(ctx, u):
    for name in ('_delete_cells', '_insert_cells'):
        fs = list(methods(u, 'ReducedDGVectorSpace', name))
        ctx.need(fs, "no " + name)
        f = fs[0]
        ctx.function(f)
        K = Ctx(ctx, f, name, name)
        k, UI = par(f, 0, u), par(f, 1, u)
        nd, ii = ix(field(UI, 'ndeletions'), k), ix(field(UI, 'insertion_indices'), k)
        e = Engine(u, vocab=lambda n, x: la_mutator(n, x) or short(n) in ('transpose', 'gemv', 'cast_values', 'T') or n.startswith('std::chrono'), maxpaths=20000)
        amount = nd if name == '_delete_cells' else ('size', ii, 0)
        for p in e.run(f):
            if p.exit == 'throw':
                continue
            fa = Facts([c for c in p.trace if isinstance(c, Cond)])
            ops = []
            odd = False
            for it in p.trace:
                if isinstance(it, Ev) and it.k in ('call', 'set') and mats(it):
                    if it.k == 'set' or not (short(it.name) in DEL or short(it.name) in ('insert_rows', 'insert_columns', 'insert_cols')):
                        odd = True
                    else:
                        ops.append((it, mats(it)))
                elif isinstance(it, Loop):
                    for q in it.paths:
                        for x in deepev(q.trace):
                            if x.k == 'call' and mats(x) and short(x.name) not in ('gemv', 'transpose', 'T', 'cast_values'):
                                odd = True
            if odd:
                rec(ctx, "updates")
                continue
            none = fa.holds('==', amount, 0)
            if none is None:
                h = fa.holds('<', 0, amount)
                none = None if h is None else not h
            if none is True:
                ctx.check(True, 'R18-apply', f.loc(), '', name + '/none')
                continue
            d = deg(fa, TH)
            if d is None:
                rec(ctx, "updates")
                continue
            ctx.count("definitions")
            top = fa.holds('<', add(k, 1), ('size', R_, 0))
            if top is None:
                b = fa.holds('<', k, sub(('size', R_, 0), 1))
                top = b
            kk = k if d == -1 else add(k, 1)
            got = {}
            for it, (m, i) in ops:
                s = short(it.name)
                if s in DEL:
                    side, end = DEL[s]
                    K.eq(cn(it.args[0]), nd, 'number of %ss erased from %s' % (side, m), it.line, 'R18-apply')
                    K.ok((end == 'last') == (d == -1), 'end', 'degree %+d: erases the %s %ss of %s' % (d, end, side, m), it.line, 'R18-apply')
                else:
                    side = 'row' if s == 'insert_rows' else 'col'
                    K.eq(cn(it.args[0]), ii, 'positions of the %ss inserted into %s' % (side, m), it.line, 'R18-apply')
                    content(ctx, K, p, it, m, side, d, k, UI)
                got.setdefault((m, side, cn(i)), []).append(it)
            want = {('R', 'col', kk), ('U', 'row', kk), ('U', 'col', kk)}
            other = ('R', 'row', add(k, 1) if d == -1 else k)
            if d == 1 or top is not False:
                want.add(other)
            if d == -1 and top is None and other in got:
                K.ok(False, 'top', 'degree -1: rows of R[%s] are changed without checking that it exists' % show(add(k, 1)), rule='R18-apply') if not any(s == ('size', R_, 0) or (isinstance(s, tuple) and s[:1] == ('size',)) for c in p.trace if isinstance(c, Cond) for s in subterms(unld(c.t)) if s != ('size', ii, 0)) else None
            for w in sorted(want, key=repr):
                K.ok(w in got, '%s/%s/%+d' % (w[0], w[1], d), 'degree %+d: %ss of %s[%s] are not %s' % (d, w[1], w[0], show(w[2]), 'erased' if name == '_delete_cells' else 'inserted'), rule='R18-apply')
            for g in sorted(got, key=repr):
                if g not in want and plain(g[2]):
                    if g == other:
                        K.ok(False, 'top', 'degree %+d: %ss of %s[%s], which does not exist, are changed' % (d, g[1], g[0], show(g[2])), got[g][0].line, 'R18-apply')
                    else:
                        K.ok(False, 'extra', 'degree %+d: %ss of %s[%s] are changed' % (d, g[1], g[0], show(g[2])), got[g][0].line, 'R18-apply')
                K.ok(len(got[g]) == 1, 'twice', 'degree %+d: %ss of %s[%s] are changed %s times' % (d, g[1], g[0], show(g[2]), len(got[g])), got[g][0].line, 'R18-apply')


def filled(p, v, before):
    """the loop that fills the local list v: (loop, symbol, value) when one push per round over all new cells"""
    out = None
    size = None
    for it in p.trace:
        if it is before:
            break
        if isinstance(it, Ev) and it.obj is not None and unld(it.obj) == v:
            if it.k == 'set':
                t = unld(it.args[0])
                out = None
                size = t
            elif it.k == 'call' and short(it.name) == 'clear':
                out, size = None, None
            elif it.k == 'call' and short(it.name) not in ('reserve',):
                return 'unk', None, None, None
        elif isinstance(it, Loop):
            hit = [x for q in it.paths for x in deepev(q.trace) if x.obj is not None and unld(x.obj) == v]
            if hit:
                tr = trip(it)
                vs = [pushes(q.trace, None).get(v, []) for q in cont(it)]
                if tr is None or any(len(x) != 1 for x in vs) or out is not None:
                    return 'unk', None, None, None
                out = (tr, vs[0][0][0], vs[0][0][1])
    if out is None:
        return 'init', size, None, None
    return 'loop', out[0], out[1], out[2]


def content(ctx, K, p, it, m, side, d, k, UI):
    ii, ic = ix(field(UI, 'insertion_indices'), k), ix(field(UI, 'insertion_cols'), k)
    n = ('size', ii, 0)
    a = it.args[1:]
    what = '%ss inserted into %s' % (side, m)
    if (m, side) == ('U', 'row') or (m, side, d) == ('R', 'row', -1):
        if a:
            rec(ctx, "contents")
        else:
            ctx.check(True, 'R18-apply', K.f.loc(it.line), '', K.key + '/' + what)
        return
    if not a:
        rec(ctx, "contents")
        return
    v = unld(a[0])
    if not (isinstance(v, tuple) and v[0] == 'v'):
        rec(ctx, "contents")
        return
    kind, tr, val, ev = filled(p, v, it)
    if kind == 'unk':
        rec(ctx, "contents")
        return
    if kind == 'init':
        t = cn(tr) if tr is not None else None
        z = isinstance(t, tuple) and t[0] == 'app' and t[1] == 'new vector' and len(t[2]) >= 1 and t[2][0] == n
        if (m, side, d) == ('R', 'col', 1):
            if not z:
                rec(ctx, "contents")
            else:
                ctx.check(True, 'R18-apply', K.f.loc(it.line), '', K.key + '/' + what)
        elif z or t is None:
            K.ok(False, what, 'degree %+d: %s are empty' % (d, what), it.line, 'R18-apply')
        return
    i, lo, hi, st = tr
    K.eq(cn(lo), 0, 'first of the ' + what, it.line, 'R18-apply')
    K.eq(cn(hi), [n, ('size', ic, 0)], 'end of the ' + what, it.line, 'R18-apply')
    core = uncast(val)
    col = ix(ic, i)
    if m == 'U':
        ok = isinstance(core, tuple) and core[0] == 'app' and core[1] == 'new SparseVector' and core[2][:1] == (ix(ii, i),)
        if ok:
            ctx.check(True, 'R18-apply', K.f.loc(it.line), '', K.key + '/' + what)
        elif isinstance(core, tuple) and core[0] == 'app' and core[1] == 'new SparseVector' and all(plain(x) for x in core[2]):
            K.ok(False, what, 'degree %+d: basis column %s is inserted at %s' % (d, show(core), show(ix(ii, i))), it.line, 'R18-apply')
        elif core == col:
            K.ok(False, what, 'degree %+d: boundaries are inserted into the basis' % d, it.line, 'R18-apply')
        else:
            rec(ctx, "contents")
    elif d == -1:
        K.eq(core, col, what, it.line, 'R18-apply')
    elif side == 'row':
        # boundary times basis: gemv(transpose(U[k]), boundary)
        if isinstance(core, tuple) and core[0] == 'app' and core[1] == 'gemv':
            M, x = core[2][0], uncast(core[2][1])
            if isinstance(M, tuple) and M[0] == 'app' and M[1] in ('transpose', 'T'):
                K.eq(M[2][0], ix(U_, k), 'basis the new rows are written in', it.line, 'R18-apply')
                K.eq(x, col, what, it.line, 'R18-apply')
            elif M == ix(U_, k) or isinstance(M, tuple) and M[0] == 'app' and M[1] == 'new ColumnMatrix' and M[2] == (ix(U_, k),):
                K.ok(False, what, 'new rows are the basis times the boundary, not the boundary times the basis', it.line, 'R18-apply')
            else:
                rec(ctx, "contents")
        elif core == col:
            K.ok(False, what, 'new rows are boundaries, not boundaries times the basis', it.line, 'R18-apply')
        else:
            rec(ctx, "contents")
    else:
        rec(ctx, "contents")


def uncast(t):
    while isinstance(t, tuple) and t and t[0] == 'app' and t[1] in ('cast_values', 'new SparseVector') and t[2] and isinstance(t[2][0], tuple) and t[2][0][0] in ('app', 'ix') and (t[1] == 'cast_values' or not (t[2][0][0] == 'ix' and t[2][0][1][0] == 'ix' and t[2][0][1][1][0] == 'f' and t[2][0][1][1][2] == 'insertion_indices')):
        t = t[2][0]
    return t


def update(ctx, u):
    fs = [f for f in methods(u, 'ReducedDGVectorSpace', 'update_basis') if len(f.d['ps']) == 1]
    ctx.need(fs, "no update_basis(UpdateInfo2)")
    f = fs[0]
    ctx.function(f)
    K = Ctx(ctx, f, 'update_basis', 'update_basis')
    UI = par(f, 0, u)
    STEP = {'permute_matrices', '_make_U_upper_triangular', '_delete_cells', '_insert_cells'}
    e = Engine(u, vocab=lambda n, x: la_mutator(n, x) or short(n) in STEP | {'set_indices'} or short(n).startswith('reduce'), maxpaths=20000)
    nperm = ('size', field(UI, 'perm'), 0)
    RED = ('reduce_matrix', 'reduce_matrix_clearing', 'reduce_matrix_standard')
    for p in e.run(f):
        if p.exit == 'throw':
            continue
        d = deg(Facts([c for c in p.trace if isinstance(c, Cond)]), TH)
        stage = []
        odd = False
        for it in p.trace:
            if isinstance(it, Loop):
                tr = trip(it)
                for q in cont(it):
                    dd = deg(Facts([c for c in q.trace if isinstance(c, Cond)]), TH)
                    if dd is not None and d is not None and dd != d:
                        continue
                    for n, x in enumerate(q.trace):
                        if isinstance(x, Loop) and any(short(y.name) in STEP for z in x.paths for y in deepev(z.trace)):
                            odd = True
                        if isinstance(x, Ev) and x.k == 'call' and short(x.name) in STEP:
                            stage.append((it, tr, id(q), n, x, dd or d))
            elif isinstance(it, Ev) and short(it.name) in STEP:
                odd = True
        if odd or any(s[1] is None for s in stage):
            rec(ctx, "schedules")
            continue
        ctx.count("definitions")
        by = {}
        for s in stage:
            by.setdefault(short(s[4].name), []).append(s)
        for nm in STEP:
            K.ok(nm in by, nm, 'never calls %s' % nm, rule='R18-apply')
        order = {nm: [p.trace.index(s[0]) for s in by.get(nm, [])] for nm in STEP}
        for s in stage:
            L, tr, q, n, ev, dd = s
            nm = short(ev.name)
            a = cn(lock(L, ev.args[0], tr))
            kk = tr[0] if nm != '_make_U_upper_triangular' else None
            K.eq(cn(tr[1]), 0, nm + ': first dimension', ev.line, 'R18-apply')
            K.eq(cn(tr[2]), [nperm] + [('size', field(UI, x), 0) for x in ('insertion_indices', 'ndeletions', 'insertion_cols')], nm + ': end of the dimensions', ev.line, 'R18-apply')
            if nm == '_make_U_upper_triangular':
                if dd is not None:
                    K.eq(a, tr[0] if dd == -1 else add(tr[0], 1), nm + ': dimension', ev.line, 'R18-apply')
            else:
                K.eq(a, tr[0], nm + ': dimension', ev.line, 'R18-apply')
            if nm == 'permute_matrices':
                K.eq(cn(lock(L, ev.args[1], tr)), ix(field(UI, 'perm'), tr[0]), 'permutation applied', ev.line, 'R18-apply')
        if order['permute_matrices']:
            late = [nm for nm in STEP - {'permute_matrices'} if order[nm] and min(order[nm]) <= max(order['permute_matrices'])]
            K.ok(not late, 'order', '%s before every dimension is permuted' % ', '.join(late), rule='R18-apply')
        seq = ['_make_U_upper_triangular', '_delete_cells', '_insert_cells']
        for a, b in zip(seq, seq[1:]):
            for s in by.get(a, []):
                for t in by.get(b, []):
                    if s[0] is t[0] and s[2] != t[2]:
                        continue
                    if s[0] is t[0]:
                        K.ok(s[3] < t[3], 'order/' + b, '%s comes before %s' % (b, a), t[4].line, 'R18-apply')
                    else:
                        K.ok(p.trace.index(s[0]) < p.trace.index(t[0]), 'order/' + b, '%s comes before %s' % (b, a), t[4].line, 'R18-apply')


def fdg(ctx, u):
    """ReducedFilteredDGVectorSpace::update_basis: reversal, permutations, values"""
    for f in u.funcs:
        if f.dep or f.d.get('b') is None or f.d.get('imp') or short(f.name) != 'update_basis' or not cls_of(f.name).startswith('ReducedFiltered'):
            continue
        if len(f.d['ps']) != 1 or 'UpdateInfo2' not in u.type(f.d['ps'][0]['t']):
            continue
        ctx.function(f)
        K = Ctx(ctx, f, cls_of(f.name) + '::update_basis', cls_of(f.name))
        UI = par(f, 0, u)
        e = Engine(u, vocab=lambda n, x: short(n) in ('update_basis', 'reverse_for_cohomology') and cls_of(n) != cls_of(f.name), maxpaths=2000)
        for p in e.run(f):
            if p.exit == 'throw':
                continue
            ev = [x for x in deepev(p.trace)]
            r = [x for x in ev if short(x.name) == 'reverse_for_cohomology']
            b = [x for x in ev if short(x.name) == 'update_basis']
            s = {unld(x.obj)[2]: x for x in ev if x.k == 'set' and x.obj is not None and isinstance(unld(x.obj), tuple) and unld(x.obj)[0] == 'f' and unld(x.obj)[1] == TH}
            if len(b) != 1:
                rec(ctx, "updates")
                continue
            ctx.count("definitions")
            d = deg(p, unld(b[0].obj)) if b[0].obj is not None else None
            if d == 1 or d is None and not any(isinstance(c, Cond) for c in p.trace):
                K.ok(bool(r), 'reverse', 'cohomology is updated with information in homology order', rule='R18-apply')
            elif d == -1:
                K.ok(not r, 'reverse', 'homology is updated with reversed information', rule='R18-apply')
            if r:
                K.ok(ev.index(r[0]) < ev.index(b[0]), 'reverse/order', 'the information is reversed after it was used', rule='R18-apply')
            for nm, src in (('perm', 'perms2'), ('val', 'newval')):
                if nm in s:
                    K.eq(cn(s[nm].args[0]), field(UI, src), nm + ' stored', s[nm].line, 'R18-apply')
                    if nm == 'perm' and r:
                        K.ok(ev.index(r[0]) < ev.index(s[nm]), 'perm/order', 'the permutation is stored before it was reversed', rule='R18-apply')
                elif not any(x.k == 'call' and x.obj is not None and unld(x.obj) == field(TH, nm) for x in ev):
                    K.ok(False, nm, '%s is not replaced' % nm, rule='R18-apply')


# ------------------------------------------------------------------ update_basis_general
GEN = {'_make_U_upper_triangular', 'find_reverse_index', 'sortperm', 'apply_perm_swap', 'inv_perm', 'apply_perm', 'perm_to_the_end', 'extension_perm', 'identity_perm',
       'permute_matrices', 'reduce_matrix', 'reduce_matrix_standard', 'reduce_matrix_clearing', 'set_indices', 'transpose', 'T', 'gemv'}
LAST = dict(DEL, erase_rows=('row', 'last'), erase_column=('col', 'one'), erase_row_unsafe=('row', 'one'), erase_row=('row', 'one'), erase_col=('col', 'one'))
INS = {'insert_rows': 'row', 'insert_columns': 'col', 'insert_cols': 'col', 'insert_sparse_rows': 'row', 'insert_row': 'row1', 'insert_column': 'col1', 'insert_col': 'col1'}
APP = {'append_row': 'row', 'append_column': 'col', 'append_col': 'col'}
WRAP = ('sorted', 'rev', 'by', 'perm')


def sz(x):
    if isinstance(x, tuple) and x:
        if x[0] in WRAP or x[0] == 'app' and x[1] == 'find_reverse_index':
            return sz(x[1] if x[0] in WRAP else x[2][0])
        if x[0] == 'app' and x[1] == 'new vector' and x[2]:
            return x[2][0]
        if x[0] == 'filled':
            return x[1]
        if x[0] == 'list':
            return sub(x[3], x[2])
    return ('size', x, 0)


def gv(t, env):
    """value of a term: locals replaced by what they hold, lists in the order they were brought into"""
    t = unld(t)
    if not isinstance(t, tuple) or not t:
        return t
    if t in env:
        return env[t]
    if t[0] == 'poly':
        r = 0
        for m, c in t[1]:
            x = c
            for a in m:
                x = mul(x, gv(a, env))
            r = add(r, x)
        return r
    if t[0] == 'app':
        new = str(t[1]).startswith('new ')
        n = short(str(t[1]).replace('new ', ''))
        a = tuple(gv(x, env) for x in t[2])
        a = tuple(x for x in a if not (isinstance(x, tuple) and x[:1] == ('app',) and x[1] == 'new allocator'))
        if n == 'find_reverse_index' and a and a[0] == TH:
            a = a[1:]
        if new and n == 'vector' and len(a) == 1 and isinstance(t[2][0], tuple) and unld(t[2][0])[0] in ('v', 'ix', 'f') and len(t[2]) == 1:
            return a[0]
        return ('app', ('new ' if new else '') + n, a)
    if t[0] == 'size':
        return sz(gv(t[1], env))
    if t[0] in ('ix', 'f', 'it', 'cmp', 'bool'):
        return tuple(gv(x, env) if isinstance(x, tuple) else x for x in t)
    return t


def gknown(t):
    for s in subterms(t):
        if isinstance(s, tuple) and s and (s[0] in ('deref', 'ite', 'envvar', 'lv', 'unk', 'opaque', 'v0') or s[0] == 'v' and s[1] != 'UI' and len(s) == 3 and s[2] != 0):
            return False
        if isinstance(s, tuple) and s and s[0] == 'app' and s[1] not in GEN | {'new SparseVector', 'new vector'}:
            return False
    return True


def gsub(t, sym, val):
    if t == sym:
        return val
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'poly':
        r = 0
        for m, c in t[1]:
            x = c
            for a in m:
                x = mul(x, gsub(a, sym, val))
            r = add(r, x)
        return r
    return tuple(gsub(x, sym, val) for x in t)


class Round:
    """operations of one straight-line piece on R and U, in order"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.ops = []        # (matrix, index, kind, side, amount/list, content, event)
        self.tri = []        # (index, event, position)
        self.red = []        # (p2c index, R index, event, position)
        self.perm = []       # (dimension, permutation, event)
        self.env = {}
        self.odd = False

    def mutate(self, key, f):
        key = unld(key)
        self.env[key] = f(gv(key, self.env))

    def event(self, e, loop=None):
        s = short(e.name)
        env = self.env
        o = unld(e.obj) if e.obj is not None else None
        if e.k == 'set':
            if o is None or not e.args:
                return
            if isinstance(o, tuple) and o[0] == 'ix' and o[1] == field(TH, 'p2c'):
                v = unld(e.args[0])
                if isinstance(v, tuple) and v[0] == 'app' and short(str(v[1])).startswith('reduce_matrix'):
                    a = v[2]
                    self.red.append((gv(o[2], env), short(str(v[1])), tuple(gv(x, env) for x in a), e, len(self.ops)))
                return
            root = o
            while isinstance(root, tuple) and root[0] in ('ix', 'f'):
                root = root[1]
            if isinstance(root, tuple) and root[0] == 'v':
                env[o] = gv(e.args[0], env) if e.name in ('=', 'init', 'operator=') or e.name.endswith('=') and short(e.name) in ('=', 'operator=') else ('unk',)
                if root == o:
                    for kx in [x for x in env if x != o and isinstance(x, tuple) and x[0] == 'ix' and x[1] == o]:
                        del env[kx]
            return
        if e.k == 'pure':
            if s in ('sortperm', 'inv_perm') and e.args:
                raw = unld(e.args[0])
                for t in self.pend(e):
                    env[t] = ('app', s, (gv(raw, env),))
            return
        if e.k != 'call':
            return
        m = mats(e)
        if m:
            M, i = m[0], gv(m[1], env)
            a = [gv(x, env) for x in e.args]
            if s in LAST:
                side, end = LAST[s]
                if end == 'first':
                    self.odd = True
                self.ops.append((M, i, 'del', side, 1 if end == 'one' else a[0] if a else None, s, e, loop))
                if end == 'one' and a:
                    self.odd = True
            elif s in INS:
                self.ops.append((M, i, 'ins', INS[s], a[0] if a else None, a[1] if len(a) > 1 else None, e, loop))
            elif s in APP:
                self.ops.append((M, i, 'app', APP[s], 1, a[0] if a else None, e, loop))
            elif s in ('swap_cols', 'permute_rows', 'permute_cols'):
                pass
            elif s not in ('gemv', 'T', 'transpose', 'nrow', 'ncol', 'dim'):
                self.odd = True
            return
        if s == '_make_U_upper_triangular':
            self.tri.append((gv(e.args[0], env), e, len(self.ops)))
        elif s == 'reduce_matrix_standard' and len(e.args) >= 2 and isinstance(unld(e.args[0]), tuple) and unld(e.args[0])[0] == 'ix' and unld(e.args[0])[1] == U_:
            self.tri.append((gv(unld(e.args[0])[2], env), e, len(self.ops)))
        elif s == 'permute_matrices':
            self.perm.append((gv(e.args[0], env), gv(e.args[1], env), e))
        elif s in ('sort', 'reverse', 'fill') and e.args:
            it = unld(e.args[0])
            if isinstance(it, tuple) and it[0] == 'it':
                c = it[1]
                if s == 'fill':
                    self.mutate(c, lambda x: ('filled', sz(x), gv(e.args[2], env)))
                elif s == 'sort' and len(e.args) > 2:
                    self.mutate(c, lambda x: ('unk',))
                else:
                    self.mutate(c, lambda x: ('sorted' if s == 'sort' else 'rev', x))
        elif s == 'apply_perm' and len(e.args) == 2:
            p = gv(e.args[1], env)
            self.mutate(e.args[0], lambda x: ('app', 'apply_perm', (x, p)))
        elif s == 'apply_perm_swap' and len(e.args) == 2:
            p = gv(e.args[1], env)

            def app(x):
                if isinstance(p, tuple) and p[0] == 'app' and p[1] == 'inv_perm' and isinstance(p[2][0], tuple) and p[2][0][:2] == ('app', 'sortperm'):
                    a = p[2][0][2][0]
                    return ('sorted', x) if a == x else ('by', x, a)
                return ('perm', x, p)
            self.mutate(e.args[0], app)
        elif s in PUSH and o is not None:
            env[o] = ('pushed', gv(e.args[0], env))
        elif o is not None and isinstance(o, tuple) and o[0] == 'v' and s not in ('reserve', 'size', 'begin', 'end'):
            env[o] = ('unk',)

    def pend(self, e):
        """raw terms that name the result of a pure call"""
        return [('app', e.name, tuple(unld(x) for x in e.args))] + ([unld(e.res)] if e.res is not None else [])

    def loop(self, L):
        tr = trip(L)
        qs = cont(L)
        rounds = []
        for q in qs:
            r = Round(self.ctx)
            r.env = dict(self.env)
            r.trace(q.trace)
            rounds.append(r)
        touched = any(r.ops or r.tri or r.red or r.perm for r in rounds) or any(r.env != self.env for r in rounds)
        if not touched:
            return
        if any(r.odd or r.tri or r.red or r.perm for r in rounds):
            self.odd = True
            return
        if len({tuple(o[:6] for o in r.ops) for r in rounds}) != 1 or tr is None or tr[3] not in (1, -1):
            if any(r.ops for r in rounds):
                self.odd = True
            for r in rounds:
                for kx in r.env:
                    if r.env[kx] != self.env.get(kx):
                        self.env[kx] = ('unk',)
            return
        r = rounds[0]
        i, lo, hi, st = tr
        lo, hi = gv(lo, self.env), gv(hi, self.env)
        cs = counters(L)
        for o in r.ops:
            M, ind, kind, side, amt, con, e, lp = o
            if kind == 'del' and LAST[con][1] == 'one':
                self.ops.append((M, ind, kind, side, sub(hi, lo), con, e, None))
            elif kind == 'app':
                self.ops.append((M, ind, kind, side, sub(hi, lo), None if con is None else ('content', gv(lock(L, e.args[0], tr), self.env), i, lo), e, None))
            elif kind == 'ins' and side in ('row1', 'col1') and isinstance(amt, tuple) and amt[0] == 'ix' and amt[2] == i and lo == 0 and hi == sz(amt[1]):
                self.ops.append((M, ind, kind, side[:3], amt[1], None if con is None else ('list', i, lo, hi, con), e, None))
            elif kind == 'ins' and side in ('row1', 'col1') and amt is not None and gknown(amt):
                self.ops.append((M, ind, kind, side[:3], ('list', i, lo, hi, amt), None if con is None else ('list', i, lo, hi, con), e, None))
            else:
                self.odd = True
        for kx in r.env:
            v = r.env[kx]
            if self.env.get(kx) == v:
                continue
            if isinstance(kx, tuple) and kx[0] == 'ix' and kx[2] == i:
                self.env[kx[1]] = ('list', i, lo, hi, v)
            elif isinstance(v, tuple) and v[:1] == ('pushed',):
                self.env[kx] = ('list', i, lo, hi, v[1])
            elif isinstance(kx, tuple) and kx[0] == 'v':
                self.env[kx] = ('unk',)

    def trace(self, tr):
        for it in tr:
            if isinstance(it, Ev):
                self.event(it)
            elif isinstance(it, Loop):
                self.loop(it)
            elif isinstance(it, Leave):
                self.trace(it.path.trace)


def ones(t, lst, K, what, e):
    """values of an inserted boundary: one per index"""
    if isinstance(t, tuple) and t[0] == 'app' and t[1] == 'new vector' and t[2]:
        n, c = t[2][0], t[2][1] if len(t[2]) > 1 else 0
    elif isinstance(t, tuple) and t[0] == 'filled':
        n, c = t[1], t[2]
    else:
        return
    if is_num(c):
        K.ok(c != 0, what + '/value', '%s have coefficient %s' % (what, show(c)), e.line, 'R18-apply')
    if gknown(n):
        K.ok(n == sz(lst), what + '/number', '%s have %s coefficients for %s indices' % (what, show(n), show(sz(lst))), e.line, 'R18-apply')


def general(ctx, u):
    found = 0
    for cls in ('ReducedDGVectorSpace', 'ReducedChainComplex'):
        for name in ('update_basis_general', 'update_basis_general_clearing'):
            for f in list(methods(u, cls, name))[:1]:
                found += 1
                ctx.function(f)
                general_one(ctx, u, f, cls == 'ReducedDGVectorSpace')
    ctx.need(found, "no update_basis_general")


def general_one(ctx, u, f, dg):
    nm = short(f.name)
    K = Ctx(ctx, f, '%s::%s' % (cls_of(f.name), nm), '%s/%s' % (cls_of(f.name), nm))
    UI = par(f, 0, u)
    md = field(UI, 'max_dim')
    e = Engine(u, vocab=lambda n, x: la_mutator(n, x) or short(n) in GEN and short(n) != nm or n.startswith(('std::chrono', 'std::sort', 'std::reverse', 'std::fill')), maxpaths=20000)
    for p in e.run(f):
        if p.exit == 'throw':
            continue
        dp = -1
        if dg:
            ds = degrees([c for c in p.trace if isinstance(c, Cond)])
            if len(ds) > 1:
                continue
            dp = ds.pop() if ds else None
        head = Round(ctx)
        state = 'perm'
        for it in p.trace:
            if isinstance(it, Loop):
                tr = trip(it)
                inner = [x for q in it.paths for x in deepev(q.trace)]
                steps = [x for x in inner if short(x.name) == 'permute_matrices' or x.k == 'call' and mats(x) and (short(x.name) in LAST or short(x.name) in INS or short(x.name) in APP) or short(x.name) in ('_make_U_upper_triangular',)]
                by_dim = tr is not None and any(tr[0] in set(subterms(unld(mats(x)[1]))) | {unld(mats(x)[1])} for x in steps if mats(x)) or any(short(x.name) in ('permute_matrices', '_make_U_upper_triangular') for x in steps)
                if not by_dim:
                    if any(short(x.name).startswith('reduce_matrix') for x in inner):
                        final(ctx, K, it, tr, dp, md)
                        state = 'final'
                        continue
                    head.loop(it)
                    continue
                if tr is None:
                    rec(ctx, "schedules")
                    continue
                perms = [x for x in steps if short(x.name) == 'permute_matrices']
                if perms and len(perms) == len(steps):
                    if state != 'perm':
                        K.ok(False, 'order', 'the cells are permuted after the factorization was changed', perms[0].line, 'R18-apply')
                    K.eq(gv(tr[1], {}), 0, 'first dimension permuted', perms[0].line, 'R18-apply')
                    K.eq(gv(tr[2], {}), add(md, 1), 'end of the dimensions permuted', perms[0].line, 'R18-apply')
                    state = 'permuted'
                    for q in cont(it):
                        step1(ctx, K, q, tr[0], dp, dg, UI)
                elif perms:
                    rec(ctx, "schedules")
                else:
                    K.ok(state in ('permuted', 'main'), 'order/perm', 'the factorization is changed before the cells are permuted', it.line if hasattr(it, 'line') else None, 'R18-apply')
                    state = 'main'
                    K.eq(gv(tr[1], {}), 0, 'first dimension updated', None, 'R18-apply')
                    K.eq(gv(tr[2], {}), add(md, 1), 'end of the dimensions updated', None, 'R18-apply')
                    for q in cont(it):
                        step2(ctx, K, q, tr[0], dp, dg, UI, nm)
            elif isinstance(it, Ev):
                head.event(it)
            elif isinstance(it, Leave):
                head.trace(it.path.trace)
        if state == 'perm':
            rec(ctx, "schedules")
            continue
        if dg:
            top(ctx, K, head, dp, md, UI)


def kzero(fa, k):
    z = fa.holds('==', k, 0)
    if z is None:
        h = fa.holds('<', 0, k)
        z = None if h is None else not h
    return z


def degrees(cs):
    """degrees the conditions of a path settle on (both: the path is impossible)"""
    d = field(TH, 'degree')
    s = set()
    for c in cs:
        t = unld(c.t)
        if isinstance(t, tuple) and t[0] == 'cmp' and t[1] == '==' and d in t[2:]:
            n = [x for x in t[2:] if x != d][0]
            if n in (1, -1):
                s.add(n if c.pol else -n)
    return s


def facts(q, k):
    """path facts, or None when the path contradicts itself about the degree or the dimension"""
    cs = [c for c in conds(q.trace)]
    fa = Facts(cs)
    s = degrees(cs)
    if len(s) > 1:
        return None, None
    z = set()
    for c in cs:
        t = unld(c.t)
        if isinstance(t, tuple) and t[0] == 'cmp' and t[1] == '==' and set(t[2:]) == {k, 0}:
            z.add(c.pol)
    if len(z) > 1:
        return None, None
    return fa, (s.pop() if s else None)


def empty(fa, lst):
    n = ('size', lst, 0)
    z = fa.holds('==', n, 0)
    if z is None:
        h = fa.holds('<', 0, n)
        z = None if h is None else not h
    return z


def step1(ctx, K, q, k, dp, dg, UI):
    fa, d = facts(q, k)
    if fa is None:
        return
    d = d or dp if dg else -1
    if d is None or dp is not None and d != dp:
        if d is None:
            rec(ctx, "permutations")
        return
    r = Round(ctx)
    r.trace(q.trace)
    K.ok(len(r.perm) == 1, 'permute', 'a dimension is permuted %s times' % len(r.perm), rule='R18-apply')
    if len(r.perm) != 1:
        return
    ctx.count("definitions")
    dim, P, e = r.perm[0]
    N = field(ix(R_, k), 'm' if d == 1 else 'n')
    dl, pm = ix(field(UI, 'deletion_indices'), k), ix(field(UI, 'permutations'), k)
    K.eq(dim, k, 'dimension permuted', e.line, 'R18-apply')

    def rv(x, n):
        return A('find_reverse_index', x, n)
    z = empty(fa, dl)
    dels = [dl] if d == -1 else [('sorted', rv(dl, N)), ('rev', rv(dl, N))]
    D = [A('perm_to_the_end', x, N) for x in dels]
    if z is True:
        D.append(A('identity_perm', N))
    n = ('size', pm, 0)
    I = [A('extension_perm', x, N) for x in ([pm] if d == -1 else [('rev', rv(pm, n)), rv(('rev', pm), n)])]
    if not (isinstance(P, tuple) and P[:2] == ('app', 'apply_perm')):
        if gknown(P):
            K.ok(False, 'permutation', 'degree %+d: cells are permuted by %s, without %s' % (d, show(P), 'the move of deleted cells to the end' if P in I else 'the order of the common cells'), e.line, 'R18-apply')
        else:
            rec(ctx, "permutations")
        return
    a, b = P[2]
    if a in I and b in D and a not in D:
        K.ok(False, 'permutation', 'degree %+d: the common cells are permuted before the deleted ones are moved to the end' % d, e.line, 'R18-apply')
        return
    for got, want, what in ((a, D, 'move of the deleted cells to the end'), (b, I, 'permutation of the common cells')):
        if got in want:
            ctx.check(True, 'R18-apply', K.f.loc(e.line), '', K.key + '/' + what)
        elif gknown(got):
            K.ok(False, what, 'degree %+d: %s is %s, expected %s' % (d, what, show(got), show(want[0])), e.line, 'R18-apply')
        else:
            rec(ctx, "permutations")


def step2(ctx, K, q, k, dp, dg, UI, nm):
    fa, d = facts(q, k)
    if fa is None:
        return
    d = d or dp if dg else -1
    if d is None or dp is not None and d != dp:
        if d is None:
            rec(ctx, "updates")
        return
    z = kzero(fa, k)
    km = sub(k, 1)
    for s in [s for c in q.trace if isinstance(c, Cond) for s in subterms(unld(c.t))] + [s for x in q.trace if isinstance(x, Ev) for a in list(x.args) + [x.obj] if a is not None for s in subterms(unld(a))]:
        if isinstance(s, tuple) and s[:1] == ('ix',) and s[2] == km:
            K.ok(z is False, 'vertices', '%s is read without knowing that k is positive' % show(s), rule='R18-apply')
            if z is not False:
                return
    r = Round(ctx)
    r.trace(q.trace)
    if r.odd:
        rec(ctx, "updates")
        return
    ctx.count("definitions")
    dl, al = field(UI, 'deletion_indices'), field(UI, 'addition_indices')
    w = 'degree %+d: ' % d
    # triangular basis before anything is cut off
    first = [t for t in r.tri if t[2] == 0]
    K.ok(bool(first), 'triangular', w + 'rows and columns are cut off a basis that was not made triangular', rule='R18-apply')
    for t in r.tri:
        K.eq(t[0], [k] if d == -1 else [k, add(k, 1)], 'dimension made triangular', t[1].line, 'R18-apply')
    # which block changes: own cells and faces
    own, face = ([('R', 'col'), ('U', 'row'), ('U', 'col')], [('R', 'row')]) if d == -1 else ([('R', 'row')], [('R', 'col'), ('U', 'row'), ('U', 'col')])
    want = {}
    for (M, s) in own:
        want[(M, s)] = (k, ix(dl, k), ix(al, k))
    if z is not True:
        for (M, s) in face:
            want[(M, s)] = (km, ix(dl, km), ix(al, km))
    got = {}
    for o in r.ops:
        K.eq(o[1], k, 'dimension of the matrix whose %ss are changed' % o[3], o[6].line, 'R18-apply')
        got.setdefault((o[0], o[3], 'del' if o[2] == 'del' else 'ins'), []).append(o)
    for (M, s), (j, D, I) in sorted(want.items(), key=repr):
        if z is None and j == km:
            continue
        g = got.pop((M, s, 'del'), [])
        if empty(fa, D) is not True:
            K.ok(len(g) == 1, 'delete/%s/%s' % (M, s), w + '%ss of %s[k] of deleted cells of dimension %s are erased %s times' % (s, M, show(j), len(g)), rule='R18-apply')
        for o in g:
            K.eq(o[4], ('size', D, 0), 'number of %ss erased from %s' % (s, M), o[6].line, 'R18-apply')
            if (M, s, d) == ('R', 'row', 1):
                K.ok('unsafe' not in short(o[6].name), 'unsafe', 'rows of R are dropped although they have entries', o[6].line, 'R18-apply')
        h = got.pop((M, s, 'ins'), [])
        if empty(fa, I) is not True:
            K.ok(len(h) == 1, 'insert/%s/%s' % (M, s), w + '%ss of %s[k] of new cells of dimension %s are inserted %s times' % (s, M, show(j), len(h)), rule='R18-apply')
        for o in h:
            for x in g:
                K.ok(r.ops.index(x) < r.ops.index(o), 'order/%s/%s' % (M, s), w + '%ss of %s are inserted before the deleted ones are erased' % (s, M), o[6].line, 'R18-apply')
            inserted(ctx, K, r, o, M, s, d, z, k, j, I, UI, w)
    if z is not None:
        for (M, s, kind), v in sorted(got.items(), key=repr):
            K.ok(False, 'extra', w + '%ss of %s[k] are %s for no cell' % (s, M, 'erased' if kind == 'del' else 'inserted'), v[0][6].line, 'R18-apply')
    # reduced again
    for idx, fn, a, ev, pos in r.red:
        if fn != 'reduce_matrix_standard' or a[:1] == (ix(R_, k),):
            if ev.args and a[:1] == (ix(R_, k),):
                K.eq(idx, k, 'dimension of the pivots', ev.line, 'R18-apply')
                K.ok(pos == len(r.ops), 'reduce', w + 'R[k] is reduced before it is complete', ev.line, 'R18-apply')
    if nm == 'update_basis_general':
        K.ok(any(a[:2] == (ix(R_, k), ix(U_, k)) for _, _, a, _, _ in r.red), 'reduced', w + 'R[k] is not reduced again', rule='R18-apply')


def inserted(ctx, K, r, o, M, s, d, z, k, j, I, UI, w):
    what = '%ss inserted into %s' % (s, M)
    ev = o[6]
    n = ('size', I, 0)
    if o[2] == 'app':
        K.eq(o[4], n, 'number of ' + what, ev.line, 'R18-apply')
        K.ok(z is not False, 'append', w + 'new %ss of %s are appended, not inserted at their positions' % (s, M), ev.line, 'R18-apply')
        if (M, s) == ('U', 'col'):
            unit(ctx, K, o[5], field(ix(U_, k), 'n'), w, ev)
        return
    N = field(ix(R_, k), 'm' if s == 'row' else 'n') if M == 'R' else field(ix(R_, k), 'n')
    base = A('find_reverse_index', I, add(N, n))
    order = [I] if d == -1 else [('sorted', base), ('rev', base)]
    if M == 'U' and d == 1:
        base2 = A('find_reverse_index', I, add(field(ix(U_, k), 'n'), n))
        order += [('sorted', base2), ('rev', base2)]
    if o[4] in order:
        ctx.check(True, 'R18-apply', K.f.loc(ev.line), '', K.key + '/positions/' + what)
    elif gknown(o[4]):
        K.ok(False, 'positions/' + what, w + 'positions of the %s are %s, expected %s' % (what, show(o[4]), show(order[0])), ev.line, 'R18-apply')
        return
    else:
        rec(ctx, "positions")
        return
    c = o[5]
    if (M, s) == ('U', 'row') or (M, s, d) == ('R', 'row', -1):
        return
    if c is None:
        rec(ctx, "contents")
        return
    if (M, s, d) == ('R', 'col', 1):
        ok = isinstance(c, tuple) and c[:2] == ('app', 'new vector') and len(c[2]) == 1
        if ok:
            K.eq(c[2][0], n, 'number of ' + what, ev.line, 'R18-apply')
        else:
            rec(ctx, "contents")
        return
    if isinstance(c, tuple) and c[:2] == ('app', 'new vector'):
        K.ok(False, 'content/' + what, w + '%s are empty' % what, ev.line, 'R18-apply')
        return
    if not (isinstance(c, tuple) and c[:1] == ('list',)):
        rec(ctx, "contents")
        return
    _, i, lo, hi, val = c
    K.eq(lo, 0, 'first of the ' + what, ev.line, 'R18-apply')
    if gknown(hi):
        K.ok(hi == n, 'end/' + what, w + '%s of the %s %s are filled' % (show(hi), show(n), what), ev.line, 'R18-apply')
    bd = ix(field(UI, 'boundary_indices'), k)
    if M == 'U':
        if isinstance(val, tuple) and val[:2] == ('app', 'new SparseVector'):
            a = val[2]
            if a[0] == ix(o[4], i) and (len(a) == 1 or a[1] == 1):
                ctx.check(True, 'R18-apply', K.f.loc(ev.line), '', K.key + '/unit')
            elif all(gknown(x) for x in a):
                K.ok(False, 'unit', w + 'new basis column %s has its one at %s' % (show(ix(o[4], i)), show(a[0])), ev.line, 'R18-apply')
            else:
                rec(ctx, "contents")
        else:
            rec(ctx, "contents")
        return
    if s == 'row':
        if isinstance(val, tuple) and val[:2] == ('app', 'gemv'):
            T, val = val[2][0], val[2][1]
            if isinstance(T, tuple) and T[0] == 'app' and T[1] in ('T', 'transpose'):
                K.eq(T[2][0], ix(U_, k), 'basis the new rows are written in', ev.line, 'R18-apply')
            elif T == ix(U_, k):
                K.ok(False, 'basis', 'new rows are the basis times the boundary, not the boundary times the basis', ev.line, 'R18-apply')
            else:
                rec(ctx, "contents")
        elif isinstance(val, tuple) and val[:2] == ('app', 'new SparseVector'):
            K.ok(False, 'basis', 'new rows are boundaries, not boundaries times the basis', ev.line, 'R18-apply')
            return
    if not (isinstance(val, tuple) and val[:2] == ('app', 'new SparseVector') and len(val[2]) == 2):
        rec(ctx, "contents")
        return
    lst, vals = val[2]
    ones(vals, lst, K, 'boundaries of new cells', ev)
    if d == -1:
        goods = [ix(bd, i), ('sorted', ix(bd, i))]
    else:
        B = A('find_reverse_index', bd, field(ix(R_, k), 'n'))
        bb = ('by', B, base) if o[4][0] == 'sorted' else ('rev', B)
        goods = [('sorted', ix(bb, i)), ('rev', ix(bb, i))]
    if lst in goods:
        ctx.check(True, 'R18-apply', K.f.loc(ev.line), '', K.key + '/boundary')
        if d == 1:
            early = [x for x in r.ops[r.ops.index(o) + 1:] if x[:2] == ('R', k) and x[3] == 'col']
            K.ok(not early, 'boundary/order', 'new rows are written before the columns of R[k] are complete', ev.line, 'R18-apply')
    elif gknown(lst):
        K.ok(False, 'boundary', w + 'boundary of new cell number i is %s, expected %s' % (show(lst), show(goods[0])), ev.line, 'R18-apply')
    else:
        rec(ctx, "contents")


def unit(ctx, K, c, n, w, ev):
    """appended basis columns: one at the index of the new column"""
    if c is None:
        K.ok(False, 'unit', w + 'appended basis columns are empty', ev.line, 'R18-apply')
        return
    i = lo = None
    if isinstance(c, tuple) and c[0] == 'content':
        _, c, i, lo = c
    if not (isinstance(c, tuple) and c[:2] == ('app', 'new SparseVector')):
        rec(ctx, "contents")
        return
    born = i[2] // 1000 if i is not None and isinstance(i, tuple) and i[0] == 'sym' else 0
    live = any(isinstance(s, tuple) and s[:1] == ('ld',) and isinstance(s[1], tuple) and s[1][:1] == ('f',) and s[1][2] == 'n' and s[2] > born for s in subterms(ev.args[0]))
    a = c[2][0]
    want = n if live else add(n, sub(i, lo)) if i is not None else n
    if a == want:
        ctx.check(True, 'R18-apply', K.f.loc(ev.line), '', K.key + '/unit')
    elif gknown(a):
        K.ok(False, 'unit', w + 'appended basis column %s has its one at %s' % (show(want), show(a)), ev.line, 'R18-apply')
    else:
        rec(ctx, "contents")


def top(ctx, K, r, d, md, UI):
    """above the top dimension: a zero matrix whose size changes"""
    if r.odd or d is None:
        rec(ctx, "updates")
        return
    ctx.count("definitions")
    w = 'degree %+d: ' % d
    k = add(md, 1)
    D, I = ix(field(UI, 'deletion_indices'), md), ix(field(UI, 'addition_indices'), md)
    want = [('R', 'row')] if d == -1 else [('R', 'col'), ('U', 'row'), ('U', 'col')]
    got = {}
    for o in r.ops:
        K.eq(o[1], k, 'dimension above the top', o[6].line, 'R18-apply')
        got.setdefault((o[0], o[3], 'del' if o[2] == 'del' else 'ins'), []).append(o)
    for (M, s) in want:
        g, h = got.pop((M, s, 'del'), []), got.pop((M, s, 'ins'), [])
        K.ok(len(g) == 1 and len(h) == 1, 'top/%s/%s' % (M, s), w + '%ss of %s above the top dimension are erased %s and inserted %s times' % (s, M, len(g), len(h)), rule='R18-apply')
        for o in g:
            K.eq(o[4], ('size', D, 0), 'number of %ss erased above the top' % s, o[6].line, 'R18-apply')
        for o in h:
            if o[2] == 'app':
                K.eq(o[4], ('size', I, 0), 'number of %ss appended above the top' % s, o[6].line, 'R18-apply')
                if (M, s) == ('U', 'col'):
                    unit(ctx, K, o[5], field(ix(U_, k), 'n'), w, o[6])
            elif d == -1:
                K.eq(o[4], I, 'positions of the %ss inserted above the top' % s, o[6].line, 'R18-apply')
            for x in g:
                K.ok(r.ops.index(x) < r.ops.index(o), 'top/order/%s/%s' % (M, s), w + '%ss above the top are inserted before the deleted ones are erased' % s, o[6].line, 'R18-apply')
    for (M, s, kind), v in sorted(got.items(), key=repr):
        K.ok(False, 'top/extra', w + '%ss of %s above the top dimension are %s' % (s, M, 'erased' if kind == 'del' else 'inserted'), v[0][6].line, 'R18-apply')


def final(ctx, K, L, tr, d, md):
    """clearing pass after all dimensions were updated"""
    if tr is None or d is None:
        rec(ctx, "schedules")
        return
    for q in cont(L):
        r = Round(ctx)
        r.trace(q.trace)
        for idx, fn, a, ev, pos in r.red:
            K.eq(a[0], ix(R_, tr[0]), 'matrix reduced', ev.line, 'R18-apply')
            K.eq(a[1], ix(U_, tr[0]), 'basis kept with it', ev.line, 'R18-apply')
            K.eq(idx, tr[0], 'dimension of the pivots', ev.line, 'R18-apply')
            if fn == 'reduce_matrix_clearing' and len(a) >= 4:
                o = add(tr[0], -d)
                K.eq(a[2], ix(R_, o), 'matrix that clears', ev.line, 'R18-apply')
                K.eq(a[3], ix(field(TH, 'p2c'), o), 'pivots that clear', ev.line, 'R18-apply')


def run(ctx):
    u, = prog.load(["core"])
    brad(ctx, u)
    rev(ctx, u)
    yuan(ctx, u)
    app_cells(ctx, u)
    update(ctx, u)
    fdg(ctx, u)
    general(ctx, u)
