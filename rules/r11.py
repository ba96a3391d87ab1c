"""Reading barcodes off reduced matrices.  Each path through one step of a read-out loop is put into one of
the cases of the persistence pairing (cell creates or destroys a class; its partner exists or not) from the
facts its conditions establish, and what it reports is compared with the definition for that case; the same
for every step of the union-find barcodes, whose find operation is checked on its own."""
import os
from rules.common import *
from rules.r08 import par, inst, uniq, field
from rules.r05 import evalc
from bx.seqs import trip, subst, counters
from itertools import product

PROP = dict(
    id="R11", title="Persistence pairs are read off the reduced matrices exactly",
    statement="persistence_pairs and extract_pairs report, for each cell of dimension k whose reduced boundary is zero, exactly one pair: born at that cell's value, dying at the value of the cell whose reduced boundary has it as pivot, or at infinity with death index NO_IND when there is none or k is the top dimension, and nothing for the other cells; for degree +1 the pairs of the reduced coboundaries are read the same way (a cell with non-zero reduced coboundary pairs with the pivot of that column). Values are those of the very cells named; indices are the cells' original positions, or their positions in filtration order when permuted is true. persistence_pairs_vec lists the same pairs flattened as birth, death. representative returns the basis column at the filtration position of the pair's birth cell, mapped back to original order unless permuted. The members of PersistencePair mean what they say (equality compares dimension, birth and death; length is death - birth, mid the mean), and barcode_equality matches each pair with a different equal one. union_find_pairs and rips_union_find_pairs start one bar per vertex at its value (0 for Rips), process the edges in order, end exactly one bar at the edge's value when the edge joins two components, never the older of the two, join the components, and stop early only when one component is left; find_parent returns the root and only shortens paths. No filtration value or distance passes through a narrower type on its way.",
    over=["inputs"],
    text="all reduced complexes, dimensions, degrees and filtration orders, including unsorted values, ties and empty dimensions",
    why="tests compare barcodes of two algorithms through the same read-out, so an index or value taken from the wrong cell cancels out; union-find, representatives and permuted indices have no test",
    files=["include/persistence/filtered_basis.hpp", "include/persistence/filtered_dgbasis.hpp", "include/persistence/barcode.hpp", "include/persistence/extract.hpp", "include/persistence/union_find.hpp"],
    mechanism=[("read-out", "persistence_pairs, persistence_pairs_vec, extract_pairs"), ("union-find", "find_parent, union_find_pairs, rips_union_find_pairs"), ("bars", "PersistencePair, barcode_equality")],
)
TECHNIQUE = "path-sensitive case analysis: facts established on each path select the case of the pairing, value terms are compared with its definition"
LEVEL = "proof"
ASSUMPTIONS = ["pivot maps and reduced matrices are those of R01 and R02, stored orders those of R05",
               "edges have two vertices, components are merged along a spanning forest (graph theory)",
               "the numbering of vertex pairs by one integer (binom_to_inds) is taken as given (floating point square roots)"]
MINIMUM = {"read-outs": 3, "pairs": 6, "bars": 6}

NS = 'bats::'
TH = ('this',)


def evs(p):
    return [it for it in flat(p) if isinstance(it, Ev)]


def pairterm(a):
    """arguments of one emplaced pair -> 5 terms"""
    if len(a) == 1:
        t = unld(a[0])
        if isinstance(t, tuple) and t[0] == 'tup':
            d = dict(t[1])
            if set(d) >= {'dim', 'birth_ind', 'death_ind', 'birth', 'death'}:
                return [unld(d[x]) for x in ('dim', 'birth_ind', 'death_ind', 'birth', 'death')]
        if isinstance(t, tuple) and t[0] == 'app' and t[1].startswith('new ') and 'PersistencePair' in t[1] and len(t[2]) == 5:
            return [unld(x) for x in t[2]]
        return None
    if len(a) == 5:
        return [unld(x) for x in a]
    return None


def noind(t):
    return unld(t) == NO_IND


def infinite(t):
    t = unld(t)
    return isinstance(t, tuple) and t[0] == 'app' and 'infinity' in t[1]


def evalcond(t, env):
    """truth value of a condition term under an assignment, None when it mentions something else"""
    t = unld(t)
    if t[0] == 'cmp':
        a, b = evalc(unld(t[2]), env), evalc(unld(t[3]), env)
        if a is None or b is None:
            return None
        return a < b if t[1] == '<' else a == b if t[1] == '==' else None
    if t[0] == 'truth':
        a = evalc(unld(t[1]), env)
        return None if a is None else bool(a)
    return None


def cases(items, atoms, expect):
    """(set of cases over the assignments the conditions allow, all conditions understood)"""
    out, known = set(), True
    cs = []
    for it in items:
        if isinstance(it, Cond):
            cs.append(it)
        elif isinstance(it, Leave):
            cs += [x for x in it.path.trace if isinstance(x, Cond)]
    for vals in product(*[d for t, d in atoms]):
        env = {t: v for (t, d), v in zip(atoms, vals)}
        ok = True
        for c in cs:
            v = evalcond(c.t, env)
            if v is None:
                known = False
            elif v != c.pol:
                ok = False
                break
        if ok and expect(env) is not None:
            out.add(expect(env))
    return out, known


def steps(paths):
    """(loop, outer trace before it, path) for each loop that emplaces pairs"""
    for p in paths:
        pre = []
        for it in p.trace:
            if isinstance(it, Loop) and any(is_emplace(e) for q in it.paths for e in evs(q)):
                yield it, pre, p
            pre.append(it)


def is_emplace(e):
    return isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back') and e.name.startswith('std::') and pairterm(e.args) is not None


def seteq(t, alts):
    t = unld(t)
    return any(t == unld(a) for a in alts)


def readout(ctx, f, k0, paths, mk, permuted=None):
    """mk(pre facts) -> list of (case selector) or None when the branch is not a read-out"""
    n = 0
    for L, pre, p in steps(paths):
        pf = Facts(pre)
        sp = mk(pf, L)
        if sp is None:
            ctx.count('read-outs not recognised')
            continue
        dim, atoms, expect, partner, val, ind, ncols, top = sp
        tr = trip(L)
        if tr is None:
            ctx.count('read-outs not recognised')
            continue
        x, lo, hi = tr[0], tr[1], tr[2]
        n += 1
        ctx.count('read-outs')
        w = '%s [line %s]' % (tname(f), L.line)
        ctx.check(unld(lo) == 0 and seteq(hi, ncols), 'R11-cells', w, 'reads positions %s to %s instead of every cell of the dimension' % (show(lo), show(hi)), k0 + '/range')
        for q in L.paths:
            if top is not None:
                fx = Facts(pre)
                for it in q.trace:
                    if isinstance(it, Cond) and any(s == top[0] for s in subterms(unld(it.t))):
                        ctx.check(fx.holds('==', dim, top[1]) is False or fx.holds('<', dim, top[1]) is True, 'R11-cells', w, 'reads %s before knowing that there is a dimension above (%s)' % (show(top[0]), showconds(q)), k0 + '/top')
                    fx.add(it)
            if q.exit in ('b', 'ret'):
                ctx.bad('R11-cells', w, 'the loop over the cells is left early (%s)' % showconds(q), k0 + '/early')
                continue
            fa = Facts(list(pre) + q.trace)
            # evaluate the facts as the path goes
            em = [e for e in evs(q) if is_emplace(e)]
            one = any(isinstance(it, Loop) and any(is_emplace(e) for r in it.paths for e in evs(r)) for it in q.trace)
            if one:
                ctx.count('read-outs not recognised')
                continue
            cs, known = cases(list(pre) + q.trace, atoms(x) + [(x, [0]), (unld(hi), [5])], expect)
            if not cs:
                continue                        # no input takes this path
            if len(cs) > 1:
                if known:
                    ctx.count('pairs')
                    ctx.bad('R11-pair', w, 'cells that create and cells that do not create a class (or that have and have no partner) are treated alike (%s)' % showconds(q), k0 + '/case')
                else:
                    ctx.count('pairs not recognised')
                continue
            case, = cs
            ctx.count('pairs')
            if case == 'none':
                ctx.check(not em, 'R11-pair', w, 'reports a pair for a cell that creates no class (%s)' % showconds(q), k0 + '/extra')
                continue
            if len(em) != 1:
                ctx.bad('R11-pair', w, 'reports %d pairs for one cell that creates a class (%s)' % (len(em), showconds(q)), k0 + '/count')
                continue
            d, bi, di, b, dd = pairterm(em[0].args)
            w2 = '%s:%s %s' % (f.file, em[0].line, f.name)
            ctx.check(d == unld(dim), 'R11-pair', w2, 'pair has dimension %s, not %s' % (show(d), show(dim)), k0 + '/dim')
            pm = None
            if permuted is not None:
                t = ('truth', permuted)
                r = fa.st.facts.get(unld(t))
                pm = r
            wb = ind(dim, x, pm)
            if wb is not None:
                ctx.check(bi == unld(wb), 'R11-index', w2, 'birth index is %s, not %s' % (show(bi), show(wb)), k0 + '/birth index')
            ctx.check(b == unld(val(dim, x)), 'R11-value', w2, 'birth is %s, not the value of the creating cell %s' % (show(b), show(val(dim, x))), k0 + '/birth')
            if case == 'inf':
                ctx.check(noind(di), 'R11-index', w2, 'death index of an infinite bar is %s, not NO_IND' % show(di), k0 + '/death index')
                ctx.check(infinite(dd), 'R11-value', w2, 'an unpaired cell gets the death value %s' % show(dd), k0 + '/death')
            else:
                j = partner(x)
                k1 = add(dim, 1)
                wd = ind(k1, j, pm)
                if wd is not None:
                    ctx.check(di == unld(wd), 'R11-index', w2, 'death index is %s, not %s' % (show(di), show(wd)), k0 + '/death index')
                ctx.check(dd == unld(val(k1, j)), 'R11-value', w2, 'death is %s, not the value of the paired cell %s' % (show(dd), show(val(k1, j))), k0 + '/death')
    return n


def ix(a, i):
    return ('ix', a, i)


def pairs(ctx, u):
    R = field(field(TH, 'RC'), 'R')
    p2c = field(field(TH, 'RC'), 'p2c')
    val, perm = field(TH, 'val'), field(TH, 'perm')

    def value(d, i):
        return ix(ix(val, d), ix(ix(perm, d), i))

    for cls in ('ReducedFilteredChainComplex', 'ReducedFilteredDGVectorSpace'):
        for f in uniq(u, NS + cls + '::persistence_pairs'):
            ctx.function(f)
            k0 = cls
            k = par(f, 0, u)
            P = par(f, 1, u) if len(f.d['ps']) > 1 else None

            def ind(d, i, pm, P=P):
                if P is None:
                    return ix(ix(perm, d), i)
                if pm is None:
                    return None
                return i if pm else ix(ix(perm, d), i)

            def col(d, i):
                return ('f', ix(field(ix(R, d), 'col'), i), 'indval')

            def mk(pf, L):
                deg = -1
                if cls == 'ReducedFilteredDGVectorSpace':
                    dg = field(field(TH, 'RC'), 'degree')
                    a, b = pf.holds('==', dg, -1), pf.holds('==', dg, 1)
                    if a is True or b is False:
                        deg = -1
                    elif a is False or b is True:
                        deg = 1
                    else:
                        return None
                top = sub(('size', R, 0), 1 if cls == 'ReducedFilteredChainComplex' else 2)
                size = 5
                common = [(('size', R, 0), [size]), (field(field(TH, 'RC'), 'degree'), [deg])] + ([(P, [0, 1])] if P is not None else [])
                tp = size - (1 if cls == 'ReducedFilteredChainComplex' else 2)
                common.append((k, list(range(tp + 1))))
                up = 0 if deg == -1 else 1
                k1 = add(k, 1)

                def piv(x, d):
                    return ix(ix(p2c, add(k, d)), x)

                def atoms(x):
                    return common + [(('size', col(add(k, d), x), 0), [0, 1, 2]) for d in (0, 1)] + [(piv(x, d), [NO_IND, 0, 2]) for d in (0, 1)]

                def expect(env):
                    sz, = [v for t, v in env.items() if t[0] == 'size' and t[1] == col(add(k, up), var(t))]
                    pv, = [v for t, v in env.items() if t[0] == 'ix' and t == piv(t[2], 1 - up)]
                    if deg == 1:
                        return 'fin' if sz else 'inf' if pv == NO_IND else 'none'
                    if env[k] == tp and pv != NO_IND and cls != 'ReducedFilteredChainComplex':
                        return None     # the map above the top dimension has no columns
                    return 'none' if sz else 'inf' if env[k] == tp or pv == NO_IND else 'fin'

                def var(t):
                    return t[1][1][2] if t[1] != R else None
                if deg == -1:
                    return k, atoms, expect, lambda x: piv(x, 1), value, ind, [field(ix(R, k), 'n')], (piv(0, 1)[1], top) if cls == 'ReducedFilteredChainComplex' else None

                def partner(x):
                    c = col(k1, x)
                    return field(ix(c, sub(('size', c, 0), 1)), 'ind')
                return k, atoms, expect, partner, value, ind, [field(ix(R, k1), 'n')], None

            paths = Engine(u).run(f)
            # every path runs one read-out loop and returns its container
            n = readout(ctx, f, k0, paths, mk, P)
            for p in paths:
                ls = [it for it in p.trace if isinstance(it, Loop) and any(is_emplace(e) for q in it.paths for e in evs(q))]
                if len(ls) != 1:
                    ctx.count('read-outs not recognised')
                    continue
                objs = {unld(e.obj) for q in ls[0].paths for e in evs(q) if is_emplace(e)}
                ctx.check(objs == {unld(p.val)}, 'R11-pair', tname(f), 'returns %s, not the pairs it collected' % show(p.val), k0 + '/return')

    # flattened form
    for cls in ('ReducedFilteredChainComplex', 'ReducedFilteredDGVectorSpace'):
        for f in uniq(u, NS + cls + '::persistence_pairs_vec'):
            ctx.function(f)
            flattened(ctx, u, f, cls)


def extraction(ctx, u):
    # extract_pairs(R, p2c, valsk, valsk1, k)
    for f in uniq(u, NS + 'extract_pairs'):
        ctx.function(f)
        M, pc, v0, v1, k = (par(f, i, u) for i in range(5))

        def value(d, i):
            return ix(v0 if d == k else v1, i)

        def col(d, i):
            return ('f', ix(field(M, 'col'), i), 'indval')

        def expect(env):
            sz = [v for t, v in env.items() if t[0] == 'size'][0]
            pv = [v for t, v in env.items() if t[0] == 'ix'][0]
            return 'none' if sz else 'inf' if pv == NO_IND else 'fin'

        readout(ctx, f, 'extract_pairs', Engine(u).run(f),
                lambda pf, L: (k, lambda x: [(('size', col(k, x), 0), [0, 1, 2]), (ix(pc, x), [NO_IND, 0, 2])], expect, lambda x: ix(pc, x), value, lambda d, i, pm: i, [field(M, 'n'), ('size', field(M, 'col'), 0)], None))


def flattened(ctx, u, f, cls):
    k0 = cls + '::persistence_pairs_vec'
    ps = Engine(u, vocab=lambda n, x: short(n) == 'persistence_pairs').run(f)
    for p in ps:
        call = [e for e in evs(p) if e.k in ('call', 'pure') and short(e.name) == 'persistence_pairs']
        if len(call) != 1:
            ctx.count('flattened not recognised')
            continue
        c = call[0]
        want = [par(f, i, u) for i in range(len(f.d['ps']))]
        ctx.check([unld(a) for a in c.args] == want, 'R11-flat', tname(f), 'lists the pairs of (%s), not of its own arguments' % ', '.join(show(a) for a in c.args), k0 + '/args')
        if not (isinstance(unld(p.val), tuple) and unld(p.val)[0] == 'tup'):
            ctx.count('flattened not recognised')
            continue
        d = dict(unld(p.val)[1])
        out = {'get0': unld(d.get('get0')), 'get1': unld(d.get('get1'))}
        for L in [it for it in p.trace if isinstance(it, Loop)]:
            tr = trip(L)
            if tr is None:
                ctx.count('flattened not recognised')
                continue
            x, lo, hi = tr[0], unld(tr[1]), unld(tr[2])
            for q in L.paths:
                got = {}
                src = None
                for e in q.trace:
                    if isinstance(e, Ev) and e.k == 'set' and e.name == '=':
                        o = unld(e.obj)
                        if o[0] == 'ix':
                            got[(unld(o[1]), unld(o[2]))] = unld(e.args[0])
                if not got:
                    continue
                ctx.count('pairs')
                for v in got.values():
                    if isinstance(v, tuple) and v[0] == 'f' and isinstance(v[1], tuple) and v[1][0] == 'ix':
                        src = v[1][1]
                if src is None:
                    ctx.count('flattened not recognised')
                    continue
                ctx.check(lo == 0 and hi == ('size', src, 0), 'R11-flat', tname(f), 'lists pairs %s to %s' % (show(lo), show(hi)), k0 + '/range')
                P = ix(src, x)
                for o, a, b in (('get0', 'birth', 'death'), ('get1', 'birth_ind', 'death_ind')):
                    for off, nm in ((0, a), (1, b)):
                        g = got.get((out[o], add(mul(2, x), off)))
                        ctx.check(g == field(P, nm), 'R11-flat', tname(f), 'entry 2i+%d of the %s vector is %s, not %s of pair i' % (off, 'value' if o == 'get0' else 'index', show(g) if g is not None else 'not written', nm), k0 + '/%s%d' % (o, off))


def representatives(ctx, u):
    for f in uniq(u, NS + 'ReducedFilteredChainComplex::representative'):
        ctx.function(f)
        k0 = 'representative'
        p, pm = par(f, 0, u), par(f, 1, u)
        U, perm = field(field(TH, 'RC'), 'U'), field(TH, 'perm')
        dim, bi = field(p, 'dim'), field(p, 'birth_ind')
        PD = ix(perm, dim)
        for q in Engine(u, vocab=lambda n, x: la_mutator(n, x) or short(n) == 'inv_perm').run(f):
            fa = Facts(q.trace)
            r = fa.st.facts.get(('truth', pm))
            if r is None:
                ctx.count('representatives not recognised')
                continue
            cont, perms = unld(q.val), []
            src = cont
            for e in evs(q):
                if e.k == 'set' and unld(e.obj) == cont:
                    src = unld(e.args[0])
                elif e.k == 'call' and e.obj is not None and unld(e.obj) == cont:
                    perms.append((short(e.name), [unld(a) for a in e.args]))
            if not (isinstance(src, tuple) and src[0] == 'ix' and isinstance(src[1], tuple) and src[1][0] == 'f' and src[1][2] == 'col'):
                ctx.count('representatives not recognised')
                continue
            ctx.count('bars')
            w = tname(f)
            ctx.check(src[1][1] == ix(U, dim), 'R11-rep', w, 'takes a column of %s, not of the basis in the dimension of the pair' % show(src[1][1]), k0 + '/basis')
            j = src[2]
            if r:
                ctx.check(j == bi, 'R11-rep', w, 'column %s is not the one at the permuted birth index' % show(j), k0 + '/permuted column')
                ctx.check(not perms, 'R11-rep', w, 'the representative in filtration order is changed by %s' % (perms and perms[0][0]), k0 + '/permuted order')
            else:
                find = ('app', 'std::find', (('it', PD, 0), ('it', PD, ('size', PD, 0)), bi))
                alts = [j2 for j2 in (j,) if position(j2, PD, bi)]
                ctx.check(bool(alts), 'R11-rep', w, 'column %s is not the filtration position of the birth cell' % show(j), k0 + '/column')
                ctx.check([x for x in perms if x[0] in ('permute', 'ipermute')] == [('permute', [PD])] and len(perms) == 1, 'R11-rep', w, 'the representative is not mapped back to original order by perm[dim] (%s)' % ', '.join('%s(%s)' % (a, ', '.join(map(show, b))) for a, b in perms), k0 + '/order')


def position(j, PD, bi):
    """j is the position of bi in PD"""
    s = [t for t in subterms(unld(j)) if isinstance(t, tuple) and t and t[0] == 'app' and t[1] in ('std::find',)]
    if len(s) == 1:
        a = [unld(x) for x in s[0][2]]
        rest = sub(unld(j), s[0])
        return len(a) == 3 and a[0] == ('it', PD, 0) and a[1] == ('it', PD, ('size', PD, 0)) and a[2] == bi and rest in (0, neg(('it', PD, 0)))
    j = unld(j)
    if isinstance(j, tuple) and j[0] == 'ix' and unld(j[2]) == bi:
        return True if 'inv_perm' in show(j) else False
    return False


def bars(ctx, u):
    F = {}
    FLD = ('dim', 'birth_ind', 'death_ind', 'birth', 'death')
    for f in uniq(u, NS + 'PersistencePair::operator=='):
        boolean(ctx, u, f, True)
    for f in uniq(u, NS + 'PersistencePair::operator!='):
        boolean(ctx, u, f, False)
    T = lambda n: field(TH, n)
    for nm, want in (('get_dim', T('dim')), ('get_birth_ind', T('birth_ind')), ('get_death_ind', T('death_ind')), ('get_birth', T('birth')), ('get_death', T('death')),
                     ('length', sub(T('death'), T('birth'))), ('mid', mul(add(T('death'), T('birth')), inv(2)))):
        for f in uniq(u, NS + 'PersistencePair::' + nm):
            ctx.function(f)
            ctx.count('bars')
            for p in Engine(u).run(f):
                if p.exit == 'ret' and p.val is not None:
                    ctx.check(unld(p.val) == want, 'R11-bar', tname(f), '%s() returns %s' % (nm, show(p.val)), 'PersistencePair::' + nm)
    for f in uniq(u, NS + 'PersistencePair::PersistencePair', lambda f: len(f.d['ps']) == 5):
        ctx.function(f)
        ctx.count('bars')
        for p in Engine(u).run(f):
            got = {}
            for e in evs(p):
                if e.k == 'set' and unld(e.obj) and unld(e.obj)[0] == 'f' and unld(e.obj)[1] == TH:
                    got[unld(e.obj)[2]] = unld(e.args[0])
            for i, nm in enumerate(FLD):
                if nm in got:
                    ctx.check(got[nm] == par(f, i, u), 'R11-bar', tname(f), 'member %s is built from %s' % (nm, show(got[nm])), 'PersistencePair/' + nm)
    for f in uniq(u, NS + 'barcode_equality'):
        matching(ctx, u, f)


def boolean(ctx, u, f, same):
    ctx.function(f)
    ctx.count('bars')
    o = par(f, 0, u)
    k0 = short(f.name)
    for p in Engine(u).run(f):
        if p.exit != 'ret' or p.val not in (True, False, 0, 1):
            v = unld(p.val) if p.val is not None else None
            ctx.count('comparisons not recognised')
            continue
        v = bool(p.val) == same
        fa = Facts(p.trace)
        r = [fa.holds('==', field(TH, n), field(o, n)) for n in ('dim', 'birth', 'death')]
        ctx.check(v == all(x is True for x in r) if not v else all(x is True for x in r), 'R11-bar', tname(f), 'two pairs are called %s when %s' % ('equal' if v else 'different', showconds(p)), k0 + '/fields')
        if not v:
            other = [c for c in conds(p) if not any(s in (field(TH, n), field(o, n)) for n in ('dim', 'birth', 'death') for s in subterms(unld(c.t)))]
            ctx.check(any(x is False for x in r) or other == [] and any(x is False for x in r), 'R11-bar', tname(f), 'two pairs with the same dimension, birth and death are called different when %s' % showconds(p), k0 + '/different')


def matching(ctx, u, f):
    ctx.function(f)
    A, B = par(f, 0, u), par(f, 1, u)
    k0 = 'barcode_equality'
    w = tname(f)
    sa, sb = ('size', A, 0), ('size', B, 0)
    for p in Engine(u).run(f):
        fa = Facts(p.trace)
        e = fa.holds('==', sa, sb)
        outer = [it for it in p.trace if isinstance(it, Loop)]
        if p.val in (True, 1):
            ctx.count('bars')
            ctx.check(e is True, 'R11-match', w, 'barcodes of different size are called equal', k0 + '/size')
        if p.val in (False, 0) and not any(isinstance(it, Leave) and it.path.exit == 'ret' for it in p.trace) and not outer:
            ctx.check(e is False, 'R11-match', w, 'barcodes are called different when %s' % showconds(p), k0 + '/differ')
        for L in outer:
            tr = trip(L)
            if tr is None:
                continue
            x = tr[0]
            for q in L.paths:
                ins = [it for it in q.trace if isinstance(it, Loop)]
                for J in ins:
                    t2 = trip(J)
                    if t2 is None:
                        continue
                    y = t2[0]
                    for r in J.paths:
                        marks = [e for e in r.trace if isinstance(e, Ev) and e.k == 'set' and e.name == '=' and unld(e.obj)[0] == 'ix' and e.args[0] in (True, 1)]
                        if not marks:
                            continue
                        ctx.count('bars')
                        fr = Facts(r.trace)
                        P, Q = ix(A, x), ix(B, y)
                        m = unld(marks[0].obj)
                        eqs_ = all(fr.holds('==', field(P, n), field(Q, n)) is True for n in ('dim', 'birth', 'death'))
                        ctx.check(eqs_, 'R11-match', w, 'pairs are matched although %s' % showconds(r), k0 + '/match')
                        free = any(not c.pol and 'truth' == c.t[0] and any(s == m for s in subterms(unld(c.t))) for c in conds(r))
                        ctx.check(free and m[2] == y, 'R11-match', w, 'a pair that is already matched is used again (%s)' % showconds(r), k0 + '/once')
                        ctx.check(r.exit in ('b', 'ret'), 'R11-match', w, 'one pair is matched with several others', k0 + '/break')


# ---------------------------------------------------------------------------- union-find
FIND = {'find_parent'}


def findnames(u):
    """the find operation, whatever it is called: (parents, node) -> node, in the union-find header"""
    FIND.clear()
    if not u.find('find_parent'):
        for f in u.funcs:
            ps = f.d['ps']
            if f.file.endswith('union_find.hpp') and not f.dep and len(ps) == 2 and u.type(ps[0]['t']).startswith('std::vector<unsigned long>') and u.type(ps[1]['t']) == 'unsigned long' and u.type(f.d['ret']) == 'unsigned long':
                FIND.add(short(f.name))
    FIND.add('find_parent')


def findparent(ctx, u):
    findnames(u)
    for f in (g for nm in sorted(FIND) for g in uniq(u, NS + nm)):
        ctx.function(f)
        ctx.count('union-find')
        P, i = par(f, 0, u), par(f, 1, u)
        w = tname(f)
        for p in Engine(u).run(f):
            if p.exit != 'ret':
                continue
            r = unld(p.val)
            fa = Facts(p.trace)
            ctx.check(fa.holds('==', ix(P, r), r) is True or recursive(r), 'R11-find', w, 'returns %s without having seen that it is its own parent' % show(r), 'find_parent/root')
            # the walk starts at i and only follows parents
            for L, q, _ in loops_of([p]):
                for d, (nm, sy) in L.syms.items():
                    s0 = unld(L.start.get(d))
                    for z in L.paths:
                        nx = unld(z.env.get(d)) if d in z.env else sy
                        if nx != sy and z.exit in ('n', 'c'):
                            ctx.check(nx in (ix(P, sy), ix(P, ix(P, sy))), 'R11-find', w, 'the walk goes from %s to %s' % (show(sy), show(nx)), 'find_parent/walk')
                for z in L.paths:
                    for e in z.trace:
                        if isinstance(e, Ev) and e.k == 'set' and e.name == '=':
                            o, v = unld(e.obj), unld(e.args[0])
                            if o[0] == 'ix' and o[1] == P:
                                ok = v == r or fa.holds('==', ix(P, v), v) is True or v == ix(P, ix(P, o[2])) or fa.holds('==', v, r) is True
                                ctx.check(ok, 'R11-find', w, 'parent[%s] is set to %s, which is not known to be an ancestor' % (show(o[2]), show(v)), 'find_parent/compress')


def recursive(r):
    return isinstance(r, tuple) and r[0] == 'app' and short(r[1]) in FIND


def unionfind(ctx, u):
    for nm in ('union_find_pairs', 'rips_union_find_pairs'):
        for f in uniq(u, NS + nm):
            ctx.function(f)
            merge(ctx, u, f, nm)


def merge(ctx, u, f, nm):
    rips = nm.startswith('rips')
    w = tname(f)
    e = Engine(u, vocab=lambda n, x: short(n) in FIND or short(n) == 'binom_to_inds' or la_mutator(n, x))
    if rips:
        inds, vals = par(f, 0, u), par(f, 1, u)
    else:
        F = par(f, 0, u)
        B = ix(field(field(F, 'C'), 'boundary'), 1)
        val, perm = field(F, 'val'), field(F, 'perm')
    for p in e.run(f):
        loops = [it for it in p.trace if isinstance(it, Loop)]
        fill = [L for L in loops if any(is_emplace(x) for q in L.paths for x in evs(q))]
        work = [L for L in loops if any(isinstance(x, Ev) and short(x.name) in FIND for q in L.paths for x in evs(q))]
        if len(fill) != 1 or len(work) != 1:
            ctx.count('union-find not recognised')
            continue
        tr, tw = trip(fill[0]), trip(work[0])
        if tr is None:
            ctx.count('union-find not recognised')
            continue
        x, N = unld(tr[0]), unld(tr[2])
        out = unld(p.val)
        ctx.count('union-find')
        if not rips:
            ctx.check(unld(tr[1]) == 0 and N == field(B, 'm'), 'R11-uf', w, 'starts a bar for the vertices %s to %s' % (show(tr[1]), show(N)), nm + '/vertices')
        for q in fill[0].paths:
            for ev in evs(q):
                if is_emplace(ev):
                    d, bi, di, b, dd = pairterm(ev.args)
                    v = x if rips else ix(ix(perm, 0), x)
                    ctx.check(unld(ev.obj) == out and d == 0 and bi == v and noind(di) and infinite(dd), 'R11-uf', w, 'starts the bar (%s, index %s, death %s, %s)' % (show(d), show(bi), show(di), show(dd)), nm + '/start')
                    ctx.check(b == (0 if rips else ix(ix(val, 0), v)), 'R11-uf', w, 'a component is born at %s' % show(b), nm + '/birth')
        L = work[0]
        cs = [c for c in cursors(L).items() if c[1][2] == 0]
        hi = ('size', inds, 0) if rips else field(B, 'n')
        edge = None
        for d, (n_, sy, s0, cont) in cs:
            fas = [Facts(q.trace) for q in L.paths]
            if L.paths and all(fx.holds('<', sy, hi) is True for fx in fas) and all(idx_of(q.env.get(d)) == add(sy, 1) for q in L.paths if q.exit in ('n', 'c')):
                edge = sy
        if edge is None:
            ctx.count('union-find not recognised')
            continue
        for q in L.paths:
            finds = [ev for ev in q.trace if isinstance(ev, Ev) and short(ev.name) in FIND]
            if len(finds) != 2:
                ctx.count('union-find not recognised')
                continue
            ctx.count('union-find')
            ends = [unld(ev.args[1]) for ev in finds]
            r = [unld(ev.val) if getattr(ev, 'val', None) is not None else None for ev in finds]
            if r[0] is None:
                r = [('app', ev.name, tuple(ev.args), 0) for ev in finds]
            r = [root_of(q, en) for en in ends]
            if None in r:
                ctx.count('union-find not recognised')
                continue
            if not rips:
                c = ('f', ix(field(B, 'col'), edge), 'indval')
                ctx.check(ends == [field(ix(c, 0), 'ind'), field(ix(c, 1), 'ind')] or ends == [field(ix(c, 1), 'ind'), field(ix(c, 0), 'ind')], 'R11-uf', w, 'joins %s and %s, which are not the two ends of the edge' % tuple(map(show, ends)), nm + '/ends')
            else:
                ei = ix(inds, edge)
                ctx.check(all(any(s == ei for s in subterms(en)) for en in ends) and ends[0] != ends[1], 'R11-uf', w, 'joins %s and %s, which are not the two ends of the edge' % tuple(map(show, ends)), nm + '/ends')
            fa = Facts(q.trace)
            same = fa.holds('==', r[0], r[1])
            kills = {}
            joins = {}
            for ev in q.trace:
                if isinstance(ev, Ev) and ev.k == 'set' and ev.name == '=':
                    o, v = unld(ev.obj), unld(ev.args[0])
                    if o[0] == 'f' and unld(o[1])[0] == 'ix' and unld(unld(o[1])[1]) == out:
                        kills.setdefault(unld(unld(o[1])[2]), {})[o[2]] = v
                    elif o[0] == 'ix' and any(s == unld(finds[0].args[0]) for s in (unld(o[1]),)):
                        joins[unld(o[2])] = v
            if same is True:
                ctx.check(not kills and not joins and q.exit in ('n', 'c'), 'R11-uf', w, 'an edge inside one component ends a bar or the loop', nm + '/cycle')
                continue
            if same is None:
                ctx.check(not kills, 'R11-uf', w, 'a bar ends without a test that the edge joins two components', nm + '/test')
                continue
            dead = [x for x in kills if kills[x].keys() & {'death', 'death_ind'}]
            if len(dead) != 1 or dead[0] not in r:
                ctx.bad('R11-uf', w, 'an edge that joins two components ends the bars of %s' % (', '.join(map(show, dead)) or 'none'), nm + '/kill')
                continue
            dead = dead[0]
            live = r[1] if dead == r[0] else r[0]
            ed = edge if rips else ix(ix(perm, 1), edge)
            dv = ix(vals, ix(inds, edge)) if rips else ix(ix(val, 1), ed)
            kk = kills[dead]
            ctx.check(kk.get('death') == dv, 'R11-uf', w, 'the bar ends at %s, not at the value of the edge' % show(kk.get('death', 'an unset value')), nm + '/death')
            ctx.check(kk.get('death_ind') == ed, 'R11-uf', w, 'the bar is ended by cell %s, not by the edge' % show(kk.get('death_ind', 'an unset value')), nm + '/death index')
            ctx.check(joins.get(dead) == live, 'R11-uf', w, 'the ended component is joined to %s' % show(joins.get(dead, 'nothing')), nm + '/join')
            for a, b in joins.items():
                ctx.check(b == live and a == dead or a in ends and (b == live or b == root_of(q, a)), 'R11-uf', w, 'parent[%s] is set to %s' % (show(a), show(b)), nm + '/parent')
            if not rips:
                bl, bd = (field(ix(out, z), 'birth') for z in (live, dead))
                older = fa.holds('<', bd, bl)
                ctx.check(older is not True, 'R11-elder', w, 'the older of two components ends (%s)' % showconds(q), nm + '/elder')
                ct = [c for c in conds(q) if any(s in (bl, bd, live, dead) for s in subterms(unld(c.t))) and not (c.t[0] == 'cmp' and {unld(c.t[2]), unld(c.t[3])} == set(r) and c.t[1] == '==')]
                ctx.check(bool(ct), 'R11-elder', w, 'which of two components ends does not depend on their births', nm + '/elder test')
                if older is None and fa.holds('<', bl, bd) is None and fa.holds('<', live, dead) is False and fa.holds('==', live, dead) is False:
                    ctx.bad('R11-elder', w, 'the component whose root comes first in the filtration ends', nm + '/elder order')
            # early stop
            if q.exit in ('b', 'ret'):
                ok = False
                for d, (n_, sy, s0, cont) in cursors(L).items():
                    nx = q.env.get(d)
                    if s0 == 0 and sy != edge and nx is not None:
                        if any(fa.holds('==', a, b) is True or fa.holds('<', a, b) is False for a, b in ((nx, sub(N, 1)), (add(nx, 1), N))):
                            ok = True
                        if unld(nx) != add(sy, 1):
                            ctx.bad('R11-uf', w, 'ends one bar but counts %s' % show(sub(unld(nx), sy)), nm + '/counted')
                    elif s0 is not None and unld(s0) == N and nx is not None and fa.holds('==', nx, 1) is True:
                        ok = True
                ctx.check(ok, 'R11-uf', w, 'stops before one component is left (%s)' % showconds(q), nm + '/stop')
        for q in L.paths:
            for d, (n_, sy, s0, cont) in cursors(L).items():
                if sy != edge and s0 == 0 and q.exit in ('n', 'c') and unld(q.env.get(d)) != sy:
                    fa = Facts(q.trace)
                    finds = [ev for ev in q.trace if isinstance(ev, Ev) and short(ev.name) in FIND]
                    if len(finds) == 2:
                        r = [root_of(q, unld(ev.args[1])) for ev in finds]
                        ctx.check(unld(q.env.get(d)) == add(sy, 1) and fa.holds('==', r[0], r[1]) is False, 'R11-uf', w, 'the count of ended bars grows when none ends', nm + '/count')


def root_of(q, en):
    """the value find_parent returned for vertex en"""
    en = unld(en)
    for it in q.trace:
        ts = [it.t] if isinstance(it, Cond) else ([it.obj] + list(it.args) if isinstance(it, Ev) else [])
        for t in ts:
            if t is None or not isinstance(t, tuple):
                continue
            for s in subterms(unld(t)):
                if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) in FIND and len(s[2]) == 2 and unld(s[2][1]) == en:
                    return s
    return None


# --------------------------------------------------------------------------- precision
FLOATS = {'float': 0, 'double': 1, 'long double': 2}
INTS = {'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long'}


def bare(t):
    return t.replace('const ', '').replace('volatile ', '').replace('&', '').strip()


def precision(ctx, units):
    """a floating value never passes through a narrower type: neither a smaller floating type nor, without an
    explicit cast or a rounding function, an integer type"""
    seen = set()
    for u in units:
        for f in u.funcs:
            if f.dep or f.d.get('b') is None or not f.file.startswith(os.path.join(prog.REPO, 'include')):
                continue
            for n in walk(f.d['b']):
                if n.get('k') != 'cast' or 't' not in n or 't' not in n.get('e', {}):
                    continue
                a, b = bare(u.type(n['e']['t'])), bare(u.type(n['t']))
                if a not in FLOATS:
                    continue
                lit = n['e'].get('k') == 'float'
                ctx.count('conversions')
                k = (f.file, n.get('l'), a, b)
                if k in seen:
                    continue
                seen.add(k)
                w = '%s:%s %s' % (os.path.relpath(f.file, prog.REPO), n.get('l'), f.name)
                if b in FLOATS:
                    ctx.check(lit or FLOATS[b] >= FLOATS[a], 'R11-narrow', w, 'a value of type %s is stored as %s' % (a, b), 'narrow:' + short(f.name))
                elif b in INTS and n.get('imp'):
                    e = n['e']
                    ctx.check(lit or e.get('k') == 'call', 'R11-narrow', w, 'a value of type %s is silently cut to %s' % (a, b), 'narrow:' + short(f.name))


def run(ctx):
    u, a, t, l = prog.load(['core', 'algebra', 'topo', 'linalg'])
    pairs(ctx, u)
    extraction(ctx, a)
    representatives(ctx, u)
    bars(ctx, a)
    findparent(ctx, t)
    unionfind(ctx, t)
    precision(ctx, (u, a, t, l))
