"""Reduced complexes as a whole: construction, generators, representatives and induced maps.

Every constructor is read as a schedule: which dimension is reduced when, from which differential, with
which basis start, and which helper (pivots or nonzero columns) of which other dimension it is handed.
Variables carried from one dimension to the next (clearing and compression lists) are resolved to the
dimension they were computed from, for the first and for an arbitrary later round.  Generator lists,
basis changes, preferred representatives and induced maps are compared with their definitions as terms
over the stored tables, separately for each value of the degree."""
from rules.common import *
from rules.r08 import par, field
from bx.seqs import trip, subst, coef, counters, visits, lock

PROP = dict(
    id="R16", title="Homology bases: reduction schedules, generators, representatives, induced maps",
    statement="Constructing a reduced chain, cochain or DG complex, with any flag combination, reduces every differential exactly once, starting from that differential and an identity basis of its column count, and keeps its pivot map; clearing uses the pivots of the differential into the same dimension, compression the nonzero columns of the differential out of the row dimension, both already reduced. Afterwards, and after every basis permutation and general update, the generators of dimension k are the zero columns that are not pivots of the differential into dimension k. hdim, betti, dim and maxdim count these tables. to_hom_basis and from_hom_basis change basis by U in dimension k; get_preferred_representative is the basis column of the j-th generator; find_preferred_representative walks the entries from the last to the first and removes each pivot entry with the multiple of the killing boundary, in homology basis, that cancels it; chain_preferred_representative composes them. induced_map has as j-th column the class of the image of the j-th generator in the generators of the target, for homology, cohomology and both degrees, and raises an error when shapes do not agree; kron_homology does the same for products of generators. Reduced filtered complexes keep values and order of the filtered complex.",
    over=["inputs"],
    text="all complexes, fields, flags, degrees and dimensions; loops over dimensions, generators and entries are decided for an arbitrary round",
    why="tests compare Betti numbers of a few complexes: clearing with the wrong dimension, a generator list one dimension off, or a representative that is not reduced is invisible where neighbouring dimensions look alike or homology is trivial",
    files=["include/homology/basis.hpp", "include/homology/cohom_basis.hpp", "include/homology/dgbasis.hpp", "include/homology/induced_map.hpp", "include/persistence/filtered_basis.hpp", "include/persistence/filtered_dgbasis.hpp", "include/topology/eilenberg_zilber.hpp"],
    mechanism=[("reduction schedule", "ReducedChainComplex, ReducedCochainComplex, ReducedDGVectorSpace constructors"), ("generators", "set_indices"), ("representatives", "find_preferred_representative, induced_map")],
)
TECHNIQUE = "schedule reconstruction of constructors (dimension intervals, loop-carried values resolved by round), term comparison with definitions per degree case"
LEVEL = "proof"
ASSUMPTIONS = ["reduce_matrix and its clearing and compression forms, extract_basis_indices and the index helpers are as decided by R02", "matrix and vector operations are as decided by R04, R12 and R13",
               "differentials compose to zero and bases are upper triangular (R01)", "degree is -1 or +1"]
MINIMUM = {"constructors": 12, "definitions": 20}
TH = ('this',)
PRE = {}
RED = {'reduce_matrix', 'reduce_matrix_standard', 'reduce_matrix_extra', 'reduce_matrix_clearing', 'reduce_matrix_compression'}
HELP = {'get_clearing_inds', 'get_compression_inds'}
KEEP = RED | HELP | {'set_indices'}
U_, R_, I_, P_ = (field(TH, x) for x in ('U', 'R', 'I', 'p2c'))

CLS = {
    # class: (name of the complex' differentials, {degree or None: (differential into dim k relative to the one out of k)})
    'ReducedChainComplex': ('boundary', {None: 1}),
    'ReducedCochainComplex': ('coboundary', {None: -1}),
    'ReducedDGVectorSpace': ('differential', {-1: 1, 1: -1}),
}


I_ = field(TH, 'I')


def ix(a, i):
    return ("ix", a, i)


def rec(ctx, what):
    ctx.count(what + " not recognised")


def methods(u, cls, name):
    seen = set()
    for f in u.funcs:
        if f.dep or f.d.get('b') is None or f.d.get('imp') or f.d.get('dfd') or short(f.name) != name or cls_of(f.name) != cls:
            continue
        yield f


def deg(p, obj):
    """value of obj.degree on the path (-1, +1 or None when both are possible)"""
    fa = p if isinstance(p, Facts) else Facts([it for it in p.trace if isinstance(it, Cond)])
    d = field(obj, 'degree')
    if fa.holds('==', d, -1) is True or fa.holds('==', d, 1) is False:
        return -1
    if fa.holds('==', d, -1) is False or fa.holds('==', d, 1) is True:
        return 1
    return None


def plain(t, extra=()):
    """only table look-ups, sizes and linear arithmetic: nothing the comparison could have missed"""
    for s in subterms(unld(t)):
        if isinstance(s, tuple) and s and s[0] in ('app', 'deref', 'ite', 'envvar', 'lv', 'unk', 'opaque') and not (s[0] == 'app' and short(str(s[1])).replace('new ', '') in extra):
            return False
    return True


def definite(a, b):
    """a and b are provably different numbers: they differ by a nonzero constant"""
    d = sub(unld(a), unld(b))
    return is_num(d) and d != 0


# ------------------------------------------------------------------ schedules
def redcall(t):
    """(name, R index, U index or None, further arguments) of a reduction term/event"""
    n, a = t
    if short(n) not in RED or not a:
        return None
    a = [unld(x) for x in a]
    if not (a[0][0] == 'ix' and a[0][1] == R_):
        return None
    i, rest = a[0][2], a[1:]
    ui = None
    if rest and isinstance(rest[0], tuple) and rest[0][0] == 'ix' and rest[0][1] == U_:
        ui, rest = rest[0][2], rest[1:]
    return short(n), i, ui, rest


def helper(t, SRC=None):
    """(helper, dimension it was computed from)"""
    t = unld(t)
    if not (isinstance(t, tuple) and t and t[0] == 'app' and short(t[1]) in HELP and len(t[2]) == 1):
        return None
    h, a = short(t[1]), unld(t[2][0])
    if h == 'get_compression_inds' and SRC is not None and isinstance(a, tuple) and a[0] == 'ix' and a[1] == SRC:
        return h, a[2], 'unreduced'
    if h == 'get_compression_inds':
        return (h, a[2]) if isinstance(a, tuple) and a[0] == 'ix' and a[1] == R_ else None
    if isinstance(a, tuple) and a[0] == 'ix' and a[1] == P_:
        return h, a[2]
    if isinstance(a, tuple) and a[0] == 'app':
        r = redcall((a[1], a[2]))
        if r:
            return h, r[1]
    return None


def ctors(ctx, u, cls):
    src, degs = CLS[cls]
    seen = set()
    for f in u.funcs:
        if f.dep or f.d.get('b') is None or f.d.get('imp') or f.d.get('dfd') or short(f.name) != cls or cls_of(f.name) != cls or not f.d['ps']:
            continue
        if len(f.d['ps']) == 1 and cls in u.type(f.d['ps'][0]['t']):
            continue
        if f.line in seen:
            continue
        seen.add(f.line)
        C = par(f, 0, u)
        SRC = field(C, src)
        w = '%s(%s)' % (cls, ', '.join(short(u.type(p['t']).replace('const ', '').split('<')[0]).strip(' &') for p in f.d['ps']))
        ctx.function(f)
        ctx.count("constructors")
        e = Engine(u, vocab=lambda n, x: short(n) in KEEP or la_mutator(n, x) or (cls_of(n) == 'ColumnMatrix' and short(n) == 'identity'))
        for p in e.run(f):
            if p.exit not in ('ret', 'n', None):
                continue
            premark(p, SRC)
            room(ctx, f, p, w)
            started(ctx, f, p, w)
            d = None
            if None not in degs:
                for x in p.trace:
                    if isinstance(x, Ev) and x.k == 'set' and x.obj is not None and unld(x.obj) == field(TH, 'degree') and x.args and plain(x.args[0]):
                        ctx.check(unld(x.args[0]) == field(C, 'degree'), 'R16-start', f.loc(x.line), '%s: the degree is %s, not that of the complex' % (w, show(x.args[0])), w + '/degree')
            if None not in degs:
                d = deg(p, C)
                if d is None:
                    d = deg(p, TH)
                if d is None:
                    for dd in degs:
                        schedule(ctx, f, p, w, SRC, C, degs[dd], w + '/degree %d' % dd, dd)
                    continue
            schedule(ctx, f, p, w, SRC, C, degs[d], w if d is None else w + '/degree %d' % d, d)


def schedule(ctx, f, p, w, SRC, C, dc, k0, d):
    loc = f.loc
    st = {'env': {}, 'done': [], 'R': {}, 'U': {}, 'last': -1, 'idx': -1, 'p2c': []}
    N = None
    for it in p.trace:
        if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'resize' and it.obj is not None and unld(it.obj) == R_:
            N = unld(it.args[0])
    NS = [size_of(SRC)] + ([size_of(field(C, 'dim'))] if 'Cochain' in w else [])
    if N is not None and not any(N == n for n in NS):
        bad = [n for n in NS if definite(N, n)]
        if bad:
            ctx.bad('R16-cover', loc(), '%s makes room for %s differentials, the complex has %s' % (w, show(N), show(bad[0])), k0 + '/room')
    N = NS
    steps = []          # (kind 'one'/'loop', data)
    pos = 0
    setpos, redpos = -1, -1
    unknown = False
    env = {}
    cover = []
    for n, it in enumerate(p.trace):
        if isinstance(it, Loop):
            tr = trip(it)
            body = [q for q in it.paths if q.exit in ('n', 'c')]
            if any(isinstance(x, Ev) and short(x.name) in RED for q in it.paths for x in flat(q)):
                redpos = n
                if tr is None or not is_num(tr[3]) or abs(tr[3]) != 1:
                    unknown = True
                    rec(ctx, "schedules")
                    continue
                sy, lo, hi, step = tr
                first = lo if step == 1 else sub(hi, 1)
                ends = set()
                for q in it.paths:
                    if q.exit not in ('n', 'c'):
                        continue
                    e1 = dict(env)
                    idx = items(ctx, f, q.trace, w, SRC, C, dc, k0, d, carried=(env, q, it, sy, first, step, body), cover=None, loopsym=sy, before=list(cover))
                    if idx is None:
                        unknown = True
                        continue
                    ends.add(tuple(idx))
                for idx in ends:
                    for i in idx:
                        c = coef(unld(i), sy)
                        if c is None or c[0] != 1:
                            unknown = True
                            continue
                        cover.append(('range', add(lo, c[1]), add(hi, c[1]), it.line if hasattr(it, 'line') else f.line))
                    if not idx:
                        fa = [q for q in it.paths if q.exit in ('n', 'c')]
                        if len(ends) > 0 and not unknown:
                            ctx.bad('R16-cover', loc(), '%s leaves a dimension of the loop unreduced' % w, k0 + '/skips')
                # values carried out of the loop are not needed afterwards
                env.clear()
            elif any(isinstance(x, Ev) and short(x.name) == 'set_indices' for q in it.paths for x in flat(q)):
                setpos = n
            continue
        if isinstance(it, Leave):
            continue
        if isinstance(it, Ev) and short(it.name) == 'set_indices' and (it.obj is None or unld(it.obj) == TH):
            setpos = n
    # straight-line part
    idx = items(ctx, f, p.trace, w, SRC, C, dc, k0, d, carried=None, cover=cover, loopsym=None, before=[])
    if idx is None:
        unknown = True
    else:
        for n, it in enumerate(p.trace):
            if isinstance(it, Ev) and short(it.name) in RED:
                redpos = max(redpos, n)
        for i in idx:
            cover.append(('one', unld(i)))
    if redpos < 0 and not unknown and not cover:
        if any(isinstance(x, Ev) and x.k == 'call' and any(unld(a) == C for a in x.args) for x in flat(p)):
            rec(ctx, "schedules")
            return
        ctx.bad('R16-cover', loc(), '%s reduces nothing on a path (%s)' % (w, showconds(p)), k0 + '/none')
        return
    ctx.check(setpos > redpos, 'R16-indices', loc(), '%s returns without determining the generators after the last reduction' % w, k0 + '/indices')
    if unknown:
        return
    # one cover of [0, N)
    ctx.count("schedules")
    rngs = [c for c in cover if c[0] == 'range']
    ones = [c[1] for c in cover if c[0] == 'one']
    if len(rngs) != 1 or len(ones) > 2:
        rec(ctx, "covers")
        return
    _, lo, hi, ln = rngs[0]
    lo, hi = unld(lo), unld(hi)
    okk = False
    for n in N:
        l, h, rest = lo, hi, list(ones)
        ch = True
        while ch:
            ch = False
            for o in rest:
                if o == sub(l, 1):
                    l, ch = o, True
                elif o == h:
                    h, ch = add(h, 1), True
                else:
                    continue
                rest.remove(o)
                break
        if l == 0 and h == n and not rest:
            okk = True
    if okk:
        ctx.check(True, 'R16-cover', loc(), '', k0 + '/cover')
        return
    ll = sub(lo, 0)
    prov = any(definite(lo, o) for o in [0] + [add(o, 1) for o in ones]) and is_num(lo) or any(is_num(sub(hi, n)) for n in N)
    ctx.check(not prov, 'R16-cover', loc(), '%s reduces dimensions [%s, %s) and {%s}, not each of 0 .. %s once' % (w, show(lo), show(hi), ', '.join(show(o) for o in ones), show(sub(N[0], 1))), k0 + '/cover')


def items(ctx, f, trace, w, SRC, C, dc, k0, d, carried, cover, loopsym, before):
    """checks the reduction calls of one straight-line trace; returns the reduced dimensions"""
    Rs, Us, helpv = {}, {}, {}
    out = []
    results = {}
    stored = []
    for pos, it in enumerate(trace):
        if not isinstance(it, Ev):
            continue
        if it.k == 'set' and it.obj is not None:
            o = unld(it.obj)
            if isinstance(o, tuple) and o[0] == 'ix' and o[1] in (R_, U_, P_):
                v = unld(it.args[0])
                if o[1] == R_:
                    Rs[o[2]] = (v, it.line)
                elif o[1] == U_:
                    Us[o[2]] = (v, it.line)
                else:
                    stored.append((o[2], v, it.line))
                continue
            h = helper(it.args[0], SRC) if it.args else None
            if h is not None:
                helpv[o] = h
            elif o in helpv:
                del helpv[o]
            continue
        if it.k != 'call' or short(it.name) not in RED:
            continue
        r = redcall((it.name, it.args))
        if r is None:
            rec(ctx, "reductions")
            return None
        nm, i, ui, rest = r
        W = f.loc(it.line)
        ctx.count("reductions")
        out.append(i)
        # R starts as the differential of that dimension
        if i in Rs:
            v = Rs[i][0]
            good = v == ix(SRC, i)
            if good or plain(v):
                ctx.check(good, 'R16-start', f.loc(Rs[i][1]), '%s: dimension %s is reduced from %s, not from its differential' % (w, show(i), show(v)), k0 + '/start')
        else:
            oth = [j for j in Rs if definite(i, j)]
            ctx.check(not (Rs and len(oth) == len(Rs)), 'R16-start', W, '%s reduces dimension %s but sets up dimension %s' % (w, show(i), ', '.join(map(show, Rs))), k0 + '/start')
        if ui is not None:
            ctx.check(not definite(ui, i), 'R16-basis', W, '%s: the basis of dimension %s follows the reduction of dimension %s' % (w, show(ui), show(i)), k0 + '/basis')
            if ui in Us:
                v = Us[ui][0]
                if isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == 'identity' and len(v[2]) == 1:
                    a = unld(v[2][0])
                    good = a in (field(ix(SRC, i), 'n'), size_of(field(ix(SRC, i), 'col')), field(ix(R_, i), 'n'), size_of(field(ix(R_, i), 'col')))
                    if 'Cochain' in w:
                        fa = Facts([x for x in trace if isinstance(x, Cond)])
                        good = good or a == ix(field(C, 'dim'), sub(i, 1)) or a == 1 and fa.holds('==', i, 0) is True
                    if good or plain(a):
                        ctx.check(good, 'R16-basis', f.loc(Us[ui][1]), '%s: the basis of dimension %s starts as the identity of size %s, not of its column count' % (w, show(i), show(a)), k0 + '/identity')
            elif Us:
                ctx.check(not all(definite(ui, j) for j in Us), 'R16-basis', W, '%s: basis %s is used but %s is set up' % (w, show(ui), ', '.join(map(show, Us))), k0 + '/basis')
        # helpers
        want = {'reduce_matrix_clearing': ('get_clearing_inds', dc), 'reduce_matrix_compression': ('get_compression_inds', -dc)}.get(nm)
        if want is None:
            continue
        hn, off = want
        arg = [a for a in rest if not (isinstance(a, tuple) and a[0] == 'app' and 'flag' in str(a[1]))]
        if len(arg) == 2 and nm == 'reduce_matrix_clearing':
            a, b = arg
            if a[0] == 'ix' and a[1] == R_ and b[0] == 'ix' and b[1] == P_:
                good = a[2] == b[2] == add(i, off)
                ctx.check(good, 'R16-helper', W, '%s: dimension %s is cleared by differential %s with pivots %s, not by the differential into it, %s' % (w, show(i), show(a[2]), show(b[2]), show(add(i, off))), k0 + '/clearing')
                if good and carried is not None:
                    ready(ctx, f, W, w, carried, i, off, k0, trace)
            else:
                rec(ctx, "helpers")
            continue
        if len(arg) != 1:
            rec(ctx, "helpers")
            continue
        a = arg[0]
        h = helper(a, SRC)
        if h is None and a in helpv:
            h = helpv[a]
        if h is not None:
            if carried is not None and not definite(h[1], add(i, off)) and not any(x == carried[3] for x in subterms(unld(h[1]))) and any(x == carried[3] for x in subterms(unld(i))):
                # the same list in every round: look at the second one
                nx = add(carried[4], carried[5])
                judge(ctx, W, w, nm, h, hn, subst(unld(add(i, off)), carried[3], nx), subst(unld(i), carried[3], nx), k0, 'helper')
                continue
            judge(ctx, W, w, nm, h, hn, add(i, off), i, k0, 'helper')
            continue
        if carried is None:
            rec(ctx, "helpers")
            continue
        env, q, L, sy, first, step, body = carried
        # value assigned at the end of the previous round
        fin = None
        for e in q.trace:
            if isinstance(e, Ev) and e.k == 'set' and e.obj is not None and unld(e.obj) == a:
                fin = helper(e.args[0], SRC)
        start = None
        if id(L) in PRE and a in PRE[id(L)][1]:
            start = PRE[id(L)][1][a]
        if fin is None:
            if start is not None and not any(isinstance(e, Ev) and e.obj is not None and unld(e.obj) == a for qq in L.paths for e in flat(qq)):
                judge(ctx, W, w, nm, start, hn, subst(add(i, off), sy, add(first, step)), subst(unld(i), sy, add(first, step)), k0, 'helper of the first round')
            else:
                rec(ctx, "helpers")
            continue
        prev = (fin[0], subst(unld(fin[1]), sy, sub(sy, step))) + tuple(fin[2:])
        judge(ctx, W, w, nm, prev, hn, add(i, off), i, k0, 'helper of the previous round')
        if start is not None:
            judge(ctx, W, w, nm, start, hn, subst(add(i, off), sy, first), subst(unld(i), sy, first), k0, 'helper of the first round')
        else:
            rec(ctx, "first helpers")
    for j, v, line in stored:
        r = redcall((v[1], v[2])) if isinstance(v, tuple) and v and v[0] == 'app' else None
        if r is not None:
            ctx.check(r[1] == j or not definite(r[1], j), 'R16-pivots', f.loc(line), '%s stores the pivots of dimension %s as those of dimension %s' % (w, show(r[1]), show(j)), k0 + '/pivots')
    if out and not stored and not any(isinstance(x, Loop) for x in trace):
        ctx.bad('R16-pivots', f.loc(), '%s does not keep the pivot map of dimension %s' % (w, show(out[0])), k0 + '/pivots')
    return out


def judge(ctx, W, w, nm, h, hn, want, i, k0, what):
    if len(h) > 2:
        ctx.bad('R16-helper', W, '%s: the %s of dimension %s is computed from differential %s before its reduction' % (w, what, show(i), show(h[1])), k0 + '/unreduced')
        return
    if h[0] != hn:
        ctx.bad('R16-helper', W, '%s: %s is handed the result of %s' % (w, nm, h[0]), k0 + '/kind')
        return
    g = unld(h[1]) == unld(want)
    if g or definite(h[1], want):
        ctx.check(g, 'R16-helper', W, '%s: dimension %s uses the %s computed from dimension %s, not %s' % (w, show(i), what, show(h[1]), show(want)), k0 + '/helper')
    else:
        rec(ctx, "helpers")


def ready(ctx, f, W, w, carried, i, off, k0, trace):
    """the differential a dimension is cleared by was reduced in an earlier round"""
    env, q, L, sy, first, step, body = carried
    c = coef(unld(i), sy)
    if c is None or c[0] != 1:
        return
    ctx.check(step == -off, 'R16-helper', W, '%s clears dimension %s by dimension %s before that one is reduced' % (w, show(i), show(add(i, off))), k0 + '/order')


def premark(p, SRC):
    """values of helper variables at the entry of every loop"""
    cur = {}
    for it in p.trace:
        if isinstance(it, Loop):
            PRE[id(it)] = (it, dict(cur))
            for q in it.paths:
                for e in flat(q):
                    if isinstance(e, Ev) and e.k == 'set' and e.obj is not None:
                        cur.pop(unld(e.obj), None)
        elif isinstance(it, Ev) and it.k == 'set' and it.obj is not None and it.args:
            h = helper(it.args[0], SRC)
            o = unld(it.obj)
            if h is not None:
                cur[o] = h
            else:
                cur.pop(o, None)


def initial(ctx, u, cls):
    """initialize(C): differentials, identity bases and empty pivot maps, nothing reduced"""
    src = CLS[cls][0]
    for f in list(methods(u, cls, 'initialize'))[:1]:
        C = par(f, 0, u)
        SRC = field(C, src)
        ctx.function(f)
        k0 = cls + '::initialize'
        e = Engine(u, vocab=lambda n, x: short(n) in RED or la_mutator(n, x) or (cls_of(n) == 'ColumnMatrix' and short(n) == 'identity'))
        for p in e.run(f):
            room(ctx, f, p, k0)
            setup = {}
            for it in p.trace:
                if not isinstance(it, Loop):
                    continue
                tr = trip(it)
                if tr is None or abs(tr[3]) != 1:
                    continue
                ctx.count("definitions")
                for q in it.paths:
                    if q.exit in ('n', 'c'):
                        for ev in flat(q):
                            if isinstance(ev, Ev) and ev.obj is not None:
                                o = unld(ev.obj)
                                if isinstance(o, tuple) and o[0] == 'ix' and o[1] in (R_, U_, P_) and not (ev.k == 'call' and ev.name.startswith('pure')):
                                    if definite(o[2], tr[0]):
                                        ctx.bad('R16-start', f.loc(ev.line), '%s sets up dimension %s in the round of dimension %s' % (k0, show(o[2]), show(tr[0])), k0 + '/round')
                                    setup.setdefault(o[1], ev)
                    for ev in q.trace:
                        if not isinstance(ev, Ev) or ev.obj is None:
                            continue
                        o = unld(ev.obj)
                        if not (isinstance(o, tuple) and o[0] == 'ix' and o[1] in (R_, U_, P_) and unld(o[2]) == tr[0]):
                            continue
                        k = tr[0]
                        if ev.k == 'set' and o[1] == R_:
                            v = unld(ev.args[0])
                            if v == ix(SRC, k) or plain(v):
                                ctx.check(v == ix(SRC, k), 'R16-start', f.loc(ev.line), '%s: dimension k starts as %s, not as its differential' % (k0, show(v)), k0 + '/start')
                        elif ev.k == 'set' and o[1] == U_:
                            v = unld(ev.args[0])
                            if isu(v) and short(v[1]) == 'identity' and plain(v[2][0]):
                                a = unld(v[2][0])
                                ctx.check(a in [field(ix(y, k), 'n') for y in (SRC, R_)] + [size_of(field(ix(y, k), 'col')) for y in (SRC, R_)], 'R16-basis', f.loc(ev.line), '%s: the basis of dimension k starts as the identity of size %s' % (k0, show(a)), k0 + '/identity')
                        elif ev.k == 'call' and o[1] == P_ and short(ev.name) in ('resize', 'assign') and len(ev.args) == 2 and all(plain(x) for x in ev.args):
                            a = [unld(x) for x in ev.args]
                            ctx.check(a[0] in [field(ix(y, k), 'm') for y in (SRC, R_)] and a[1] == NO_IND, 'R16-pivots', f.loc(ev.line), '%s: the pivot map of dimension k starts as %s entries %s, not as one empty entry per row' % (k0, show(a[0]), show(a[1])), k0 + '/pivots')
                lo, hi = unld(tr[1]), unld(tr[2])
                if plain(lo) and plain(hi):
                    ctx.check(lo == 0 and not definite(hi, size_of(SRC)), 'R16-cover', f.loc(), '%s sets up dimensions [%s, %s)' % (k0, show(lo), show(hi)), k0 + '/cover')
            whole = {unld(x.obj) for x in p.trace if isinstance(x, Ev) and x.k == 'set' and x.obj is not None and x.name != 'init'}
            if R_ in setup or R_ in whole:
                for T_, nm in ((U_, 'basis'), (P_, 'pivot map')):
                    ctx.check(T_ in setup or T_ in whole, 'R16-start', f.loc(), '%s never sets up the %s of a dimension' % (k0, nm), '%s/%s' % (k0, nm))


def room(ctx, f, p, w):
    """tables that are indexed were given a size"""
    used, sized = {}, {}
    for it in flat(p):
        if not isinstance(it, Ev):
            continue
        o = unld(it.obj) if it.obj is not None else None
        if o in (R_, U_, P_, I_):
            if it.k == 'set' and (it.name != 'init' or it.args and isinstance(unld(it.args[0]), tuple) and unld(it.args[0])[0] == 'app' and unld(it.args[0])[2]) or it.k == 'call':
                sized.setdefault(o, it)
            continue
        if it.k == 'call' and short(it.name) == 'set_indices' and o == TH and I_ not in sized:
            used.setdefault(I_, it)
        for t in (o,) + tuple(it.args or ()):
            if isinstance(t, tuple):
                for x in subterms(unld(t)):
                    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'ix' and x[1] in (R_, U_, P_, I_) and x[1] not in sized:
                        used.setdefault(x[1], it)
    for T_ in used:
        ctx.check(False, 'R16-room', f.loc(used[T_].line), '%s uses %s before it has a size' % (w, show(T_)), '%s/room/%s' % (w, T_[2]))
    if not used:
        ctx.check(True, 'R16-room', f.loc(), '', w + '/room')


def started(ctx, f, p, w):
    """a basis that follows a reduction starts as an identity"""
    red = None
    for it in flat(p):
        if not isinstance(it, Ev):
            continue
        if it.k == 'set' and it.obj is not None and any(x == U_ for x in subterms(unld(it.obj))) and it.name != 'init':
            return
        if it.k == 'call' and it.obj is not None and any(x == U_ for x in subterms(unld(it.obj))) and short(it.name) not in ('resize', 'reserve'):
            return
        if it.k == 'call' and short(it.name) not in RED and short(it.name) != 'set_indices' and (it.obj is not None and unld(it.obj) == TH or any(isinstance(a, tuple) and unld(a) == U_ for a in it.args)):
            return
        if it.k == 'call' and short(it.name) in RED and red is None:
            r = redcall((it.name, it.args))
            if r and r[2] is not None:
                red = it
    if red is not None:
        ctx.bad('R16-basis', f.loc(red.line), '%s: the basis follows the reduction but never starts as the identity' % w, w + '/nobasis')


# ------------------------------------------------------------------ generators
def indices(ctx, u, cls):
    src, degs = CLS[cls]
    for f in list(methods(u, cls, 'set_indices'))[:1]:
        ctx.function(f)
        k0 = cls + '::set_indices'
        top = sub(size_of(R_), 1)
        e = Engine(u, vocab=lambda n, x: short(n) == 'extract_basis_indices' or la_mutator(n, x))
        for p in e.run(f):
            d = deg(p, TH) if None not in degs else None
            if None not in degs and d is None:
                continue
            fa = Facts([x for x in p.trace if isinstance(x, Cond)])
            if d is not None and all(fa.holds('==', field(TH, 'degree'), v) is False for v in (-1, 1)):
                continue
            dc = degs[d]
            kk = k0 if d is None else '%s/degree %d' % (k0, d)
            got, topdone, other = [], False, False
            # x: index of I; the differential out of it and into it
            outo = 0 if cls != 'ReducedCochainComplex' else 1
            ino = outo + dc
            for it in p.trace:
                if isinstance(it, Loop):
                    tr = trip(it)
                    sets = [x for q in it.paths for x in flat(q) if isinstance(x, Ev) and x.k == 'set' and x.obj is not None and isinstance(unld(x.obj), tuple) and unld(x.obj)[0] == 'ix' and unld(x.obj)[1] == I_]
                    intop = False
                    for q in it.paths:
                        qf = Facts([y for y in q.trace if isinstance(y, Cond)])
                        for x in flat(q):
                            if x in sets:
                                tp = qf.holds('==', unld(unld(x.obj)[2]), top) is True
                                intop = intop or tp
                                one(ctx, f, x, outo, ino, kk, unld(unld(x.obj)[2]) if tp else None)
                    if sets and tr is not None and abs(tr[3]) == 1:
                        c = coef(unld(unld(sets[0].obj)[2]), tr[0])
                        if c is not None and c[0] == 1:
                            hi0 = same_sizes(add(tr[2], c[1]))
                            if intop and hi0 == add(top, 1):
                                hi0, topdone = (hi0 if cls == 'ReducedDGVectorSpace' and d == 1 else top), True
                            got.append((add(tr[1], c[1]), hi0))
                            for q in it.paths:
                                if q.exit in ('n', 'c') and not any(isinstance(x, Ev) and x.k == 'set' and x.obj is not None and isinstance(unld(x.obj), tuple) and unld(x.obj)[:2] == ('ix', I_) for x in flat(q)) and not any(isinstance(x, Ev) and x.k == 'call' and x.obj is not None and root(x.obj) == TH for x in flat(q)):
                                    ctx.bad('R16-generators', f.loc(), '%s leaves the generators of some dimension undetermined' % cls, kk + '/skip')
                        else:
                            other = True
                    elif sets:
                        other = True
                    elif any(isinstance(x, Ev) and x.obj is not None and isinstance(unld(x.obj), tuple) and unld(x.obj)[:2] == ('ix', I_) for q in it.paths for x in flat(q)):
                        other = True
                        topdone = handwritten(ctx, f, it, cls, kk) or topdone
                elif isinstance(it, Ev) and it.k == 'set' and it.obj is not None and isinstance(unld(it.obj), tuple) and unld(it.obj)[:2] == ('ix', I_):
                    x = same_sizes(unld(unld(it.obj)[2]))
                    if x == top:
                        one(ctx, f, it, outo, ino, kk, top)
                        topdone = True
                    else:
                        one(ctx, f, it, outo, ino, kk, top)
                        got.append((x, add(x, 1)))
                elif isinstance(it, Ev) and it.k == 'call' and it.obj is not None and isinstance(unld(it.obj), tuple) and unld(it.obj)[:2] == ('ix', I_) and short(it.name) not in ('clear', 'reserve', 'resize'):
                    other = True
            ctx.count("definitions")
            want_lo = 1 if (cls == 'ReducedDGVectorSpace' and d == 1) else 0
            want_hi = add(top, 1) if (cls == 'ReducedDGVectorSpace' and d == 1) else top
            if got:
                lo, hi = got[0]
                if len(got) == 1:
                    if is_num(lo) or definite(lo, want_lo):
                        ctx.check(lo == want_lo or is_num(lo) and lo < want_lo, 'R16-generators', f.loc(), '%s: generators are determined from dimension index %s on, not %s' % (cls, show(lo), show(want_lo)), kk + '/from')
                    if hi != want_hi and definite(hi, want_hi):
                        ctx.bad('R16-generators', f.loc(), '%s: generators are determined up to dimension index %s, not %s' % (cls, show(hi), show(want_hi)), kk + '/to')
                    else:
                        ctx.check(True, 'R16-generators', f.loc(), '', kk + '/to')
            elif not other:
                ctx.bad('R16-generators', f.loc(), '%s: no generators are determined (%s)' % (cls, showconds(p)), kk + '/none')
            if want_hi == top and not topdone and not other and cls != 'ReducedDGVectorSpace':
                ctx.bad('R16-generators', f.loc(), '%s: the generators of the top dimension are not determined' % cls, kk + '/top')


def root(t):
    t = unld(t)
    while isinstance(t, tuple) and t and t[0] in ('f', 'ix', 'ld'):
        t = unld(t[1])
    return t


def same_sizes(t):
    """R, U, I and p2c have one entry per differential"""
    for y in (U_, I_, P_):
        t = subst(t, size_of(y), size_of(R_))
    return t


def one(ctx, f, ev, outo, ino, kk, top):
    x = same_sizes(unld(unld(ev.obj)[2]))
    v = same_sizes(unld(ev.args[0]))
    if not (isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == 'extract_basis_indices'):
        rec(ctx, "generators")
        return
    a = [unld(t) for t in v[2]]
    if not (isinstance(a[0], tuple) and a[0][0] == 'ix' and a[0][1] == R_):
        rec(ctx, "generators")
        return
    ctx.count("generators")
    ctx.check(a[0][2] == add(x, outo), 'R16-generators', f.loc(ev.line), 'generators %s are taken from the zero columns of differential %s, not %s' % (show(x), show(a[0][2]), show(add(x, outo))), kk + '/zero columns')
    if len(a) > 1:
        if isinstance(a[1], tuple) and a[1][0] == 'ix' and a[1][1] == P_:
            ctx.check(a[1][2] == add(x, ino), 'R16-generators', f.loc(ev.line), 'generators %s leave out the pivots of differential %s, not %s' % (show(x), show(a[1][2]), show(add(x, ino))), kk + '/pivots')
    elif x != top:
        ctx.bad('R16-generators', f.loc(ev.line), 'generators %s include the boundaries: no pivots are left out below the top dimension' % show(x), kk + '/pivots')


def handwritten(ctx, f, L, cls, kk):
    """I[x].push(j) for j in rows with p2c[y][j] == NO_IND"""
    tr = trip(L)
    if tr is None:
        return True
    sy, lo, hi, st = tr
    for q in L.paths:
        if q.exit not in ('n', 'c'):
            continue
        fa = Facts([x for x in q.trace if isinstance(x, Cond)])
        ps = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back') and isinstance(unld(e.obj), tuple) and unld(e.obj)[:2] == ('ix', I_)]
        cs = [c for c in q.trace if isinstance(c, Cond) and c.t[0] == 'cmp' and c.t[1] == '==' and NO_IND in (unld(c.t[2]), unld(c.t[3]))]
        if cls == 'ReducedCochainComplex' and ps and not cs and all(plain(x.t) for x in q.trace if isinstance(x, Cond)):
            ctx.bad('R16-generators', f.loc(ps[0].line), 'top cochains are listed as generators without looking at the pivots', kk + '/top pivots')
            return True
        if len(cs) != 1 or cls != 'ReducedCochainComplex':
            return True
        o = unld(cs[0].t[2]) if unld(cs[0].t[3]) == NO_IND else unld(cs[0].t[3])
        if not (o[0] == 'ix' and o[1][:2] == ('ix', P_) and o[2] == sy):
            return True
        ctx.count("generators")
        ctx.check(bool(ps) == cs[0].pol, 'R16-generators', f.loc(), 'top cochains that %s are listed as generators' % ('are coboundary pivots' if not cs[0].pol else 'are no pivots (not)'), kk + '/top pivots')
        for e in ps:
            ctx.check(unld(e.args[0]) == sy and unld(e.obj)[2] == o[1][2], 'R16-generators', f.loc(e.line), 'entry %s is listed in %s for position %s of pivots %s' % (show(e.args[0]), show(e.obj), show(sy), show(o[1])), kk + '/top entry')
    top = sub(size_of(R_), 1)
    good = lo == 0 and (hi == field(ix(R_, top), 'm') or hi == size_of(ix(P_, top)))
    if good or definite(lo, 0):
        ctx.check(good, 'R16-generators', f.loc(), 'top generators are looked for in [%s, %s)' % (show(lo), show(hi)), kk + '/top range')
    return True


# ------------------------------------------------------------------ definitions
def obases(cls, d, k):
    """index of the differential out of dimension k / into dimension k in the tables, and of generators"""
    if cls == 'ReducedChainComplex':
        return k, add(k, 1), k
    if cls == 'ReducedCochainComplex':
        return add(k, 1), k, k
    return (k, add(k, 1), k) if d == -1 else (add(k, 1), k, add(k, 1))


def cochtop(fa, k, obj=TH):
    return fa.holds('==', sub(size_of(field(obj, 'R')), 1), k) is True


def cases(ctx, u, cls, name, keep):
    degs = CLS[cls][1]
    seen = set()
    for f in methods(u, cls, name):
        if f.line in seen:
            continue
        seen.add(f.line)
        ctx.function(f)
        e = Engine(u, vocab=lambda n, x: short(n) in keep and short(n) != name or la_mutator(n, x) or (short(n) == 'operator*' and cls_of(n) == 'ColumnMatrix') or short(n) == 'gemv')
        for p in e.run(f):
            fa = Facts([x for x in p.trace if isinstance(x, Cond)])
            d = deg(fa, TH) if None not in degs else None
            for dd in ([d] if d is not None or None in degs else list(degs)):
                yield f, p, fa, dd


def equal(ctx, f, got, wants, what, k0, extra=()):
    got = unld(got)
    if got in wants:
        ctx.count("definitions")
        ctx.check(True, 'R16-def', f.loc(), '', k0)
    elif plain(got, extra):
        ctx.bad('R16-def', f.loc(), '%s is %s, not %s' % (what, show(got), show(wants[0])), k0)
    else:
        rec(ctx, "definitions")


def isu(t):
    return isinstance(t, tuple) and t and t[0] == 'app'


def unit(t, j):
    """the unit vector e_j"""
    t = unld(t)
    if not (isu(t) and t[1].startswith('new ') and 'SparseVector' in t[1]):
        return None
    a = [unld(x) for x in t[2]]
    return a[0] == j and all(x == 1 for x in a[1:]) and len(a) <= 2


def accessors(ctx, u, cls):
    for name in ('hdim', 'betti', 'dim', 'maxdim'):
        for f, p, fa, d in cases(ctx, u, cls, name, ()):
            k0 = '%s::%s%s' % (cls, name, '' if d is None else '/degree %d' % d)
            if name == 'maxdim':
                equal(ctx, f, p.val, [sub(size_of(R_), 2 if cls == 'ReducedDGVectorSpace' else 1)], 'maxdim', k0)
                continue
            k = par(f, 0, u)
            o, i, g = obases(cls, d, k)
            if name == 'dim':
                equal(ctx, f, p.val, [field(ix(R_, o), 'n'), size_of(field(ix(R_, o), 'col')), field(ix(R_, i), 'm'), field(ix(U_, o), 'n'), field(ix(U_, o), 'm')], 'the dimension of degree k', k0)
            else:
                equal(ctx, f, p.val, [size_of(ix(I_, g))], name + '(k)', k0)
    for name in ('to_hom_basis', 'from_hom_basis'):
        for f, p, fa, d in cases(ctx, u, cls, name, {'u_solve'}):
            k0 = '%s::%s%s' % (cls, name, '' if d is None else '/degree %d' % d)
            v, k = par(f, 0, u), par(f, 1, u)
            o, i, g = obases(cls, d, k)
            r = unld(p.val)
            if cls == 'ReducedCochainComplex' and cochtop(fa, k):
                equal(ctx, f, r, [v], name + ' in the top dimension', k0 + '/top', ('u_solve', 'gemv', 'operator*'))
                continue
            if name == 'to_hom_basis':
                w = [('app', 'u_solve', (ix(U_, o), v), 0)]
            else:
                w = [('app', 'ColumnMatrix::operator*', (ix(U_, o), v), 0), ('app', 'ColumnMatrix::gemv', (ix(U_, o), v), 0)]
            if isu(r):
                r = ('app', r[1], tuple(unld(x) for x in r[2]), 0)
            if isu(r) and len(r[2]) == 2:
                ok = any(short(r[1]) == short(x[1]) and r[2] == x[2] for x in w)
                if ok or short(r[1]) in ('u_solve', 'l_solve', 'gemv', 'operator*') and all(plain(x) for x in r[2]):
                    ctx.count("definitions")
                    ctx.check(ok, 'R16-def', f.loc(), '%s in dimension k is %s, not %s' % (name, show(r), show(w[0])), k0)
                    continue
            elif plain(r):
                ctx.bad('R16-def', f.loc(), '%s in dimension k is %s, not %s' % (name, show(r), show(w[0])), k0)
                continue
            rec(ctx, "definitions")
    for f, p, fa, d in cases(ctx, u, cls, 'get_preferred_representative', ()):
        k0 = '%s::get_preferred_representative%s' % (cls, '' if d is None else '/degree %d' % d)
        j, k = par(f, 0, u), par(f, 1, u)
        o, i, g = obases(cls, d, k)
        gen = ix(ix(I_, g), j)
        r = unld(p.val)
        if cls == 'ReducedCochainComplex' and cochtop(fa, k):
            un = unit(r, gen)
            if un is not None:
                ctx.count("definitions")
                ctx.check(un, 'R16-def', f.loc(), 'the j-th top generator is %s' % show(r), k0 + '/top')
            elif plain(r):
                ctx.bad('R16-def', f.loc(), 'the j-th top generator is %s' % show(r), k0 + '/top')
            continue
        equal(ctx, f, r, [ix(field(ix(U_, o), 'col'), gen)], 'the j-th representative', k0)


def preferred(ctx, u, cls):
    for f, p, fa, d in cases(ctx, u, cls, 'find_preferred_representative', {'u_solve', 'lastnz', 'upper_bound'}):
        k0 = '%s::find_preferred_representative%s' % (cls, '' if d is None else '/degree %d' % d)
        y, k = par(f, 0, u), par(f, 1, u)
        o, i, g = obases(cls, d, k)
        ctx.count("definitions")
        loops = [it for it in p.trace if isinstance(it, Loop)]
        if not loops:
            none_in = cls != 'ReducedCochainComplex' and d != 1
            top = none_in and (fa.holds('==', o, sub(size_of(R_), 1)) is True or fa.holds('<', i, size_of(R_)) is False)
            acts = [e for e in flat(p) if isinstance(e, Ev) and e.k == 'call' and e.obj is not None and root(e.obj) == y]
            empty = any(isinstance(c, Cond) and not plain(c.t) or root_in(c.t, y) for c in p.trace if isinstance(c, Cond))
            if not acts and not empty:
                ctx.check(top, 'R16-rep', f.loc(), 'returns without removing boundaries although dimension k has boundaries (%s)' % showconds(p), k0 + '/early')
            continue
        L = loops[0]
        solved = set()
        seen = set()
        for q in L.paths:
            if q.exit not in ('n', 'c'):
                if q.exit in ('b', 'ret') and not any(isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy' for e in q.trace):
                    # leaving early: only sound when no entry is left; conditions on y itself are not judged
                    cs = [c for c in q.trace if isinstance(c, Cond)]
                    pv = [c for c in cs if c.t[0] == 'cmp' and c.t[1] == '==' and NO_IND in (unld(c.t[2]), unld(c.t[3]))]
                    if pv:
                        ctx.bad('R16-rep', f.loc(), 'stops at the first entry that is %sa pivot' % ('' if not pv[0].pol else 'not '), k0 + '/stop')
                continue
            pc = [c for c in q.trace if isinstance(c, Cond) and c.t[0] == 'cmp' and c.t[1] == '==' and NO_IND in (unld(c.t[2]), unld(c.t[3]))]
            if len(pc) != 1:
                rec(ctx, "representatives")
                continue
            t = unld(pc[0].t[2]) if unld(pc[0].t[3]) == NO_IND else unld(pc[0].t[3])
            if not (isinstance(t, tuple) and t[0] == 'ix' and isinstance(t[1], tuple) and t[1][:2] == ('ix', P_)):
                rec(ctx, "representatives")
                continue
            pi, J = t[1][2], t[2]
            if not (pi == i or definite(pi, i)):
                rec(ctx, "representatives")
                continue
            ctx.count("representatives")
            ctx.check(pi == i, 'R16-rep', f.loc(pc[0].line if hasattr(pc[0], 'line') else None), 'an entry is tested against the pivots of differential %s, not of %s' % (show(pi), show(i)), k0 + '/pivots')
            ax = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and e.obj is not None and unld(e.obj) == y and short(e.name) == 'axpy']
            others = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and e.obj is not None and unld(e.obj) == y and short(e.name) not in ('axpy', 'upper_bound', 'lower_bound')]
            if others:
                rec(ctx, "representatives")
                continue
            seen.add(pc[0].pol)
            if pc[0].pol:
                ctx.check(not ax, 'R16-rep', f.loc(ax[0].line if ax else None), 'an entry that is no pivot is changed', k0 + '/kept')
                continue
            ctx.check(len(ax) >= 1, 'R16-rep', f.loc(), 'an entry that is the pivot of a boundary is left in place', k0 + '/left')
            if len(ax) != 1 or len(ax[0].args) != 2:
                continue
            W = f.loc(ax[0].line)
            c, B = unld(ax[0].args[0]), unld(ax[0].args[1])
            if isinstance(B, tuple) and B[0] in ('lv', 'envvar', 'v', 'var') or plain(B) and not isu(B):
                ss = [e for e in q.trace[:q.trace.index(ax[0])] if isinstance(e, Ev) and e.obj is not None and unld(e.obj) == B and e.k in ('set', 'call') and not (e.k == 'call' and short(e.name) in ('nzbegin', 'nzend', 'lastnz', 'firstnz', 'begin', 'end'))]
                if ss and ss[-1].k == 'set' and ss[-1].args:
                    c, B = subst(c, B, unld(ss[-1].args[0])), unld(ss[-1].args[0])
            killer = ix(field(ix(R_, i), 'col'), t)
            good = isu(B) and short(B[1]) == 'u_solve' and [unld(x) for x in B[2]] == [ix(U_, o), killer]
            attop = cls == 'ReducedCochainComplex' and cochtop(Facts([x for x in p.trace + q.trace if isinstance(x, Cond)]), k)
            if attop:
                good = B == killer
            if not good:
                if isu(B) and short(B[1]) == 'u_solve' and all(plain(x) for x in B[2]) or plain(B) or isinstance(B, tuple) and B[:1] == ('ix',) and isinstance(B[1], tuple) and B[1][:1] == ('f',) and B[1][2] == 'col':
                    ctx.bad('R16-rep', W, 'the entry is removed with %s, not with the killing boundary in homology basis' % show(B), k0 + '/boundary')
                else:
                    rec(ctx, "representatives")
                continue
            ctx.check(True, 'R16-rep', W, '', k0 + '/boundary')
            cancel(ctx, W, c, B, y, J, k0)
        # where the walk starts and ends
        for dd, (nm, sy) in L.syms.items():
            v = L.start.get(dd)
            v = unld(v) if v is not None else None
            if isu(v) and short(v[1]) in ('upper_bound', 'lower_bound') and len(v[2]) == 2 and unld(v[2][0]) in (y, field(y, 'indval')):
                b = unld(v[2][1])
                if isinstance(b, tuple) and b[0] == 'f' and b[2] in ('m', 'n') and isinstance(b[1], tuple) and b[1][0] == 'ix' and b[1][1] == R_:
                    want = i if b[2] == 'm' else o
                    ctx.check(not definite(b[1][2], want), 'R16-rep', f.loc(), 'the walk starts at index %s, which is not the number of cells of dimension k' % show(b), k0 + '/first')
            end = ('it', field(y, 'indval'), 0)
            for q in L.exit:
                cs = [c for c in q.trace if isinstance(c, Cond)]
                if len(cs) == 1 and cs[0].t[0] == 'cmp' and cs[0].t[1] == '==' and {unld(cs[0].t[2]), unld(cs[0].t[3])} == {end, sy}:
                    ctx.check(cs[0].pol, 'R16-rep', f.loc(), 'the walk ends while entries are left', k0 + '/last')
        # direction: from the last entry down
        down = False
        for dd, (nm, sy) in L.syms.items():
            for q in L.paths:
                if q.exit in ('n', 'c'):
                    v = q.env.get(dd)
                    if v is not None and unld(v) == sub(sy, 1):
                        down = True
                    if v is not None and unld(v) == add(sy, 1) and not any(isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy' for e in q.trace):
                        ctx.bad('R16-rep', f.loc(), 'entries are visited from the first to the last: entries put back below are not reduced', k0 + '/direction')
        if not down:
            rec(ctx, "directions")
        else:
            # after a removal the walk goes on at the entry before the removed one
            for q in L.paths:
                if q.exit in ('n', 'c') and any(isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy' for e in q.trace):
                    for dd, (nm, sy) in L.syms.items():
                        v = unld(q.env.get(dd))
                        if isu(v) and short(v[1]) in ('upper_bound', 'lower_bound') and len(v[2]) == 2:
                            b = unld(v[2][1])
                            if any(isu(s) and short(s[1]) in ('nzbegin', 'firstnz') for s in subterms(b)):
                                ctx.bad('R16-rep', f.loc(), 'after a removal the walk goes on from the first entry %s of the boundary: the entries between are skipped' % show(b), k0 + '/resume')
                                continue
                            js = [s for s in subterms(b) if isinstance(s, tuple) and s and s[0] == 'f' and s[2] == 'ind']
                            if isinstance(b, tuple) and b[0] == 'ix':
                                ctx.bad('R16-rep', f.loc(), 'after a removal the walk goes on from index %s, not from the removed entry' % show(b), k0 + '/resume')
                            elif len(js) == 1 and unld(js[0][1])[:1] == ('ix',) and unld(js[0][1])[2] == 0:
                                ctx.bad('R16-rep', f.loc(), 'after a removal the walk goes on from the first entry %s of the boundary: the entries between are skipped' % show(b), k0 + '/resume')
                            elif len(js) == 1 and not (unld(js[0][1])[:1] == ('deref',)):
                                rec(ctx, "directions")
                            elif len(js) == 1:
                                o2 = sub(b, js[0])
                                if is_num(o2):
                                    # first position with index > b (>= b): nothing below the removed entry may be skipped
                                    least = (o2 + 1) if short(v[1]) == 'upper_bound' else o2
                                    ctx.check(least >= 0, 'R16-rep', f.loc(), 'after a removal the walk goes on below index j%+d: an entry is skipped' % least, k0 + '/resume')


def root_in(t, y):
    return any(s == y for s in subterms(unld(t)))


def cancel(ctx, W, c, B, y, J, k0):
    """c * (last entry of B) + (entry of y at J) == 0"""
    piv = [s for s in subterms(c) if isinstance(s, tuple) and s and s[0] == 'f' and s[2] == 'val' and isu(unld(s[1])) and short(unld(s[1])[1]) == 'lastnz']
    cur = J[1] if isinstance(J, tuple) and J[0] == 'f' and J[2] == 'ind' else None
    if cur is None:
        rec(ctx, "coefficients")
        return
    yv = field(cur, 'val')
    ctx.count("coefficients")
    lastB = None
    for s in piv:
        a = [unld(x) for x in unld(s[1])[2]]
        if a and a[0] == B:
            lastB = s
    if lastB is None:
        if plain(c, ('lastnz', 'u_solve')):
            ctx.bad('R16-rep', W, 'the multiple %s does not divide by the pivot of the boundary' % show(c), k0 + '/coefficient')
        return
    want = neg(mul(yv, inv(lastB)))
    ctx.check(unld(c) == unld(want), 'R16-rep', W, 'the multiple is %s, the entry cancels with %s' % (show(c), show(want)), k0 + '/coefficient')


def composed(ctx, u, cls):
    """chain_preferred_representative = from(find(to))"""
    for f, p, fa, d in cases(ctx, u, cls, 'chain_preferred_representative', {'to_hom_basis', 'from_hom_basis', 'find_preferred_representative'}):
        k0 = cls + '::chain_preferred_representative'
        c, k = par(f, 0, u), par(f, 1, u)
        val, stage, bad = None, 0, None
        for e in p.trace:
            if not isinstance(e, Ev):
                continue
            if e.k == 'set' and e.args:
                v = unld(e.args[0])
                if isu(v) and short(v[1]) == 'to_hom_basis':
                    a = [unld(x) for x in v[2]]
                    if a == [TH, c, k]:
                        val, stage = unld(e.obj), 1
                    elif len(a) == 3 and all(plain(x) for x in a):
                        bad = 'to_hom_basis(%s)' % ', '.join(map(show, a[1:]))
                elif isu(v) and short(v[1]) == 'from_hom_basis' and stage != 2:
                    val, stage = unld(e.obj), -1
            elif e.k == 'call' and short(e.name) == 'find_preferred_representative' and unld(e.args[0]) in (val, c) and stage in (0, -1):
                bad = 'reducing a chain that is not in homology basis'
            elif e.k == 'call' and short(e.name) == 'find_preferred_representative' and stage == 1 and unld(e.args[0]) == val:
                if unld(e.args[1]) == k:
                    stage = 2
                else:
                    bad = 'find_preferred_representative in dimension %s' % show(e.args[1])
        r = unld(p.val)
        if bad:
            ctx.bad('R16-def', f.loc(), 'the representative is computed by %s' % bad, k0)
            continue
        if isu(r) and short(r[1]) == 'from_hom_basis' and len(r[2]) == 3:
            a = [unld(x) for x in r[2]]
            if val is None:
                rec(ctx, "definitions")
                continue
            ctx.count("definitions")
            ctx.check(stage == 2 and a[0] == TH and a[2] == k and (a[1] == val or not plain(a[1])), 'R16-def', f.loc(), 'the representative is %s without reducing the chain in homology basis' % show(r), k0)
        elif stage and r == val:
            ctx.bad('R16-def', f.loc(), 'the representative is returned in homology basis', k0)
        else:
            rec(ctx, "definitions")


# ------------------------------------------------------------------ induced maps
def induced(ctx, u):
    keep = {'u_solve', 'find_preferred_representative', 'operator*', 'gemv'}
    seen = set()
    for f in u.funcs:
        if f.dep or f.d.get('b') is None or short(f.name) != 'induced_map' or len(f.d['ps']) != 4:
            continue
        ty = [u.type(p['t']) for p in f.d['ps']]
        cls = [c for c in CLS if c + '<' in ty[1]]
        if not cls or (f.line in seen):
            continue
        seen.add(f.line)
        cls = cls[0]
        ctx.function(f)
        ctx.count("induced maps")
        F, C, D, k = (par(f, i, u) for i in range(4))
        Fk = ix(field(F, 'map'), k)
        S, T = (C, D) if cls != 'ReducedCochainComplex' else (D, C)          # source / target of the map on classes
        e = Engine(u, vocab=lambda n, x: (short(n) in keep and cls_of(n) in ('', 'bats', 'ColumnMatrix') + tuple(CLS)) or (short(n) == 'operator[]' and cls_of(n) == 'SparseVector') or la_mutator(n, x), maxpaths=20000)
        for p in e.run(f):
            fa = Facts([x for x in p.trace if isinstance(x, Cond)])
            k0 = 'induced_map(%s)' % cls
            if cls == 'ReducedDGVectorSpace':
                dC, dD = deg(fa, C), deg(fa, D)
                if dC is not None and dD is not None and dC != dD:
                    if p.exit != 'throw' and fa.holds('==', field(C, 'degree'), field(D, 'degree')) is None:
                        ctx.bad('R16-shape', f.loc(), 'complexes of different degree are accepted', k0 + '/degrees')
                    continue                       # the equality test on the path excludes this
                d = dC if dC is not None else dD
                if d is None:
                    continue
                k0 += '/degree %d' % d
            else:
                d = None
            o, i, g = obases(cls, d, k)
            if p.exit == 'throw':
                continue
            if d is not None:
                dcs = [c for c in p.trace if isinstance(c, Cond) and any(s == field(D, 'degree') for s in subterms(unld(c.t)))]
                ok = fa.holds('==', field(C, 'degree'), field(D, 'degree')) is True or dD is not None and deg(fa, C) == dD
                if ok or all(plain(c.t) for c in dcs):
                    ctx.check(ok, 'R16-shape', f.loc(), 'the degrees of source and target are not compared', k0 + '/degrees')
            # shape conditions
            for a, b, what in ((field(Fk, 'n'), S if cls != 'ReducedCochainComplex' else T, 'columns'), (field(Fk, 'm'), T if cls != 'ReducedCochainComplex' else S, 'rows')):
                dims = [field(ix(field(b, 'U'), o), z) for z in ('m', 'n')] + [field(ix(field(b, 'R'), o), 'n'), field(ix(field(b, 'R'), i), 'm')]
                ok = any(fa.holds('==', a, x) is True for x in dims)
                rel_ = [c for c in p.trace if isinstance(c, Cond) and any(s == a for s in subterms(unld(c.t)))]
                if ok or not rel_ or all(plain(c.t) for c in rel_):
                    ctx.check(ok, 'R16-shape', f.loc(), 'the number of %s of the map is not compared with the dimension of the %s' % (what, 'source' if what == 'columns' else 'target'), k0 + '/' + what)
            r = unld(p.val)
            if not (isu(r) and 'ColumnMatrix' in r[1] and len(r[2]) == 3):
                rec(ctx, "induced maps")
                continue
            m, n, col = (unld(x) for x in r[2])
            gs, gt = size_of(ix(field(S, 'I'), g)), size_of(ix(field(T, 'I'), g))
            # the result has one row per target generator; the target is where F_* maps to
            alts = {cls: (gt, gs)}
            if plain(m) and plain(n):
                ctx.check((m, n) == (gt, gs), 'R16-induced', f.loc(), 'the induced map is declared %s x %s, not (generators of the target) x (generators of the source)' % (show(m), show(n)), k0 + '/shape')
            column(ctx, f, p, col, Fk, S, T, k, o, g, k0, cls)


def genloop(L, G):
    """index term of the generator visited when the loop visits all of G in order"""
    t = iterates(L, G)
    return t


def column(ctx, f, p, col, Fk, S, T, k, o, g, k0, cls):
    G = ix(field(S, 'I'), g)
    loops = [it for it in p.trace if isinstance(it, Loop) and any(isinstance(e, Ev) and e.k == 'call' and e.obj is not None and unld(e.obj) == col for q in it.paths for e in flat(q))]
    if len(loops) != 1:
        rec(ctx, "induced columns")
        return
    L = loops[0]
    tr = trip(L)
    sy = iterates(L, G)
    if sy is None:
        # another table, or not all of it?
        if L.kind == 'rfor' and plain(L.rng) and unld(L.rng) != G:
            ctx.bad('R16-induced', f.loc(), 'columns are computed for %s, not for the generators of the source' % show(L.rng), k0 + '/generators')
            return
        if tr is not None and abs(tr[3]) == 1:
            lo, hi = unld(tr[1]), unld(tr[2])
            if lo == 0 and hi == size_of(G):
                sy = tr[0]
            elif plain(lo) and plain(hi):
                ctx.bad('R16-induced', f.loc(), 'columns are computed for positions [%s, %s), not for all generators %s of the source' % (show(lo), show(hi), show(G)), k0 + '/generators')
                return
        if sy is None:
            rec(ctx, "induced columns")
            return
    vis = ix(G, sy)
    for q in L.paths:
        if q.exit not in ('n', 'c'):
            continue
        vals, found, pushed = {}, {}, []
        for e in q.trace:
            if not isinstance(e, Ev):
                continue
            if e.k == 'set' and e.args and e.obj is not None:
                vals[unld(e.obj)] = unld(e.args[0])
                found.pop(unld(e.obj), None)
            elif e.k == 'call' and short(e.name) == 'find_preferred_representative':
                found[unld(e.args[0])] = (unld(e.obj), unld(e.args[1]), e.line)
            elif e.k == 'call' and e.obj is not None and unld(e.obj) == col and short(e.name) in ('emplace_back', 'push_back'):
                pushed.append(e)
            elif e.k == 'call' and e.obj is not None and unld(e.obj) in vals:
                vals[unld(e.obj)] = None
        if len(pushed) != 1:
            if not pushed:
                ctx.bad('R16-induced', f.loc(), 'no column is added for some generator (%s)' % showconds(q), k0 + '/column')
            else:
                rec(ctx, "induced columns")
            continue
        W = f.loc(pushed[0].line)
        c = unld(pushed[0].args[0])
        GT = ix(field(T, 'I'), g)
        if isu(c) and short(c[1]) == 'operator[]' and len(c[2]) == 2:
            y, sel = (unld(x) for x in c[2])
            if sel == GT or plain(sel):
                ctx.check(sel == GT, 'R16-induced', W, 'the column is restricted to %s, not to the generators of the target' % show(sel), k0 + '/restrict')
        elif c in vals or isu(c) and short(c[1]) == 'u_solve':
            ctx.bad('R16-induced', W, 'the column is not restricted to the generators of the target', k0 + '/restrict')
            continue
        else:
            rec(ctx, "induced columns")
            continue
        v = vals.get(y, y)
        if v is None:
            rec(ctx, "induced columns")
            continue
        ctx.count("induced columns")
        if y in found:
            ob, kk, ln = found[y]
            ctx.check(ob == T and kk == k, 'R16-induced', f.loc(ln), 'boundaries are removed in %s, dimension %s, not in the target in dimension k' % (show(ob), show(kk)), k0 + '/reduce')
        else:
            ctx.bad('R16-induced', W, 'the image is not reduced to its preferred representative', k0 + '/reduce')
        image(ctx, W, v, Fk, S, T, vis, k, o, k0, cls, q, p)


def image(ctx, W, v, Fk, S, T, vis, k, o, k0, cls, q, p):
    """v == U_T^{-1} F (U_S e_gen)"""
    rep = ix(field(ix(field(S, 'U'), o), 'col'), vis)
    fa = Facts([x for x in p.trace + q.trace if isinstance(x, Cond)])
    topS = cls == 'ReducedCochainComplex' and cochtop(fa, k, S)
    topT = cls == 'ReducedCochainComplex' and cochtop(fa, k, T)
    inner = v
    if not topT:
        if not (isu(v) and short(v[1]) == 'u_solve' and len(v[2]) == 2):
            if isu(v) and short(v[1]) in ('operator*', 'gemv'):
                ctx.bad('R16-induced', W, 'the image %s is not put into the homology basis of the target' % show(v), k0 + '/basis')
            else:
                rec(ctx, "images")
            return
        B, inner = (unld(x) for x in v[2])
        wantB = ix(field(T, 'U'), o)
        if B == wantB or plain(B):
            ctx.check(B == wantB, 'R16-induced', W, 'the image is put into the basis %s, not into that of the target' % show(B), k0 + '/basis')
    if not (isu(inner) and short(inner[1]) in ('operator*', 'gemv') and len(inner[2]) == 2):
        if plain(inner):
            ctx.bad('R16-induced', W, 'the generator %s is not mapped' % show(inner), k0 + '/image')
        else:
            rec(ctx, "images")
        return
    a, b = (unld(x) for x in inner[2])
    x, y = (a, b) if cls != 'ReducedCochainComplex' else (b, a)
    ctx.count("images")
    if x == Fk or plain(x):
        ctx.check(x == Fk, 'R16-induced', W, 'the generator is multiplied by %s%s' % (show(x), '' if cls != 'ReducedCochainComplex' else ' (the dual map multiplies from the left)'), k0 + '/image')
    if topS:
        un = unit(y, vis)
        if un is not None:
            ctx.check(un, 'R16-induced', W, 'the map is applied to %s, not to the visited generator' % show(y), k0 + '/generator')
    elif y == rep or plain(y):
        ctx.check(y == rep, 'R16-induced', W, 'the map is applied to %s, not to the representative %s of the visited generator' % (show(y), show(rep)), k0 + '/generator')


# ------------------------------------------------------------------ the rest
def after_updates(ctx, u, cls):
    """permutations and general updates determine the generators anew"""
    for name in ('permute_basis', 'update_basis_general', 'update_basis', 'update_basis_general_clearing'):
        seen = set()
        for f in methods(u, cls, name):
            if f.line in seen or (f.d['ps'] and 'unsigned long' == u.type(f.d['ps'][0]['t']).replace('const ', '')):
                continue
            seen.add(f.line)
            last = laststmt(u, f)
            if last is None:
                rec(ctx, "updates")
                continue
            ctx.function(f)
            ctx.count("updates")
            ctx.check(last, 'R16-indices', f.loc(), '%s::%s returns without determining the generators after the last reduction' % (cls, name), '%s::%s/%d/indices' % (cls, name, len(f.d['ps'])))


def laststmt(u, f):
    e = Engine(u, vocab=lambda n, x: not n.startswith('std::') and not short(n) in ('maxdim',), maxpaths=20000)
    ok = None
    for p in e.run(f):
        if p.exit == 'throw':
            continue
        s = r = -1
        for n, it in enumerate(p.trace):
            evs = [x for q in it.paths for x in flat(q)] if isinstance(it, Loop) else [it] if isinstance(it, Ev) else []
            for x in evs:
                if not isinstance(x, Ev):
                    continue
                if short(x.name) == 'set_indices':
                    s = n
                elif x.k == 'call' and short(x.name) in RED | {'update_reduction', 'update_reduction2', 'permute_matrices', 'make_upper_triangular'} or x.k == 'set' and x.obj is not None and isinstance(unld(x.obj), tuple) and unld(x.obj)[:2] in (('ix', R_), ('ix', P_)):
                    r = n
        if r >= 0:
            if s < r and unknown_tail(p.trace[r + 1:]):
                continue
            ok = (s > r) if ok is None else ok and s > r
    return ok


def unknown_tail(items):
    """a call on this object after the last reduction that may determine the generators"""
    return any(isinstance(x, Ev) and x.k == 'call' and x.obj is not None and unld(x.obj) == TH and short(x.name) not in RED for it in items for x in ([y for q in it.paths for y in flat(q)] if isinstance(it, Loop) else [it]))


def filtered(ctx, u):
    for cls, base in (('ReducedFilteredChainComplex', 'ReducedChainComplex'), ('ReducedFilteredDGVectorSpace', 'ReducedDGVectorSpace')):
        seen = set()
        for f in u.funcs:
            if f.dep or f.d.get('b') is None or f.d.get('imp') or f.d.get('dfd') or short(f.name) != cls or cls_of(f.name) != cls or not f.d['ps']:
                continue
            if cls in u.type(f.d['ps'][0]['t']):
                continue
            C = par(f, 0, u)
            e = Engine(u, vocab=lambda n, x: base in n or la_mutator(n, x))
            for p in e.run(f):
                got = {}
                for x in p.trace:
                    if isinstance(x, Ev) and x.k == 'set' and x.obj is not None and x.args:
                        got[unld(x.obj)] = (unld(x.args[0]), x.line)
                ctx.function(f)
                ctx.count("definitions")
                for m in ('val', 'perm'):
                    v = got.get(field(TH, m))
                    if v is None:
                        continue
                    if plain(v[0]) or isu(v[0]) and v[0][1].startswith('new ') and not v[0][2]:
                        ctx.check(v[0] == field(C, m), 'R16-filtered', f.loc(v[1]), '%s: %s is taken from %s, not from %s of the filtered complex' % (cls, m, show(v[0]), m), '%s/%s' % (cls, m))
                v = got.get(field(TH, 'RC'))
                if v is not None and isu(v[0]) and v[0][1].startswith('new '):
                    a = [unld(x) for x in v[0][2]]
                    ctx.check(bool(a) and a[0] == field(C, 'C'), 'R16-filtered', f.loc(v[1]), '%s reduces %s, not the filtered complex' % (cls, show(a[0]) if a else 'nothing'), cls + '/RC')
        for name in ('hdim', 'dim', 'maxdim', 'betti'):
            for f in list(methods(u, cls, name))[:1]:
                e = Engine(u, vocab=lambda n, x: base in n)
                for p in e.run(f):
                    r = unld(p.val)
                    if isu(r) and base in r[1]:
                        a = [unld(x) for x in r[2]]
                        want = [field(TH, 'RC')] + [par(f, i, u) for i in range(len(f.d['ps']))]
                        ctx.count("definitions")
                        same_ = {name, 'betti'} if name == 'hdim' else {name, 'hdim'} if name == 'betti' else {name}
                        ctx.check(short(r[1]) in same_ and a == want, 'R16-filtered', f.loc(), '%s::%s is %s' % (cls, name, show(r)), '%s::%s' % (cls, name))


def kron(ctx, u):
    for f in list(x for x in u.funcs if not x.dep and x.d.get('b') is not None and short(x.name) == 'kron_homology')[:1]:
        ctx.function(f)
        dx, X, dy, Y, Z = (par(f, i, u) for i in range(5))
        e = Engine(u, vocab=lambda n, x: short(n) in ('kron', 'shift_inds', 'kron_chain_shift', 'u_solve', 'find_preferred_representative', 'tensor') or (short(n) == 'operator[]' and cls_of(n) == 'SparseVector') or la_mutator(n, x))
        k = add(dx, dy)
        k0 = 'kron_homology'
        for p in e.run(f):
            outer = [it for it in p.trace if isinstance(it, Loop)]
            if len(outer) != 1 or len([1 for q in outer[0].paths for it in q.trace if isinstance(it, Loop)]) != 1:
                rec(ctx, "products")
                continue
            L1 = outer[0]
            L2, q1 = [(it, q) for q in L1.paths for it in q.trace if isinstance(it, Loop)][0]
            s1, s2 = iterates(L1, ix(field(X, 'I'), dx)), iterates(L2, ix(field(Y, 'I'), dy))
            if s1 is None or s2 is None:
                rec(ctx, "products")
                continue
            rx = ix(field(ix(field(X, 'U'), dx), 'col'), ix(ix(field(X, 'I'), dx), s1))
            ry = ix(field(ix(field(Y, 'U'), dy), 'col'), ix(ix(field(Y, 'I'), dy), s2))
            for q in L2.paths:
                if q.exit not in ('n', 'c'):
                    continue
                stage, y = 0, None
                raw = raww = None
                W = f.loc()
                for ev in q.trace:
                    if not isinstance(ev, Ev):
                        continue
                    if ev.k == 'set' and ev.args:
                        v = unld(ev.args[0])
                        inner = v
                        if isu(v) and short(v[1]) == 'u_solve':
                            B, inner = (unld(x) for x in v[2])
                            if inner == y and stage == 1 or isu(inner) and short(inner[1]) == 'shift_inds':
                                ctx.check(B == ix(field(Z, 'U'), k), 'R16-induced', f.loc(ev.line), 'the product is put into the basis %s, not into that of the product complex' % show(B), k0 + '/basis')
                                if inner == y:
                                    y, stage = unld(ev.obj), 2
                                    continue
                        if isu(inner) and short(inner[1]) in ('kron', 'tensor'):
                            raw, raww = unld(ev.obj), inner
                            if inner is v:
                                y, stage = raw, -1
                            continue
                        if inner is not v and inner == y and stage == -1:
                            ctx.bad('R16-induced', f.loc(ev.line), 'the product is not moved to its block of the product complex', k0 + '/block')
                            y, stage = unld(ev.obj), 2
                            continue
                        if isu(inner) and short(inner[1]) == 'shift_inds':
                            inner = ('app', inner[1], (raww,) + tuple(inner[2][1:])) if raw is not None and unld(inner[2][0]) == raw else inner
                            a = [unld(x) for x in inner[2]]
                            if isu(a[0]) and short(a[0][1]) in ('kron', 'tensor'):
                                b = [unld(x) for x in a[0][2]]
                                ctx.count("products")
                                if len(b) == 3 and plain(b[0]) and plain(b[1]):
                                    ctx.check(b[0] == rx and b[1] == ry, 'R16-induced', f.loc(ev.line), 'the product is formed from %s and %s, not from the visited representatives' % (show(b[0]), show(b[1])), k0 + '/factors')
                                    dims = [field(ix(field(Y, 'R'), dy), 'n'), size_of(field(ix(field(Y, 'R'), dy), 'col'))]
                                    if plain(b[2]):
                                        ctx.check(b[2] in dims, 'R16-induced', f.loc(ev.line), 'the stride of the product is %s, not the dimension of the second factor' % show(b[2]), k0 + '/stride')
                                y, stage = unld(ev.obj), (2 if inner is not v else 1)
                    elif ev.k == 'call' and short(ev.name) == 'find_preferred_representative' and y is not None and unld(ev.args[0]) == y:
                        ctx.check(stage == 2, 'R16-induced', f.loc(ev.line), 'the product chain is reduced without being in homology basis', k0 + '/basis')
                        ctx.check(unld(ev.obj) == Z and unld(ev.args[1]) == k, 'R16-induced', f.loc(ev.line), 'the product is reduced in %s, dimension %s' % (show(ev.obj), show(ev.args[1])), k0 + '/reduce')
                        stage = 3
                    elif ev.k == 'call' and short(ev.name) in ('emplace_back', 'push_back') and y is not None:
                        c = unld(ev.args[0])
                        if isu(c) and short(c[1]) == 'operator[]':
                            a = [unld(x) for x in c[2]]
                            ctx.check(a[1] == ix(field(Z, 'I'), k), 'R16-induced', f.loc(ev.line), 'the column is restricted to %s' % show(a[1]), k0 + '/restrict')
                            ctx.check(stage == 3, 'R16-induced', f.loc(ev.line), 'the product is not reduced to its preferred representative', k0 + '/reduce')


def run(ctx):
    core, topo, alg = prog.load(['core', 'topo', 'algebra'])
    for cls in CLS:
        n0 = ctx.counts.get('constructors', 0)
        ctors(ctx, core, cls)
        ctx.need(ctx.counts.get('constructors', 0) > n0, 'anchor vanished: constructors of ' + cls)
        if cls == 'ReducedChainComplex':
            initial(ctx, core, cls)
        indices(ctx, core, cls)
        accessors(ctx, core, cls)
        preferred(ctx, core, cls)
        composed(ctx, core, cls)
        after_updates(ctx, core, cls)
    filtered(ctx, core)
    induced(ctx, topo)
    induced(ctx, alg)
    kron(ctx, topo)
