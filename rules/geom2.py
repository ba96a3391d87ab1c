"""R10 continued: neighborhoods, covers, nerves, copies of data, landmarks"""
from rules import r10 as G
from rules.r10 import *
from rules.r09 import lessby


def sized(t):
    return all(isinstance(x, tuple) and x and x[0] in ('rows', 'cols', 'size') and isinstance(x[1], tuple) and x[1][0] in ('v', 'this') for m in poly(t) for x in m)


def full(rs, sy, ns):
    """does the loop of the counter run over 0..n-1: True / False (provably another range) / None"""
    r = [x for x in rs if x[1] is not None and x[1] == sy]
    if not r:
        return None
    lo, hi = r[0][2], r[0][3]
    if lo == 0 and hi in ns:
        return True
    known = set(ns)
    if all(all(x in known or sized(x) for x in m) for t in (lo, hi) for m in poly(t)):
        return False
    return None


def stops(ctxl):
    """some loop around is left early"""
    return any(q.exit not in ('n', 'c') for L in ctxl for q in L.paths)


def ranged(ctx, f, k0, rs, ctxl, needed, line, unk):
    """every (symbol, sizes) runs over its whole range; False when something is unknown"""
    for sy, ns in needed:
        r = full(rs, sy, ns)
        if r is None:
            ctx.count(unk)
            return False
        x = [y for y in rs if y[1] == sy][0]
        ctx.check(r, 'range', f.loc(line), '%s looks at %s..%s only' % (k0, show(x[2]), show(sub(x[3], 1))), k0 + ':range')
    for L in ctxl:
        for q in L.paths:
            if q.exit == 'b' or q.exit == 'ret':
                ctx.count(unk)
                return False
    return True


def mentions(q, ts):
    return any(isinstance(c, Cond) and any(s in ts for s in subterms(geo(c.t))) for c in q.trace)


def inserts(q):
    """[(container, value, line)] in normal form"""
    out = []
    for e in q.trace:
        if isinstance(e, Ev) and e.k == 'call' and e.obj is not None and short(e.name) in ('push_back', 'emplace_back', 'emplace', 'insert', 'emplace_hint') and e.args:
            out.append((geo(e.obj), geo(e.args[-1]), e.line))
    return out


def iff(ctx, f, k0, q, hit, c, about, line, what):
    """the event happens exactly under the condition"""
    if c is None:
        if hit and not mentions(q, about):
            ctx.bad('member', f.loc(line), '%s takes every index, whatever %s' % (k0, what), k0 + ':member')
        else:
            ctx.count("covers not recognised")
        return
    if hit:
        ctx.check(c, 'member', f.loc(line), '%s takes an index although not %s' % (k0, what), k0 + ':member')
    else:
        ctx.check(not c, 'member', f.loc(line), '%s leaves out an index although %s' % (k0, what), k0 + ':member')


def leaves_(paths):
    """innermost iterations: [(path, loops around)]"""
    for q, cl in all_paths(paths):
        if cl and not any(isinstance(it, Loop) for it in q.trace):
            yield q, cl


def neighborhoods(ctx, u):
    UN = "covers not recognised"
    for f in once(ctx, inst(u, NS + 'neighborhood', lambda f: kinds(f, u) == 'pDxr')):
        ctx.function(f)
        ctx.count("covers")
        x, D, R = geo(par(f, 0, u)), geo(par(f, 1, u)), par(f, 3, u)
        for q, cl in leaves_(geng(u, f).run(f)):
            rs = ranges(cl)
            if len(cl) != 1 or rs[0][1] is None:
                ctx.count(UN)
                continue
            sy = rs[0][1]
            if not ranged(ctx, f, 'neighborhood', rs, cl, [(sy, [('rows', D)])], cl[0].line, UN):
                continue
            d = sym2(('d', x, ('pt', D, sy)))
            fa = sfacts(q)
            c = fa.holds('<', d, R)
            ins = inserts(q)
            if c is None and fa.holds('<', R, d) is not None:
                # decided by r < d: points at distance r are taken
                ctx.check(not ins and fa.holds('<', R, d) is True, 'member', f.loc(), 'neighborhood takes the points at distance r', 'neighborhood:member')
                continue
            for _, v, l in ins:
                ctx.check(v == sy or not simple(v, {sy}), 'member', f.loc(l), 'neighborhood records %s for point %s' % (show(v), show(sy)), 'neighborhood:member')
            if c is None and ins:
                o = {s for cd in q.trace if isinstance(cd, Cond) for s in subterms(geo(cd.t)) if isinstance(s, tuple) and s and s[0] == 'd'}
                if o and all(sym2(s) != d for s in o) and all(isinstance(z, tuple) and z[0] in ('pt', 'v') for s in o for z in s[1:]):
                    ctx.bad('member', f.loc(), 'neighborhood compares %s' % show(next(iter(o))), 'neighborhood:member')
                    continue
            iff(ctx, f, 'neighborhood', q, bool(ins), c, {d, R}, cl[0].line, 'the distance is < r')
    for f in once(ctx, inst(u, NS + 'neighborhood', lambda f: kinds(f, u) == 'pDxz')):
        ctx.function(f)
        ctx.count("covers")
        ps = [par(f, i, u) for i in range(4)]
        T = ('dtab', geo(ps[0]), geo(ps[1]))
        for p in geng(u, f).run(f):
            v = geo(p.val)
            if p.exit == 'ret' and isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == 'firstk' and len(v[2]) == 3:
                t = [resolved(z, ivals(p.trace)) for z in v[2]]
                ctx.check(t[0] == ('it', T, 0) and isinstance(t[1], tuple) and t[1][0] == 'it' and t[1][1] == T and isinstance(t[1][2], tuple) and t[1][2][0] == 'size', 'member', f.loc(), 'the nearest neighbors are taken among %s..%s' % (show(t[0]), show(t[1])), 'nearest')
                ctx.check(t[2] == geo(ps[3]), 'member', f.loc(), 'the %s nearest neighbors are taken' % show(t[2]), 'nearest')
            else:
                ctx.count(UN)
    for f in once(ctx, inst(u, NS + 'neighborhoods', lambda f: kinds(f, u) in ('DDxr', 'DDxz'))):
        ctx.function(f)
        ctx.count("covers")
        ps = [geo(par(f, i, u)) for i in range(4)]
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            T = geo(p.val)
            a = made(p, unld(p.val))
            if a and a[0] in (('rows', ps[1]), ('cols', ps[0]), ('cols', ps[1])):
                ctx.bad('range', f.loc(), 'neighborhoods holds %s lists' % show(a[0]), 'neighborhoods')
            for row, _, val, rs, q, line in tablewrites([p], T):
                if not any(r[1] == row for r in rs) or not (isinstance(val, tuple) and val[0] == 'app' and short(val[1]) == 'neighborhood' and len(val[2]) == 4):
                    ctx.count(UN)
                    continue
                if ranged(ctx, f, 'neighborhoods', rs, [r[0] for r in rs], [(row, [('rows', ps[0])])], line, UN):
                    w = (('pt', ps[0], row), ps[1], ps[2], ps[3])
                    ctx.check(val[2] == w, 'member', f.loc(line), 'the neighborhood of point %s is %s' % (show(row), show(val)), 'neighborhoods')
    for f in once(ctx, inst(u, NS + 'neighborhoods', lambda f: kinds(f, u) == 'Mr')):
        ctx.function(f)
        ctx.count("covers")
        M, R = geo(par(f, 0, u)), par(f, 1, u)
        for q, cl in leaves_(geng(u, f).run(f)):
            rs = ranges(cl)
            fa = gfacts(q.trace)
            es = {s for c in q.trace if isinstance(c, Cond) for s in subterms(geo(c.t)) if isinstance(s, tuple) and s and s[0] == 'ent' and s[1] == M}
            if len(cl) != 2 or len(es) != 1:
                ctx.count(UN)
                continue
            e = next(iter(es))
            if not ranged(ctx, f, 'neighborhoods', rs, cl, [(e[2], [('rows', M)]), (e[3], [('cols', M)])], cl[-1].line, UN):
                continue
            c = fa.holds('<', R, e)
            c = None if c is None else not c
            ins = inserts(q)
            for C, v, l in ins:
                if isinstance(C, tuple) and C[0] == 'ix' and len(C) > 2:
                    ctx.check((C[2], v) == (e[2], e[3]), 'member', f.loc(l), 'neighborhoods puts %s into list %s by the distance (%s, %s)' % (show(v), show(C[2]), show(e[2]), show(e[3])), 'pdnbrs')
            if c is None and ins and fa.holds('<', e, R) is True:
                ctx.check(True, 'member', f.loc(), '', 'pdnbrs')
                continue
            if c is None and fa.holds('<', e, R) is False and not ins:
                ctx.bad('member', f.loc(cl[-1].line), 'neighborhoods leaves out the points at distance eps', 'pdnbrs')
                continue
            iff(ctx, f, 'pdnbrs', q, bool(ins), c, {e, R}, cl[-1].line, 'the distance is <= eps')
    for f in once(ctx, inst(u, NS + 'util::firstk', lambda f: True)):
        ctx.function(f)
        ctx.count("covers")
        b, e, k = [par(f, i, u) for i in range(3)]
        for p in geng(u, f, keep=('partial_sort', 'nth_element')).run(f):
            if p.exit != 'ret':
                continue
            v = unld(p.val)
            ps = [x for x in p.trace if isinstance(x, Ev) and short(x.name) in ('partial_sort', 'sort', 'stable_sort') and x.args]
            io = [x for x in p.trace if isinstance(x, Ev) and short(x.name) == 'iota' and x.args]
            rz = [x for x in p.trace if isinstance(x, Ev) and short(x.name) == 'resize' and unld(x.obj) == v]
            if len(ps) != 1 or len(io) != 1 or len(rz) != 1:
                ctx.count(UN)
                continue
            ctx.check(geo(io[0].args[-1]) == 0, 'member', f.loc(io[0].line), 'the indices start at %s' % show(io[0].args[-1]), 'firstk')
            ctx.check(geo(rz[0].args[0]) == geo(k), 'member', f.loc(rz[0].line), 'firstk returns %s indices' % show(rz[0].args[0]), 'firstk')
            if short(ps[0].name) == 'partial_sort':
                ctx.check(geo(ps[0].args[1]) == ('it', v, geo(k)), 'member', f.loc(ps[0].line), 'firstk orders the indices up to %s' % show(geo(ps[0].args[1])), 'firstk')
            r = lessby(u, ps[0].args[-1])
            if r is None:
                ctx.count(UN)
            else:
                ctx.check(r == 1, 'member', f.loc(ps[0].line), 'firstk takes the largest values', 'firstk')


def sfacts(q):
    """facts with the points of every distance in one order"""
    fa = Facts([])
    for it in q.trace:
        if isinstance(it, Cond):
            fa.st.facts[dsort(geo(it.t))] = it.pol
    return fa


def dsort(t):
    if isinstance(t, tuple) and t and t[0] == 'd':
        return sym2(t)
    if isinstance(t, tuple) and t and t[0] not in ('sym', 'v', 'this', 'str', 'float', 'poly'):
        return tuple(dsort(x) if isinstance(x, tuple) else x for x in t)
    return t


def covers(ctx, u):
    UN = "covers not recognised"
    for f in once(ctx, inst(u, NS + 'landmark_cover', lambda f: kinds(f, u) == 'DDxz')):
        ctx.function(f)
        ctx.count("covers")
        ps = [geo(par(f, i, u)) for i in range(4)]
        N = ('app', NS + 'neighborhoods', tuple(ps), 0)
        paths = geng(u, f).run(f)
        for p in paths:
            for e in p.trace:
                if isinstance(e, Ev) and short(e.name) in ('neighborhoods',) and e.args:
                    ctx.check(tuple(geo(x) for x in e.args) == tuple(ps), 'member', f.loc(e.line), 'a landmark cover uses neighborhoods(%s)' % ', '.join(show(geo(x)) for x in e.args), 'landmark_cover')
        for q, cl in leaves_(paths):
            rs = ranges(cl)
            ins = inserts(q)
            if len(cl) != 2 or any(r[1] is None for r in rs):
                ctx.count(UN)
                continue
            i, v = rs[0][1], rs[1][1]
            if not ranged(ctx, f, 'landmark_cover', rs, cl, [(i, [('size', N, 0), ('rows', ps[0])]), (v, [('size', ('ix', N, i), 0)])], cl[-1].line, UN):
                continue
            if not ins:
                if any(isinstance(c, Cond) and c.t != ('cmp', '<', i, rs[0][3]) for c in q.trace):
                    ctx.count(UN)
                else:
                    ctx.bad('member', f.loc(cl[-1].line), 'a landmark cover leaves out points', 'landmark_cover')
            for C, x, l in ins:
                w = ('ix', ('ix', N, i), v)
                if isinstance(C, tuple) and C[0] == 'ix':
                    ctx.check((C[2], x) == (w, i), 'member', f.loc(l), 'a landmark cover puts %s into set %s' % (show(x), show(C[2])), 'landmark_cover')
    for f in once(ctx, inst(u, NS + 'landmark_eps_cover', lambda f: kinds(f, u) == 'DDxr')):
        ctx.function(f)
        ctx.count("covers")
        X0, L0, _, eps = [geo(par(f, i, u)) for i in range(4)]
        for q, cl in leaves_(geng(u, f).run(f)):
            rs = ranges(cl)
            if len(cl) != 2 or any(r[1] is None for r in rs):
                ctx.count(UN)
                continue
            i, j = rs[0][1], rs[1][1]
            T = ('d', ('pt', X0, i), L0)
            if not ranged(ctx, f, 'landmark_eps_cover', rs, cl, [(i, [('rows', X0)]), (j, [('rows', L0), ('size', T, 0)])], cl[-1].line, UN):
                continue
            best = None
            for c in q.trace:
                if isinstance(c, Cond):
                    for s in subterms(geo(c.t)):
                        if isinstance(s, tuple) and s and s[0] == 'deref' and isinstance(s[1], tuple) and s[1][0] == 'app':
                            best = s
            c = None
            if best is not None:
                a = best[1]
                if short(a[1]) in ('min_element', 'max_element') and len(a[2]) == 2:
                    ctx.check(short(a[1]) == 'min_element' and a[2][0] == ('it', T, 0) and isinstance(a[2][1], tuple) and a[2][1][:2] == ('it', T) and isinstance(a[2][1][2], tuple) and a[2][1][2][0] == 'size', 'member', f.loc(), 'the closest landmark is %s' % show(a)[:120], 'landmark_eps_cover')
                fa = gfacts(q.trace)
                c = fa.holds('<', ('ix', T, j), add(best, eps))
                if c is None:
                    c = fa.holds('<', sub(('ix', T, j), best), eps)
                if c is None and fa.holds('<', add(best, eps), ('ix', T, j)) is False and inserts(q):
                    ctx.bad('member', f.loc(cl[-1].line), 'landmark_eps_cover takes landmarks at exactly eps above the closest', 'landmark_eps_cover')
                    continue
            else:
                for c0 in q.trace:
                    if isinstance(c0, Cond) and isinstance(c0.t, tuple) and c0.t[0] == 'cmp':
                        t = geo(c0.t)
                        if ('ix', T, j) in t[2:] and all(z == ('ix', T, j) or simple(z, {eps}) for z in t[2:]):
                            ctx.bad('member', f.loc(cl[-1].line), 'landmark_eps_cover decides by %s' % show(t), 'landmark_eps_cover')
            ins = inserts(q)
            for C, x, l in ins:
                if isinstance(C, tuple) and C[0] == 'ix':
                    ctx.check((C[2], x) == (j, i), 'member', f.loc(l), 'landmark_eps_cover puts %s into set %s' % (show(x), show(C[2])), 'landmark_eps_cover')
            iff(ctx, f, 'landmark_eps_cover', q, bool(ins), c, {eps, ('ix', T, j)}, cl[-1].line, 'the distance is < that of the closest landmark + eps')
    for f in once(ctx, inst(u, NS + 'bivariate_cover', lambda f: kinds(f, u) == 'CC')):
        ctx.function(f)
        ctx.count("covers")
        A, B = geo(par(f, 0, u)), geo(par(f, 1, u))
        paths = geng(u, f).run(f)
        res = [geo(p.val) for p in paths if p.exit == 'ret']
        outs = {}
        for r in res:
            if isinstance(r, tuple) and r and r[0] == 'obj':
                outs = dict(r[2]) if isinstance(r[2], tuple) else {}
        for q, cl in leaves_(paths):
            rs = ranges(cl)
            m = meets(q)
            if len(cl) != 2 or m is None:
                ctx.count(UN)
                continue
            if oddtest(ctx, f, 'bivariate_cover', m, cl[-1].line):
                continue
            a, b, out, ne = m[:4]
            if not all(isinstance(z, tuple) and z[0] == 'ix' and z[1] in (A, B) for z in (a, b)) or a[1] == b[1]:
                ctx.count(UN)
                continue
            if a[1] == B:
                a, b = b, a
            if not ranged(ctx, f, 'bivariate_cover', rs, cl, [(a[2], [('size', A, 0)]), (b[2], [('size', B, 0)])], cl[-1].line, UN):
                continue
            ins = inserts(q)
            iff(ctx, f, 'bivariate_cover', q, bool(ins), ne, {('size', out, 0)}, cl[-1].line, 'the two sets meet')
            vals = sorted([show(v) for _, v, _ in ins])
            if ins:
                w = sorted([show(out), show(a[2]), show(b[2])])
                ctx.check(vals == w or len(vals) != 3, 'member', f.loc(), 'bivariate_cover records %s for the sets %s and %s' % (', '.join(vals), show(a[2]), show(b[2])), 'bivariate_cover')
                for r in res:
                    comp = components(r)
                    if comp and len(comp) == 3 and len(ins) == 3:
                        got = [next((v for C, v, _ in ins if C == z), None) for z in comp]
                        ctx.check(got == [out, a[2], b[2]], 'member', f.loc(), 'bivariate_cover returns (%s)' % ', '.join(show(z) for z in got if z is not None), 'bivariate_cover:result')


def components(r):
    """fields get0.. of a returned tuple"""
    if isinstance(r, tuple) and r and r[0] in ('obj', 'rec', 'struct', 'tup'):
        for x in r[1:]:
            if isinstance(x, tuple):
                d = {k: v for y in x if isinstance(y, tuple) and len(y) == 2 for k, v in [y]}
                if 'get0' in d:
                    return [d[k] for k in sorted(d) if str(k).startswith('get')]
    return None


def meets(q):
    """(A, B, out, non-empty?, other test) of the last intersection"""
    m = None
    for e in q.trace:
        if isinstance(e, Ev) and short(e.name) == 'intersect_sorted' and len(e.args) == 3:
            m = [geo(e.args[0]), geo(e.args[1]), geo(e.args[2]), None, None]
        elif isinstance(e, Cond) and m:
            t = geo(e.t)
            if isinstance(t, tuple) and t[0] == 'cmp':
                for s in subterms(t):
                    if isinstance(s, tuple) and s and s[0] == 'size' and s[1] == m[2]:
                        r = [nonempty(t, pol, s) for pol in (True, False)]
                        if r in ([True, False], [False, True]):
                            m[3], m[4] = r[0 if e.pol else 1], None
                        elif m[3] is None and all(is_num(z) or z == s for z in t[2:]):
                            m[4] = show(t)
        if isinstance(e, Ev) and short(e.name) == 'has_intersect_sorted' and len(e.args) == 2:
            m = [geo(e.args[0]), geo(e.args[1]), None, None, None]
            for c in q.trace:
                if isinstance(c, Cond) and isinstance(c.t, tuple) and c.t[0] == 'app' and c.t[1].endswith('has_intersect_sorted'):
                    m[3] = c.pol
    return m


def nonempty(t, pol, s):
    fa = Facts([])
    fa.st.facts[t] = pol
    if fa.holds('<', 0, s) is not None:
        return fa.holds('<', 0, s)
    if fa.holds('==', s, 0) is not None:
        return not fa.holds('==', s, 0)
    return None


def oddtest(ctx, f, k0, m, line):
    if m[4] is not None:
        ctx.bad('member', f.loc(line), '%s decides by %s instead of whether the sets meet' % (k0, m[4]), k0 + ':meet')
    return m[4] is not None


def intervals(ctx, u):
    UN = "covers not recognised"
    for f in once(ctx, inst(u, NS + 'uniform_interval_cover', lambda f: kinds(f, u) == 'xz')):
        ctx.function(f)
        ctx.count("covers")
        x, ns = geo(par(f, 0, u)), geo(par(f, 1, u))
        for p in geng(u, f, keep=('assign_set_lower', 'assign_set_upper')).run(f):
            for q, cl in leaves_([p]):
                rs = ranges(cl)
                calls = {}
                for e in q.trace:
                    if isinstance(e, Ev) and short(e.name) in ('assign_set_lower', 'assign_set_upper') and len(e.args) == 4:
                        calls[short(e.name)] = [geo(z) for z in e.args]
                if len(cl) != 1 or rs[0][1] is None or len(calls) != 2:
                    if len(calls) == 1 and len(cl) == 1:
                        ctx.bad('member', f.loc(cl[0].line), 'uniform_interval_cover looks at %s only' % list(calls)[0], 'intervals')
                    else:
                        ctx.count(UN)
                    continue
                i = rs[0][1]
                if not ranged(ctx, f, 'uniform_interval_cover', rs, cl, [(i, [('size', x, 0)])], cl[0].line, UN):
                    continue
                ins = inserts(q)
                fa = gfacts(q.trace)
                for nm, a in calls.items():
                    ctx.check(a[0] == ('ix', x, i) and a[3] == ns, 'member', f.loc(cl[0].line), '%s is asked for (%s, %s)' % (nm, show(a[0]), show(a[3])), 'intervals:args')
                    mins, maxs = extremes(a[1], x), extremes(a[2], x)
                    ctx.check(mins != ['second'], 'member', f.loc(cl[0].line), '%s counts from the maximum' % nm, 'intervals:args')
                    width(ctx, f, nm, a[2], ns)
                    r = [s for c in q.trace if isinstance(c, Cond) for s in subterms(geo(c.t)) if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) == nm]
                    if not r:
                        hit = any(any(isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) == nm for s in subterms(C)) for C, _, _ in ins)
                        if hit:
                            ctx.bad('member', f.loc(cl[0].line), 'the result of %s is used without comparing it with -1' % nm, 'intervals')
                        else:
                            ctx.bad('member', f.loc(cl[0].line), 'the result of %s is dropped' % nm, 'intervals')
                        continue
                    r = r[0]
                    c = fa.holds('==', r, -1)
                    if c is None:
                        c = fa.holds('<', r, 0)
                    if c is None:
                        c = fa.holds('<', -1, r)
                        c = None if c is None else not c
                    hit = any(isinstance(C, tuple) and C[0] == 'ix' and C[2] == r and v == i for C, v, _ in ins)
                    iff(ctx, f, 'uniform_interval_cover', q, hit, None if c is None else not c, {r}, cl[0].line, '%s gives a set' % nm)
    for nm, base, off in (('assign_set_lower', 0, 0), ('assign_set_upper', 1, 1)):
        for f in once(ctx, inst(u, NS + nm, lambda f: len(f.d['ps']) == 4)):
            ctx.function(f)
            ctx.count("covers")
            v, mn, w, ns = [par(f, i, u) for i in range(4)]
            o = sub(mul(sub(v, mn), inv(w)), mul(off, ('float', '0.5')) if off else 0)
            for p in geng(u, f).run(f):
                if p.exit != 'ret':
                    continue
                r = unld(p.val)
                fl = [s for s in subterms(r) if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) == 'floor']
                fa = Facts(p.trace)
                if r == -1:
                    bins = [s for c in p.trace if isinstance(c, Cond) for s in subterms(c.t) if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) == 'trunc']
                    fls = {s[2][0] for c in p.trace if isinstance(c, Cond) for s in subterms(c.t) if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) == 'floor'}
                    ok = fa.holds('<', o, 0) is True
                    for b in bins:
                        B = add(base, mul(2, b))
                        if fa.holds('<', B, ns) is False or (base and fa.holds('<', 0, B) is False):
                            ok = True
                    if not ok and (bins or fa.holds('<', o, 0) is not None or any(isinstance(c, Cond) and any(s == v for s in subterms(c.t)) for c in p.trace)):
                        if fls and not fls <= {o}:
                            ctx.bad('member', f.loc(), '%s counts intervals from %s' % (nm, show(next(iter(fls)))), nm)
                        else:
                            ctx.count(UN)
                    else:
                        ctx.check(ok, 'member', f.loc(), '%s gives no set when %s' % (nm, showconds(p)[:150]), nm)
                    continue
                tr = [s for s in subterms(r) if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) == 'trunc']
                if not fl or len(tr) != 1:
                    ctx.count(UN)
                    continue
                arg = fl[0][2][0]
                lin_ = [coefpoly(arg, z) for z in (v, mn)]
                if arg != o:
                    if atoms_ok(arg):
                        ctx.bad('member', f.loc(), '%s counts intervals from %s' % (nm, show(arg)), nm)
                    else:
                        ctx.count(UN)
                    continue
                ctx.check(r == add(base, mul(2, tr[0])), 'member', f.loc(), '%s gives set %s' % (nm, show(r)), nm)
                ctx.check(fa.holds('<', o, 0) is False, 'member', f.loc(), '%s converts a negative offset' % nm, nm + ':neg')
                ctx.check(fa.holds('<', r, ns) is True, 'member', f.loc(), '%s may give a set beyond the last' % nm, nm + ':end')


def coefpoly(t, s):
    return None


def extremes(t, x):
    """which ends of minmax_element a term uses"""
    out = []
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] == 'f' and s[2] in ('first', 'second') and any(isinstance(z, tuple) and z and z[0] == 'app' and short(z[1]) == 'minmax_element' for z in subterms(s)):
            out.append(s[2])
    return sorted(set(out))


def width(ctx, f, nm, w, ns):
    """2 (max - min) / nsets"""
    A = [s for s in subterms(w) if isinstance(s, tuple) and s and s[0] in ('ix', 'deref') and any(isinstance(z, tuple) and z and z[0] == 'f' and z[2] in ('first', 'second') for z in subterms(s)) and s[1] is not None]
    lo = [s for s in A if extremes(s, None) == ['first']]
    hi = [s for s in A if extremes(s, None) == ['second']]
    if len(set(map(repr, lo))) != 1 or len(set(map(repr, hi))) != 1:
        return
    want = mul(mul(2, sub(hi[0], lo[0])), inv(ns))
    d = sub(w, want)
    if d != 0 and not (isinstance(w, tuple) and any(isinstance(s, tuple) and s and s[0] == 'float' for s in subterms(w))):
        ctx.bad('member', f.loc(), '%s is given the width %s' % (nm, show(w)[:100]), 'intervals:width')
    elif d == 0:
        ctx.check(True, 'member', f.loc(), '', 'intervals:width')


# --------------------------------------------------------------------------- nerves
def listof(q, t, upto):
    """elements of a simplex handed to add: a list, or a local holding one at that time"""
    t = geo(t)
    for e in q.trace[:upto]:
        if isinstance(e, Ev) and e.k == 'set' and geo(e.obj) == t and e.args:
            last = geo(e.args[0])
            t2 = last
            if isinstance(t2, tuple) and t2 and (t2[0] == 'list' or (t2[0] == 'app' and t2[1].startswith('new '))):
                cur = t2
                return listof(q, cur, 0)
    while isinstance(t, tuple) and t and t[0] == 'app' and t[1].startswith('new ') and t[2]:
        t = t[2][0]
    if isinstance(t, tuple) and t and t[0] == 'list':
        return [geo(z) for z in t[1]]
    return None


def events(q, name, obj=None):
    return [(n, e) for n, e in enumerate(q.trace) if isinstance(e, Ev) and short(e.name) == name and (obj is None or geo(e.obj) == obj)]


def nerve(ctx, u):
    UN = "nerves not recognised"
    for f in once(ctx, inst(u, NS + 'Nerve', lambda f: kinds(f, u) == 'Cz' and 'Diagram' not in u.type(f.d['ps'][0]['t']))):
        ctx.function(f)
        ctx.count("nerves")
        C, dm = geo(par(f, 0, u)), geo(par(f, 1, u))
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            N = geo(p.val)
            outer = [it for it in p.trace if isinstance(it, Loop)]
            verts = False
            for q, cl in all_paths([p]):
                rs = ranges(cl)
                if len(cl) == 1 and rs[0][1] is not None:
                    i = rs[0][1]
                    inner = [it for it in q.trace if isinstance(it, Loop)]
                    vs = [listof(q, e.args[0], n) for n, e in events(q, 'add', N)]
                    if any(v == [i] for v in vs):
                        if ranged(ctx, f, 'Nerve:vertices', rs, cl, [(i, [('size', C, 0)])], cl[0].line, UN):
                            verts = True
                    elif vs and all(v is not None for v in vs):
                        ctx.bad('nerve', f.loc(cl[0].line), 'Nerve adds the vertex %s for set %s' % (', '.join(show(x) for x in vs[0]), show(i)), 'nerve:vertex')
                    elif not vs and q.exit in ('n', 'c') and any(listof(r, e.args[0], n) == [i] for r in cl[0].paths for n, e in events(r, 'add', N)):
                        ctx.bad('nerve', f.loc(cl[0].line), 'Nerve adds no vertex when %s' % showconds(q)[:120], 'nerve:vertex')
                    if q.exit in ('b', 'ret'):
                        ctx.count(UN)
                if len(cl) >= 1 and not any(isinstance(it, Loop) for it in q.trace):
                    m = meets(q)
                    if m is None:
                        continue
                    if oddtest(ctx, f, 'Nerve', m, cl[-1].line):
                        continue
                    a, b, out, ne = m[:4]
                    if not all(isinstance(z, tuple) and z[0] == 'ix' and z[1] == C for z in (a, b)):
                        ctx.count(UN)
                        continue
                    r = paircover(q, rs, a[2], b[2], [('size', C, 0)])
                    if r is None or q.exit in ('b', 'ret'):
                        ctx.count(UN)
                        continue
                    ctx.check(r[0], 'nerve', f.loc(cl[-1].line), 'Nerve %s' % r[1], 'nerve:pairs')
                    ad = events(q, 'add', N)
                    if ne is None:
                        ctx.count(UN)
                        continue
                    ctx.check(bool(ad) == ne, 'nerve', f.loc(cl[-1].line), 'Nerve %s two sets that %s' % (('joins', 'do not meet') if ad else ('does not join', 'meet')), 'nerve:edges')
                    for n, e in ad:
                        l = listof(q, e.args[0], n)
                        if l is not None:
                            ctx.check(len(l) == 2 and set(l) == {a[2], b[2]}, 'nerve', f.loc(e.line), 'Nerve adds {%s} when the sets %s and %s meet' % (', '.join(map(show, l)), show(a[2]), show(b[2])), 'nerve:edges')
                    if ne:
                        rec = [e for n, e in events(q, 'add_dimension_recursive_nerve')]
                        fa = gfacts(q.trace)
                        small = fa.holds('<', 1, dm) is False or fa.holds('==', dm, 1) is True or fa.holds('<', dm, 2) is True
                        ctx.check(bool(rec) or small, 'nerve', f.loc(cl[-1].line), 'Nerve does not look for triangles when %s' % showconds(q)[:120], 'nerve:rec')
                        for e in rec:
                            g = [geo(z) for z in e.args]
                            if len(g) == 5:
                                l = listof(q, e.args[1], len(q.trace))
                                ctx.check((l is None or set(l) == {a[2], b[2]}) and g[2] == C and g[3] == out and g[4] == dm, 'nerve', f.loc(e.line), 'Nerve goes on with (%s)' % ', '.join(show(z) for z in g), 'nerve:rec')
            # one vertex for every set, whatever dmax
            if not verts:
                ctx.count(UN)
            for L in outer:
                for q in L.paths:
                    fa = gfacts(q.trace)
                    if not any(isinstance(it, Loop) for it in q.trace) and q.exit in ('n', 'c') and any(events(q, 'add')):
                        if not any(isinstance(x, Loop) and x is not L and any(meets(z) for z, _ in all_paths(x.paths)) for x in outer):
                            ok = fa.holds('==', dm, 0) is True or fa.holds('<', 0, dm) is False or fa.holds('<', dm, 1) is True
                            ctx.check(ok, 'nerve', f.loc(L.line), 'Nerve adds no edges when %s' % showconds(q)[:120], 'nerve:edges')
    for f in once(ctx, inst(u, NS + 'add_dimension_recursive_nerve', lambda f: len(f.d['ps']) == 5)):
        ctx.function(f)
        ctx.count("nerves")
        N, S, C, I, dm = [geo(par(f, i, u)) for i in range(5)]
        sz = None
        for p in geng(u, f).run(f):
            fa = gfacts(p.trace)
            szs = {s for c in p.trace if isinstance(c, Cond) for s in subterms(geo(c.t)) if isinstance(s, tuple) and s and s[0] == 'size' and s[1] == S}
            sz = next(iter(szs)) if szs else ('size', S, 0)
            ls = [it for it in p.trace if isinstance(it, Loop)]
            if not ls:
                if szs:
                    ok = fa.holds('<', sub(sz, 1), dm) is False or fa.holds('<', sz, add(dm, 1)) is False or fa.holds('<', dm, sz) is True
                    if not ok and (fa.holds('<', dm, sz) is not None or fa.holds('<', sz, dm) is not None or fa.holds('<', sub(sz, 1), dm) is not None or fa.holds('<', sz, sub(dm, 1)) is not None or fa.holds('<', dm, sub(sz, 1)) is not None):
                        ctx.bad('nerve', f.loc(), 'the search stops at simplices with %s' % showconds(p)[:120], 'nerve:stop')
                    elif ok:
                        ctx.check(True, 'nerve', f.loc(), '', 'nerve:stop')
                    else:
                        ctx.count(UN)
                continue
            else:
                ok = fa.holds('<', sub(sz, 1), dm) is True or fa.holds('<', dm, sz) is False or fa.holds('<', sz, add(dm, 1)) is True
                if not ok and szs:
                    ctx.count(UN)
            for q, cl in leaves_([p]):
                rs = ranges(cl)
                m = meets(q)
                if len(cl) != 1 or m is None or rs[0][1] is None:
                    ctx.count(UN)
                    continue
                if oddtest(ctx, f, 'the search', m, cl[0].line):
                    continue
                a, b, out, ne = m[:4]
                k = rs[0][1]
                if a == I:
                    a, b = b, a
                if not (isinstance(a, tuple) and a[0] == 'ix' and a[1] == C):
                    ctx.count(UN)
                    continue
                ctx.check(a[2] == k and b == I, 'nerve', f.loc(cl[0].line), 'the search meets %s with %s' % (show(a), show(b)), 'nerve:meet')
                lo, hi = rs[0][2], rs[0][3]
                hit = isinstance(hi, tuple) and hi[0] == 'deref' and isinstance(hi[1], tuple) and hi[1][0] == 'app' and short(hi[1][1]) in ('min_element', 'max_element')
                if hit:
                    A = hi[1][2]
                    ctx.check(lo == 0 and short(hi[1][1]) == 'min_element' and A[0] == ('it', S, 0) and isinstance(A[1], tuple) and A[1][:2] == ('it', S) and isinstance(A[1][2], tuple) and A[1][2][0] == 'size', 'nerve', f.loc(cl[0].line), 'the search looks at the sets %s..%s' % (show(lo), show(sub(hi, 1))), 'nerve:range')
                elif is_num(sub(hi, ('ix', S, 0))) if isinstance(hi, tuple) else False:
                    ctx.check(lo == 0 and hi == ('ix', S, 0), 'nerve', f.loc(cl[0].line), 'the search looks at the sets %s..%s' % (show(lo), show(sub(hi, 1))), 'nerve:range')
                elif lo != 0 and is_num(lo):
                    ctx.bad('nerve', f.loc(cl[0].line), 'the search starts at set %s' % show(lo), 'nerve:range')
                else:
                    inner = [s for s in subterms(hi) if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) == 'min_element']
                    if inner and is_num(sub(hi, ('deref', inner[0]))):
                        ctx.bad('nerve', f.loc(cl[0].line), 'the search looks at the sets 0..%s' % show(sub(hi, 1)), 'nerve:range')
                    else:
                        ctx.count(UN)
                if q.exit in ('b', 'ret'):
                    ctx.bad('nerve', f.loc(cl[0].line), 'the search stops at the first set that %s' % ('meets' if ne else 'does not meet'), 'nerve:range')
                    continue
                if ne is None:
                    ctx.count(UN)
                    continue
                ad = events(q, 'add', N)
                ctx.check(bool(ad) == ne, 'nerve', f.loc(cl[0].line), 'the search %s a set that %s' % (('adds', 'does not meet the others') if ad else ('leaves out', 'meets the others')), 'nerve:higher')
                pu = events(q, 'emplace_back', S) + events(q, 'push_back', S)
                po = events(q, 'pop_back', S)
                if pu:
                    ctx.check(len(pu) == len(po), 'nerve', f.loc(cl[0].line), 'the search leaves set %s in the simplex' % show(k), 'nerve:undo')
                    for n, e in pu:
                        ctx.check(geo(e.args[0]) == k, 'nerve', f.loc(e.line), 'the search appends %s for set %s' % (show(geo(e.args[0])), show(k)), 'nerve:higher')
                    for n, e in ad:
                        x = geo(e.args[0])
                        si = [z for m2, z in events(q, 'sort_into') if m2 < n]
                        if x == S:
                            ctx.check(any(m2 < n for m2, _ in pu) and not any(m2 < n for m2, _ in po), 'nerve', f.loc(e.line), 'the search adds the simplex without set %s' % show(k), 'nerve:higher')
                        elif si:
                            ctx.check(geo(si[-1].args[0]) == S and geo(si[-1].args[1]) == x, 'nerve', f.loc(e.line), 'the search adds %s' % show(x), 'nerve:higher')
                            m3 = [m2 for m2, z in events(q, 'sort_into') if z is si[-1]][0]
                            ctx.check(any(m2 < m3 for m2, _ in pu) and not any(m2 < m3 for m2, _ in po), 'nerve', f.loc(e.line), 'the search adds the simplex without set %s' % show(k), 'nerve:higher')
                rec = [e for n, e in events(q, 'add_dimension_recursive_nerve')]
                if ne:
                    fb = gfacts(list(p.trace) + list(q.trace))
                    szq = {s for c in q.trace if isinstance(c, Cond) for s in subterms(geo(c.t)) if isinstance(s, tuple) and s and s[0] == 'size' and s[1] == S} or {sz}
                    done = any(fb.holds('<', s, dm) is False or fb.holds('<', sub(dm, 1), s) is True for s in szq)
                    if not rec and not done and any(isinstance(c, Cond) and any(s == dm for s in subterms(geo(c.t))) for c in q.trace):
                        far = [c for c in q.trace if isinstance(c, Cond) and any(s == dm for s in subterms(geo(c.t)))][-1]
                        if isinstance(far.t, tuple) and far.t[0] == 'cmp' and all(simple(geo(z), {dm, sz} | szq | {S}) for z in far.t[2:]):
                            ctx.bad('nerve', f.loc(cl[0].line), 'the search does not go on when %s%s' % ('' if far.pol else 'not ', show(geo(far.t))), 'nerve:rec')
                        else:
                            ctx.count(UN)
                    elif not rec and not done:
                        ctx.bad('nerve', f.loc(cl[0].line), 'the search does not go on to larger simplices', 'nerve:rec')
                    for e in rec:
                        g = [geo(z) for z in e.args]
                        if len(g) == 5:
                            good = g[0] == N and g[2] == C and g[3] == out and g[4] == dm and (not ad or g[1] == geo(ad[-1][1].args[0]) or g[1] == S)
                            ctx.check(good, 'nerve', f.loc(e.line), 'the search goes on with (%s)' % ', '.join(show(z) for z in g), 'nerve:rec')


# --------------------------------------------------------------------------- copies of data
def data(ctx, u):
    UN = "copies not recognised"
    for f in once(ctx, inst(u, NS + 'coordinate_projection', lambda f: kinds(f, u) == 'Dz')):
        ctx.function(f)
        ctx.count("copies")
        D, i = geo(par(f, 0, u)), geo(par(f, 1, u))
        for q, cl in leaves_(geng(u, f).run(f)):
            rs = ranges(cl)
            ins = inserts(q)
            if len(cl) != 1 or rs[0][1] is None or len(ins) != 1:
                ctx.count(UN)
                continue
            if ranged(ctx, f, 'coordinate_projection', rs, cl, [(rs[0][1], [('rows', D)])], cl[0].line, UN):
                ctx.check(ins[0][1] == ('ent', D, rs[0][1], i), 'copy', f.loc(ins[0][2]), 'the projection to coordinate %s takes %s for point %s' % (show(i), show(ins[0][1]), show(rs[0][1])), 'projection')
    for f in once(ctx, inst(u, NS + 'get_subset', lambda f: len(f.d['ps']) == 2) + inst(u, NS + 'DataSet::operator[]', lambda f: kinds(f, u) == 'x')):
        sub_ = short(f.name) == 'get_subset'
        k0 = short(f.name)
        ctx.function(f)
        ctx.count("copies")
        D = geo(par(f, 0, u)) if sub_ else None
        I = geo(par(f, 1 if sub_ else 0, u))
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            T = geo(p.val)
            if isinstance(T, tuple) and T[0] == 'app' and T[1].startswith('new ') and len(T[2]) == 1:
                T = geo(T[2][0])
            a = made(p, T)
            if a and len(a) == 2:
                ctx.check(a[0] == ('size', I, 0) or not simple(a[0], {I, D} if D else {I}), 'copy', f.loc(), '%s makes room for %s points' % (k0, show(a[0])), k0)
            n = 0
            for q, cl in all_paths([p]):
                if not cl:
                    continue
                rs = ranges(cl)
                for e in q.trace:
                    if not (isinstance(e, Ev) and e.args):
                        continue
                    o = geo(e.obj) if e.obj is not None else None
                    v = geo(e.args[-1])
                    if e.k in ('set', 'call') and isinstance(o, tuple) and o and o[0] == 'pt' and o[1] == T and isinstance(v, tuple) and v[0] == 'pt':
                        r, c, src, sc = o[2], None, v, None
                        base, row = v[1], v[2]
                    elif e.k == 'set' and isinstance(o, tuple) and o and o[0] == 'ent' and o[1] == T and isinstance(v, tuple) and v and v[0] == 'ent':
                        r, c, base, row, sc = o[2], o[3], v[1], v[2], v[3]
                    else:
                        continue
                    n += 1
                    if not (isinstance(row, tuple) and row[0] == 'ix' and row[1] == I):
                        if row == r or any(x[1] == row for x in rs):
                            ctx.bad('copy', f.loc(e.line), '%s copies point %s' % (k0, show(row)), k0)
                        else:
                            ctx.count(UN)
                        continue
                    if D is not None:
                        ctx.check(base == D, 'copy', f.loc(e.line), '%s copies from %s' % (k0, show(base)), k0)
                    it = row[2]
                    L = [x for x in rs if x[1] == it]
                    rr = lockstep(L[0][0], it, r) if L else r
                    if not L:
                        ctx.count(UN)
                        continue
                    if not ranged(ctx, f, k0, rs, [x[0] for x in rs], [(it, [('size', I, 0)])], e.line, UN):
                        continue
                    if rr != it and not simple(rr, {it}):
                        # a row number kept in a variable that does not count the rounds
                        ends = {geo(x.env.get(d)) for d, s in L[0][0].syms.items() if geo(s[1]) == r for x in L[0][0].paths if x.exit in ('n', 'c')}
                        if ends and all(is_num(v) or v == r or v == row for v in ends):
                            ctx.bad('copy', f.loc(e.line), '%s copies entry %s of the index set to row %s of a variable that becomes %s' % (k0, show(it), show(r), ' or '.join(sorted(show(v) for v in ends))), k0)
                            continue
                        ctx.count(UN)
                    else:
                        ctx.check(rr == it, 'copy', f.loc(e.line), '%s copies entry %s of the index set to row %s' % (k0, show(it), show(rr)), k0)
                    if c is not None:
                        Dd = base
                        if ranged(ctx, f, k0, rs, [x[0] for x in rs], [(c, [('cols', Dd)])], e.line, UN):
                            ctx.check(c == sc, 'copy', f.loc(e.line), '%s copies coordinate %s to coordinate %s' % (k0, show(sc), show(c)), k0)
            if not n:
                ctx.count(UN)
    for f in once(ctx, inst(u, NS + 'product_space', lambda f: kinds(f, u) == 'DD')):
        ctx.function(f)
        ctx.count("copies")
        X0, Y0 = geo(par(f, 0, u)), geo(par(f, 1, u))
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            for q, cl in all_paths([p]):
                if len(cl) != 3:
                    continue
                rs = ranges(cl)
                for e in q.trace:
                    if isinstance(e, Ev) and e.k == 'set' and e.args:
                        v = geo(e.args[0])
                        o = geo(e.obj)
                        if isinstance(v, tuple) and v and v[0] == 'ent' and isinstance(o, tuple) and o and o[0] == 'ent' and v[1] in (X0, Y0):
                            S = v[1]
                            if ranged(ctx, f, 'product_space', rs, cl, [(v[2], [('rows', S)]), (v[3], [('cols', S)])], e.line, UN):
                                other = Y0 if S == X0 else X0
                                for r in rs[:2]:
                                    if r[1] is not None and r[1] != v[2]:
                                        ranged(ctx, f, 'product_space', rs, cl, [(r[1], [('rows', other)])], e.line, UN)
                                prodrow(ctx, f, p, rs, cl, o[2], Y0, e.line)
                                c = lockstep(rs[-1][0], v[3], o[3])
                                if S == X0 and (c == v[3] or is_num(sub(c, v[3]))):
                                    ctx.check(c == v[3], 'copy', f.loc(e.line), 'product_space copies coordinate %s of the first factor to %s' % (show(v[3]), show(c)), 'product')
                                elif S == Y0 and simple(sub(c, v[3]), {X0, Y0}):
                                    ctx.check(sub(c, v[3]) == ('cols', X0), 'copy', f.loc(e.line), 'product_space copies coordinate %s of the second factor to %s' % (show(v[3]), show(c)), 'product')
                                else:
                                    ctx.count(UN)


def prodrow(ctx, f, p, rs, cl, k, Y0, line):
    """the row of a pair moves on once per pair"""
    if rs[0][1] is None or rs[1][1] is None:
        return
    if k == add(mul(rs[0][1], ('rows', Y0)), rs[1][1]):
        ctx.check(True, 'copy', f.loc(line), '', 'product:row')
        return
    L1, L2 = cl[0], cl[1]
    cs = [c for c in counters(L2).values() if c[0] == k]
    if cs:
        ctx.check(cs[0][2] == 1, 'copy', f.loc(line), 'product_space moves %s rows on per pair' % cs[0][2], 'product:row')
    elif not any(sy == k for _, sy in L2.syms.values()) and not vardep(k, rs[1][1]):
        ctx.bad('copy', f.loc(line), 'product_space puts several pairs into row %s' % show(k), 'product:row')


# --------------------------------------------------------------------------- landmarks
def inital(p, v):
    for it in p.trace:
        if isinstance(it, Loop):
            continue
        if isinstance(it, Ev) and it.k == 'set' and it.name == 'init' and geo(it.obj) == v and it.args:
            return geo(it.args[0])
    return None


def argof(t, nm):
    """('ext', vector) when t is the position of the extremal element of a vector"""
    t = geo(t)
    best = None
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) in ('max_element', 'min_element') and len(s[2]) == 2:
            best = s
    if best is None or not (isinstance(best[2][0], tuple) and best[2][0][0] == 'it'):
        return None
    V0 = best[2][0][1]
    whole = best[2][0] == ('it', V0, 0) and isinstance(best[2][1], tuple) and best[2][1][:2] == ('it', V0) and isinstance(best[2][1][2], tuple) and best[2][1][2][0] == 'size'
    if t in (sub(best, ('it', V0, 0)), best, ('deref', best)):
        return short(best[1]), V0, whole, t == ('deref', best)
    return None


def landmarks(ctx, u):
    UN = "landmarks not recognised"
    for f in once(ctx, inst(u, NS + 'greedy_landmarks') + inst(u, NS + 'hausdorff_landmarks') + inst(u, NS + 'greedy_landmarks_hausdorff') + inst(u, NS + 'approx_center')):
        ctx.function(f)
        ctx.count("landmarks")
        k0 = short(f.name)
        ks = kinds(f, u)
        D = geo(par(f, 0, u))
        names = [p_['n'] for p_ in f.d['ps']]
        i0 = geo(par(f, names.index('i0'), u)) if 'i0' in names else None
        if i0 is None:
            # the seed is the size parameter after the metric
            zs = [n for n, c in enumerate(ks) if c == 'z']
            i0 = geo(par(f, zs[-1], u)) if zs and k0 != 'greedy_landmarks_hausdorff' else geo(par(f, zs[0], u)) if zs else None
        if i0 is None:
            ctx.count(UN)
            continue
        one = lambda i: ('d', ('pt', D, i), D)
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            # distances kept between steps: the vectors whose extremal element is asked for
            kept = set()
            for q, cl in all_paths([p]):
                for e in q.trace:
                    if isinstance(e, Ev) and short(e.name) in ('max_element', 'min_element') and e.args:
                        a = geo(e.args[0])
                        if isinstance(a, tuple) and a[0] == 'it':
                            kept.add(a[1])
            for d in kept:
                st = inital(p, d)
                if st is not None and isinstance(st, tuple) and st[0] == 'd':
                    ctx.check(st == one(i0), 'landmark', f.loc(), '%s starts from the distances %s' % (k0, show(st)), k0 + ':start')
                if st is not None and isinstance(st, tuple) and st[0] == 'app':
                    for L in [it for it in p.trace if isinstance(it, Loop)]:
                        for r in L.paths:
                            if any(isinstance(it, Loop) for it in r.trace):
                                continue
                            for e in r.trace:
                                if isinstance(e, Ev) and e.k == 'set' and e.args:
                                    o, v = geo(e.obj), geo(e.args[0])
                                    if isinstance(o, tuple) and o and o[0] == 'ix' and o[1] == d and isinstance(v, tuple) and v and v[0] == 'ent' and v[1] == D:
                                        tr = trip(L)
                                        row = lockstep(L, tr[0], o[2]) if tr else None
                                        if row is None or not vardep(row, tr[0]):
                                            ctx.count(UN)
                                            continue
                                        ctx.check(set(v[2:]) == {i0, row}, 'landmark', f.loc(e.line), '%s starts from the distances %s' % (k0, show(v)), k0 + ':start')
            # the first index recorded
            first = None
            rec = [e for e in p.trace if isinstance(e, Ev) and short(e.name) in ('insert', 'emplace', 'emplace_back', 'push_back')]
            if rec and k0 != 'approx_center':
                v = geo(rec[0].args[-1])
                if v == i0 or simple(v, {D, i0} | {geo(par(f, n, u)) for n in range(len(ks))}):
                    ctx.check(v == i0, 'landmark', f.loc(rec[0].line), '%s starts with landmark %s' % (k0, show(v)), k0 + ':start')
            # a loop up to a number of landmarks ends when no new one is found
            for L in [it for it in p.trace if isinstance(it, Loop)]:
                for q in L.paths:
                    if q.exit not in ('n', 'c') or not (q.trace and isinstance(q.trace[0], Cond)):
                        continue
                    h = geo(q.trace[0].t)
                    if not (isinstance(h, tuple) and h[0] == 'cmp' and isinstance(h[2], tuple) and h[2][0] == 'size' and q.trace[0].pol):
                        continue
                    mk_ = inital(p, h[2][1])
                    if not (isinstance(mk_, tuple) and mk_[0] == 'app' and mk_[1].endswith('std::set')):
                        continue
                    ins = [e for n, e in events(q, 'insert', h[2][1]) + events(q, 'emplace', h[2][1])]
                    new = any(isinstance(c, Cond) and any(isinstance(x, tuple) and x and x[0] == 'app' and short(x[1]) in ('insert', 'emplace', 'count', 'find', 'contains') for x in subterms(geo(c.t))) for c in q.trace)
                    if ins:
                        ctx.check(new, 'landmark', f.loc(L.line), '%s goes on without asking whether the landmark is new: it does not end when no new one is left' % k0, k0 + ':ends')
            # steps
            for L in [it for it in p.trace if isinstance(it, Loop)]:
                for q in L.paths:
                    inner = [it for it in q.trace if isinstance(it, Loop)]
                    if not inner or q.exit not in ('n', 'c'):
                        continue
                    step(ctx, u, f, k0, p, L, q, inner, D, kept, one, UN)
            v = geo(p.val)
            if k0 == 'approx_center':
                a = argof(v, None)
                at = {s[1] for s in subterms(v) if isinstance(s, tuple) and s and s[0] == 'it'}
                if a is None and len(at) > 1:
                    ctx.bad('landmark', f.loc(), 'approx_center mixes positions of %s' % ' and '.join(sorted(map(show, at))), 'center')
                elif a:
                    ctx.check(a[0] == 'min_element' and a[2], 'landmark', f.loc(), 'approx_center returns the %s' % a[0], 'center')
                    if isinstance(ctx, object):
                        op = how(p, a[1])
                        if op:
                            ctx.check(op == 'max', 'landmark', f.loc(), 'approx_center minimizes the %simum distance to the landmarks' % op, 'center')
                else:
                    ctx.count(UN)
            elif isinstance(v, tuple) and v and v[0] == 'app' and short(v[1]) == 'operator[]':
                ctx.check(v[2][0] == D, 'landmark', f.loc(), '%s returns points of %s' % (k0, show(v[2][0])), k0 + ':result')


def how(p, d):
    """is the vector kept as a minimum or a maximum"""
    ops = set()
    for q, cl in all_paths([p]):
        for e in q.trace:
            if isinstance(e, Ev) and e.k == 'set' and e.args:
                o = geo(e.obj)
                if isinstance(o, tuple) and o and o[0] == 'ix' and o[1] == d and len(cl) >= 2:
                    x = upd(q, o, geo(e.args[0]))
                    if x:
                        ops.add(x[0])
    return ops.pop() if len(ops) == 1 else None


def upd(q, old, v):
    """(min|max, other) when the entry is replaced by the smaller or larger of itself and another value"""
    if isinstance(v, tuple) and v and v[0] == 'app' and short(v[1]) in ('min', 'max') and len(v[2]) == 2 and old in v[2]:
        o = [z for z in v[2] if z != old]
        return (short(v[1]), o[0]) if o else None
    fa = gfacts(q.trace)
    if v == old:
        for c in q.trace:
            if isinstance(c, Cond) and isinstance(c.t, tuple) and c.t[0] == 'cmp' and c.t[1] == '<':
                l, r = geo(c.t[2]), geo(c.t[3])
                if old in (l, r):
                    o = r if l == old else l
                    if isinstance(o, tuple) and o and o[0] in ('ix', 'ent', 'deref'):
                        return ('min' if (c.pol if l == old else not c.pol) else 'max'), o
        return None
    lt, gt = fa.holds('<', old, v), fa.holds('<', v, old)
    if gt is True or lt is False:
        return 'min', v
    if lt is True or gt is False:
        return 'max', v
    return None


def viewed(q, t):
    """entry of a strided view of a matrix"""
    t = geo(t)
    if not (isinstance(t, tuple) and t and t[0] == 'deref'):
        return t
    for e in q.trace:
        if isinstance(e, Ev) and e.k == 'set' and e.name == 'init' and e.args:
            a = geo(e.args[0])
            if isinstance(a, tuple) and a[0] == 'app' and 'VectorView' in a[1] and len(a[2]) == 3:
                v = geo(e.obj)
                x = subst(subst(t[1], ('f', v, 'first'), a[2][0]), ('f', v, 'stride'), a[2][2])
                if x == t[1]:
                    continue
                for m, c in poly(x).items():
                    if c == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'f' and m[0][2] == 'mat':
                        M = m[0][1]
                        M = M[1] if isinstance(M, tuple) and M[0] == 'f' and M[2] == 'macc' else M
                        i, j = 0, 0
                        for m2, c2 in poly(sub(x, m[0])).items():
                            n = m2.count(('cols', M))
                            if n == 1:
                                l = list(m2)
                                l.remove(('cols', M))
                                i = add(i, mk({tuple(l): c2}))
                            elif n == 0:
                                j = add(j, mk({m2: c2}))
                            else:
                                return t
                        return ('ent', M, i, j)
    return t


def step(ctx, u, f, k0, p, L, q, inner, D, kept, one, UN):
    """one step: the recorded index is the argmax of the kept distances, which are then updated with its own distances"""
    # heads: values carried from the last step
    def carried(t):
        t = geo(t)
        for d, (nm, sy) in L.syms.items():
            if any(s == sy for s in subterms(t)):
                s0, s1 = geo(L.start.get(d)), geo(q.env.get(d)) if q.env.get(d) is not None else None
                if s0 == s1 and s0 is not None and s0 != sy:
                    t = subst(t, sy, s0)
        return t
    idx, vals, others = [], [], []
    for e in q.trace:
        if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('insert', 'emplace', 'emplace_back', 'push_back') and e.args:
            a = argof(carried(e.args[-1]), None)
            if a is None:
                ctx.count(UN)
                continue
            (vals if a[3] else idx).append((a, e))
    last = max([n for n, it in enumerate(q.trace) if isinstance(it, Loop) and any(isinstance(x, Ev) and x.k == 'set' and isinstance(geo(x.obj), tuple) and geo(x.obj)[0] == 'ix' and geo(x.obj)[1] in kept for r in it.paths for x in r.trace)], default=None)
    for a, e in idx + vals:
        asked = [n for n, it in enumerate(q.trace) if isinstance(it, Ev) and short(it.name) == a[0] and it.args and geo(it.args[0]) == ('it', a[1], 0)]
        here = q.trace.index(e)
        if last is not None and here < last:
            own = argof(e.args[-1], None) is not None
            fresh = any(n < here for n in asked) if own else any(n > last for n in asked)
            if own and any(sy in set(subterms(geo(e.args[-1]))) for _, (nm, sy) in L.syms.items()):
                fresh = True
            ctx.check(fresh, 'landmark', f.loc(e.line), '%s picks the next point by the distances of an earlier step' % k0, k0 + ':pick')
    for a, e in idx + vals:
        ctx.check(a[0] == 'max_element' and a[2], 'landmark', f.loc(e.line), '%s records the %s of %s' % (k0, a[0], show(a[1])), k0 + ':pick')
    pos = None
    for a, e in idx:
        pos = carried(e.args[-1])
    if pos is None and k0 == 'approx_center':
        for e in q.trace:
            if isinstance(e, Ev) and short(e.name) == 'max_element':
                V0 = geo(e.args[0])[1]
                op = how(p, V0)
                if op:
                    ctx.check(op == 'min', 'landmark', f.loc(e.line), 'approx_center picks the farthest point by a %simum' % op, k0 + ':pick')
    if idx and vals:
        ctx.check({a[1] for a, _ in idx} == {a[1] for a, _ in vals}, 'landmark', f.loc(), '%s records a distance from another vector' % k0, k0 + ':pick')
        for a, e in vals:
            # value and index are read before the update
            pass
    for I in inner:
        tr = trip(I)
        for r in I.paths:
            for e in r.trace:
                if not (isinstance(e, Ev) and e.k == 'set' and e.args):
                    continue
                o = geo(e.obj)
                if not (isinstance(o, tuple) and o and o[0] == 'ix' and o[1] in kept):
                    continue
                x = upd(r, o, geo(e.args[0]))
                if x is None and geo(e.args[0]) != o and not mentions(r, {o, geo(e.args[0])}) and not any(s == o for s in subterms(geo(e.args[0]))) and k0 != 'approx_center':
                    ctx.bad('landmark', f.loc(e.line), '%s replaces the distances to the landmarks by %s' % (k0, show(geo(e.args[0]))[:80]), k0 + ':update')
                    continue
                if x is None or not tr:
                    ctx.count(UN)
                    continue
                op, other = x
                if k0 != 'approx_center':
                    ctx.check(op == 'min', 'landmark', f.loc(e.line), '%s keeps the %simum distance to the landmarks' % (k0, op), k0 + ':update')
                hi = geo(tr[2])
                if tr[1] is not None and geo(tr[1]) != 0 and is_num(geo(tr[1])):
                    ctx.bad('landmark', f.loc(I.line), '%s updates the distances from %s on' % (k0, show(geo(tr[1]))), k0 + ':update')
                elif isinstance(hi, tuple) and hi[0] == 'poly' and any(isinstance(s, tuple) and s and s[0] in ('size', 'rows') for s in subterms(hi)) and any(is_num(sub(hi, s)) for s in subterms(hi) if isinstance(s, tuple) and s and s[0] in ('size', 'rows')):
                    ctx.bad('landmark', f.loc(I.line), '%s updates the distances up to %s' % (k0, show(sub(hi, 1))), k0 + ':update')
                c = carried(viewed(q, other))
                if isinstance(c, tuple) and c[0] == 'ix' and isinstance(c[1], tuple) and c[1][0] == 'd' and c[1][1][0] == 'pt':
                    ctx.check(c[2] == o[2], 'landmark', f.loc(e.line), '%s updates entry %s with entry %s' % (k0, show(o[2]), show(c[2])), k0 + ':update')
                    if pos is not None:
                        ctx.check(c[1] == one(pos), 'landmark', f.loc(e.line), '%s updates with the distances of point %s' % (k0, show(c[1][1][2])[:80]), k0 + ':update')
                elif isinstance(c, tuple) and c[0] == 'ent' and c[1] == D and pos is not None:
                    ctx.check(set(c[2:]) == {pos, o[2]}, 'landmark', f.loc(e.line), '%s updates entry %s with %s' % (k0, show(o[2]), show(c)[:80]), k0 + ':update')


def witness(ctx, u):
    UN = "witness complexes not recognised"
    for f in once(ctx, inst(u, NS + 'WitnessComplex', lambda f: kinds(f, u) == 'DDxz')):
        ctx.function(f)
        ctx.count("witness complexes")
        X0, L0, di, dm = [geo(par(f, i, u)) for i in range(4)]
        k = add(dm, 1)
        N = ('app', NS + 'neighborhoods', (X0, L0, di, k), 0)
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            W = geo(p.val)
            for e in p.trace:
                if isinstance(e, Ev) and short(e.name) == 'neighborhoods' and len(e.args) == 4:
                    g = [geo(z) for z in e.args]
                    if simple(sub(g[3], dm), {dm}):
                        ctx.check(g == [X0, L0, di, k], 'witness', f.loc(e.line), 'the strong witness complex asks for neighborhoods(%s)' % ', '.join(map(show, g)), 'witness:nbrs')
            for q, cl in all_paths([p]):
                rs = ranges(cl)
                for n, e in events(q, 'add', W):
                    if len(cl) == 1 and rs[0][1] is not None:
                        l = listof(q, e.args[0], n)
                        if l is not None and ranged(ctx, f, 'WitnessComplex:vertices', rs, cl, [(rs[0][1], [('rows', L0)])], e.line, UN):
                            ctx.check(l == [rs[0][1]], 'witness', f.loc(e.line), 'the witness complex adds {%s}' % ', '.join(map(show, l)), 'witness:vertices')
                    elif len(cl) == 2 and all(r[1] is not None for r in rs):
                        d, i = rs[0], rs[1]
                        if simple(d[2], {dm}) and simple(d[3], {dm}):
                            ctx.check(d[2] == 1 and d[3] == k, 'witness', f.loc(e.line), 'the witness complex runs over the dimensions %s..%s' % (show(d[2]), show(sub(d[3], 1))), 'witness:dims')
                        ranged(ctx, f, 'WitnessComplex', rs[1:], cl[1:], [(i[1], [('rows', X0), ('size', N, 0)])], e.line, UN)
                        for it in q.trace[:n]:
                            if isinstance(it, Loop):
                                tr = trip(it)
                                if not tr:
                                    ctx.count(UN)
                                    continue
                                hi = geo(tr[2])
                                if simple(sub(hi, d[1]), {dm}):
                                    ctx.check(geo(tr[1]) == 0 and (sub(hi, d[1]) == 1), 'witness', f.loc(it.line), 'a simplex of dimension %s takes the landmarks %s..%s' % (show(d[1]), show(geo(tr[1])), show(sub(hi, 1))), 'witness:simplex')
                                for r in it.paths:
                                    for s in r.trace:
                                        if isinstance(s, Ev) and s.k == 'set' and isinstance(geo(s.obj), tuple) and geo(s.obj)[0] == 'ix' and geo(s.obj)[1] == geo(e.args[0]):
                                            v = geo(s.args[0])
                                            if isinstance(v, tuple) and v[0] == 'ix' and isinstance(v[1], tuple) and v[1][0] == 'ix' and v[1][1] == N:
                                                ctx.check(v[1][2] == i[1] and v[2] == geo(s.obj)[2], 'witness', f.loc(s.line), 'entry %s of the simplex witnessed by %s is %s' % (show(geo(s.obj)[2]), show(i[1]), show(v)[-40:]), 'witness:simplex')
    for f in once(ctx, inst(u, NS + 'witness_edges', lambda f: kinds(f, u) == 'DDxr')):
        ctx.function(f)
        ctx.count("witness complexes")
        X0, L0, di, R = [geo(par(f, i, u)) for i in range(4)]
        for p in geng(u, f).run(f):
            for e in p.trace:
                if isinstance(e, Ev) and short(e.name) == 'neighborhoods' and len(e.args) == 4:
                    g = [geo(z) for z in e.args]
                    ctx.check(g == [L0, X0, di, R], 'witness', f.loc(e.line), 'the witness edges use neighborhoods(%s)' % ', '.join(map(show, g)), 'witness_edges')
        for q, cl in leaves_(geng(u, f).run(f)):
            rs = ranges(cl)
            m = meets(q)
            if m is None or len(cl) != 2:
                ctx.count(UN)
                continue
            if oddtest(ctx, f, 'witness_edges', m, cl[-1].line):
                continue
            a, b, out, ne = m[:4]
            if not all(isinstance(z, tuple) and z[0] == 'ix' and isinstance(z[1], tuple) and z[1][0] == 'app' for z in (a, b)):
                ctx.count(UN)
                continue
            r = paircover(q, rs, a[2], b[2], [('rows', L0), ('size', a[1], 0)])
            if r is None or ne is None:
                ctx.count(UN)
                continue
            ctx.check(r[0], 'witness', f.loc(cl[-1].line), 'witness_edges %s' % r[1], 'witness_edges')
            rec = records(q, True)
            ctx.check(bool(rec) == ne, 'witness', f.loc(cl[-1].line), 'witness_edges %s landmarks whose witnesses %s' % (('joins', 'do not meet') if rec else ('does not join', 'meet')), 'witness_edges')
            for c, x, y, _, l in rec:
                ctx.check({geo(x), geo(y)} == {a[2], b[2]}, 'witness', f.loc(l), 'witness_edges joins %s and %s' % (show(geo(x)), show(geo(y))), 'witness_edges')


def strict(ctx, u):
    UN = "wrappers not recognised"
    for f in once(ctx, inst(u, NS + 'StrictRipsCoverFiltration', lambda f: kinds(f, u) == 'DCxrz')):
        ctx.function(f)
        ctx.count("wrappers")
        X0, C, di, R, dm = [geo(par(f, i, u)) for i in range(5)]
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            F = geo(p.val)
            for q, cl in all_paths([p]):
                un = events(q, 'union_add', F)
                if not un or len(cl) != 1:
                    if un:
                        ctx.count(UN)
                    continue
                rs = ranges(cl)
                if rs[0][1] is not None:
                    ranged(ctx, f, 'StrictRipsCoverFiltration', rs, cl, [(rs[0][1], [('size', C, 0)])], cl[0].line, UN)
                for n, e in un:
                    v = geo(e.args[0])
                    v = resolved(v, ivals(q.trace))
                    if isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == 'FlagFiltration' and len(v[2]) == 4:
                        ctx.check(v[2][1] == ('rows', X0) and v[2][2] == dm and v[2][3] == 0, 'wrapper', f.loc(e.line), 'each set gives FlagFiltration(%s)' % ', '.join(map(show, v[2][1:])), 'strict')
                        ed = v[2][0]
                        # edges of this set only
                        fresh = any(isinstance(x, Ev) and ((short(x.name) == 'clear' and geo(x.obj) == ed) or (x.k == 'set' and geo(x.obj) == ed)) for x in q.trace[:n])
                        ctx.check(fresh, 'wrapper', f.loc(e.line), 'the edges of a set are added to those of the sets before', 'strict:clear')
                    else:
                        ctx.count(UN)


def run(ctx, u):
    neighborhoods(ctx, u)
    covers(ctx, u)
    intervals(ctx, u)
    nerve(ctx, u)
    data(ctx, u)
    landmarks(ctx, u)
    witness(ctx, u)
    strict(ctx, u)
