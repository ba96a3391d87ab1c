"""Geometric constructions.  Every distance is brought into a normal form (sums over the coordinates raised to
rational powers) and compared with its definition; every edge list is read as: which pairs are looked at, under
which comparison they are taken, with which value; tables, minima and maxima are read as the set of
entries they range over; wrappers as the arguments they hand on."""
from rules.common import *
from rules.r08 import par, inst, uniq, field, V
from bx.seqs import Seqs, X, deep, trip, counters, coef, subst
from bx.folds import *
from fractions import Fraction

PROP = dict(
    id="R10", title="Geometric constructions take the right pairs at the right distances",
    statement="Each metric is its definition over all coordinates (Euclidean, L1, L-infinity, cosine and angle with their projective variants, arc cosines clamped), and distance tables hold dist(X[i],Y[j]) at (i,j). The edge lists of Rips, Dowker and (lazy) witness constructions hold every pair of points (or pair inside a cover set) once, exactly those at parameter <= rmax (Rips) or < rmax (cover, Dowker and witness filtrations), with that pair's own value; Dowker parameters are min over witnesses of the max of the two distances, in a symmetric table, witness parameters subtract the column's nu-th smallest distance and stop at 0, the enclosing radius is the smallest row maximum. The constructions hand on their own points, cover, rmax and dimension, one vertex per point or landmark. The nerve holds every vertex, every pair and every larger simplex up to dmax whose sets meet; neighborhoods, landmark, interval and bivariate covers put each point in exactly the sets they describe; subsets, projections and products of data copy the right coordinates; landmark selection starts from, updates and returns consistent distances and indices, and greedy_landmarks ends when no new point is left.",
    over=["inputs"],
    text="all point clouds, distance matrices, covers, radii and dimensions",
    why="one pair missed or taken twice, a distance of another pair or a strict comparison shows only for particular point configurations; most of these constructions have no test",
    files=["include/topology/metric.hpp", "include/topology/rips.hpp", "include/topology/rips_cover.hpp", "include/topology/dowker.hpp", "include/topology/dowker_cover.hpp", "include/topology/nerve.hpp", "include/topology/cover.hpp", "include/topology/neighborhood.hpp", "include/topology/landmark.hpp", "include/topology/data.hpp", "include/topology/density.hpp"],
    mechanism=[("metrics", "metric.hpp"), ("edge lists", "rips_edges, rips_filtration_edges, flag_filtration_edges, dowker_filtration_edges"), ("covers and nerves", "cover.hpp, neighborhood.hpp, nerve.hpp")],
)
TECHNIQUE = "symbolic normal forms of distances, pair-coverage analysis of loop nests, fold analysis of minima and maxima, argument tracking through wrappers"
LEVEL = "proof"
ASSUMPTIONS = ["std containers and algorithms behave as specified", "floating-point rounding is ignored", "distance matrices of one point set are symmetric", "metrics are symmetric"]
MINIMUM = {"metrics": 4, "edge lists": 4, "wrappers": 8, "tables": 4, "covers": 6, "landmarks": 3}

NS = 'bats::'
VOC = {'dist', 'FlagComplex', 'FlagFiltration', 'FlagFiltration_extension', 'rips_edges', 'rips_filtration_edges', 'flag_filtration_edges', 'dowker_filtration_edges',
       'dowker_edge_param', 'witness_edge_param', 'sort', 'neighborhoods', 'neighborhood', 'intersect_sorted', 'has_intersect_sorted', 'sort_into', 'add', 'add_dimension_recursive_nerve', 'increment_m',
       'get_m', 'union_add', 'firstk', 'Nerve', 'RipsComplex', 'RipsFiltration', 'witness_neighborhoods', 'nth_element', 'min_element', 'max_element', 'minmax_element', 'DowkerFiltration'}


def geng(u, f, drop=(), keep=()):
    me, loc = f.name, f.loc()
    k = (VOC | set(keep)) - set(drop)

    def voc(n, x):
        s = short(n)
        if s == 'operator()' and 'AbstractMetric' in n:
            return True
        if s == 'operator=' and 'VectorView' in n:
            return True
        if s == 'operator[]' and 'DataSet' in n:
            g = u.byid.get(x.get('fid')) if isinstance(x, dict) else None
            return g is not None and any(w in u.type(g.d['ps'][0]['t']) for w in ('set<', 'vector<'))
        if s in k and not (n == me and 'add_dimension' not in n and sameps(u, f, x)):
            return True
        return la_mutator(n, x)
    return Engine(u, vocab=voc, maxpaths=20000)


def sameps(u, f, x):
    g = u.byid.get(x.get('fid')) if isinstance(x, dict) else None
    return g is not None and g.loc() == f.loc()


# --------------------------------------------------------------------------- normal form of geometric terms
def geo(t):
    """points, matrix entries and distances as ('pt', D, i), ('ent', M, i, j), ('d', p, q)"""
    t = unld(t)
    if not (isinstance(t, tuple) and t):
        return t
    k = t[0]
    if isinstance(k, tuple):
        return tuple(geo(x) for x in t)
    if k in ('sym', 'v', 'this', 'str', 'float'):
        return t
    if k == 'poly':
        r = 0
        for m, c in t[1]:
            x = c
            for a in m:
                x = mul(x, inv(geo(a[1])) if isinstance(a, tuple) and a[0] == 'inv' else geo(a))
            r = add(r, x)
        return r
    if k == 'app' and t[1].startswith('new ') and 'VectorView' in t[1] and len(t[2]) == 3:
        p = point(t[2][0])
        if p:
            return p
    if k == 'ix':
        b = unld(t[1])
        if isinstance(b, tuple) and b[0] == 'f' and b[2] == 'mat' and isinstance(unld(b[1]), tuple) and unld(b[1])[0] == 'f' and unld(b[1])[2] == 'macc':
            M = unld(unld(b[1])[1])
            e = split(geo(t[2]), field(field(geo(M), 'macc'), 'n'))
            if e:
                D = geo(M)
                if isinstance(D, tuple) and D[0] == 'f' and D[2] == 'data':
                    D = D[1]
                return ('ent', D, e[0], e[1])
    if k == 'f' and t[2] in ('m', 'n'):
        b = unld(t[1])
        if isinstance(b, tuple) and b and b[0] == 'f' and b[2] == 'macc':
            b = unld(b[1])
        b = geo(b)
        if isinstance(b, tuple) and b and b[0] == 'f' and b[2] == 'data':
            return ('rows' if t[2] == 'm' else 'cols', b[1])
        return ('rows' if t[2] == 'm' else 'cols', b)
    if k == 'app':
        s = t[1].split('::')[-1]
        a = tuple(geo(x) for x in t[2])
        if s in ('dist', 'operator()') and len(a) == 3:
            if all(isinstance(x, tuple) and x and (x[0] in ('pt', 'v')) for x in a[1:]):
                if s == 'dist' or any(x[0] == 'pt' for x in a[1:]):
                    return ('d', a[1], a[2])
            return ('dtab', a[1], a[2])
        return ('app', t[1], a, 0)
    return (t[0],) + tuple(geo(x) if isinstance(x, tuple) else x for x in t[1:])


def split(p, n):
    """p == n*i + j with j free of n: (i, j).  n is given as (rows/cols) normal form"""
    n = geo(n)
    i, j = 0, 0
    for m, c in poly(p).items():
        k = m.count(n)
        if k == 0:
            j = add(j, mk({m: c}))
        elif k == 1:
            mm = list(m)
            mm.remove(n)
            i = add(i, mk({tuple(mm): c}))
        else:
            return None
    return i, j


def point(t):
    """D.data.macc.mat + D.data.macc.n * i"""
    for m, c in poly(t).items():
        if c == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'f' and m[0][2] == 'mat':
            acc = unld(m[0][1])
            if isinstance(acc, tuple) and acc[0] == 'f' and acc[2] == 'macc':
                M = unld(acc[1])
                e = split(geo(sub(t, m[0])), field(acc, 'n'))
                if e and e[1] == 0:
                    D = geo(M)
                    if isinstance(D, tuple) and D[0] == 'f' and D[2] == 'data':
                        D = D[1]
                    return ('pt', D, e[0])
    return None


def sym2(d):
    """distance without the order of its two points"""
    if isinstance(d, tuple) and d and d[0] == 'd':
        return ('d',) + tuple(sorted(d[1:], key=repr))
    return d


def atoms_ok(t, extra=()):
    """every leaf is a parameter, a counter, a number or a known geometric term"""
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] in ('app', 'new', 'deref', 'lam') and s not in extra:
            return False
    return True


# --------------------------------------------------------------------------- metrics
def mono(t, acc, depth=0):
    """polynomial over accumulators with rational exponents: {((atom, exp),..): coefficient} or None"""
    t = unld(t)
    if depth > 12:
        return None
    if is_num(t):
        return {(): Fraction(t)} if t != 0 else {}
    if isinstance(t, tuple) and t and t[0] == 'poly':
        r = {}
        for m, c in t[1]:
            x = {(): Fraction(c)}
            for a in m:
                if isinstance(a, tuple) and a[0] == 'inv':
                    y = mono(a[1], acc, depth + 1)
                    y = mpow(y, Fraction(-1))
                else:
                    y = mono(a, acc, depth + 1)
                x = mmul(x, y)
                if x is None:
                    return None
            for k, v in x.items():
                r[k] = r.get(k, 0) + v
                if r[k] == 0:
                    del r[k]
        return r
    if t in acc:
        return {((acc[t], Fraction(1)),): Fraction(1)}
    if isinstance(t, tuple) and t and t[0] in ('app', 'inv'):
        s = t[1].split('::')[-1] if t[0] == 'app' else 'inv'
        a = t[2] if t[0] == 'app' else (t[1],)
        if s in ('sqrt', 'sqrtf', 'sqrtl') and len(a) == 1:
            return mpow(mono(a[0], acc, depth + 1), Fraction(1, 2))
        if s == 'inv':
            return mpow(mono(a[0], acc, depth + 1), Fraction(-1))
        if s in ('hypot',):
            return None
        if s in ('abs', 'fabs') and len(a) == 1:
            y = mono(a[0], acc, depth + 1)
            if y is None or len(y) != 1:
                return None
            (k, c), = y.items()
            return {tuple(sorted((('|xy|' if n == 'xy' else n), e) for n, e in k)): abs(c)}
    return None


def mmul(a, b):
    if a is None or b is None:
        return None
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            d = dict(k)
            for n, e in l:
                d[n] = d.get(n, Fraction(0)) + e
            m = tuple(sorted((n, e) for n, e in d.items() if e))
            r[m] = r.get(m, 0) + v * w
            if r[m] == 0:
                del r[m]
    return r


def mpow(a, e):
    if a == {}:
        return {} if e > 0 else {(('0', e),): Fraction(1)}
    if a is None or len(a) != 1:
        return None
    (k, c), = a.items()
    if c != 1:
        if e == -1:
            c = 1 / c
        else:
            return None
    return {tuple(sorted((n, x * e) for n, x in k)): c}


H = Fraction(1, 2)
COS = {tuple(sorted([('xx', -H), ('yy', -H), ('xy', Fraction(1))])): Fraction(1)}
ACOS = {tuple(sorted([('xx', -H), ('yy', -H), ('|xy|', Fraction(1))])): Fraction(1)}


def minus(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
        if r[k] == 0:
            del r[k]
    return r


METRICS = {
    'Euclidean': ('plain', {(('dd', H),): Fraction(1)}, ()),
    'L1Dist': ('plain', {(('|d|', Fraction(1)),): Fraction(1)}, ()),
    'LInfDist': ('plain', {(('max|d|', Fraction(1)),): Fraction(1)}, ()),
    'CosineDist': ('plain', minus({(): Fraction(1)}, COS), ()),
    'RPCosineDist': ('plain', minus({(): Fraction(1)}, ACOS), ()),
    'AngleDist': ('acos', COS, (1, -1)),
    'RPAngleDist': ('acos', ACOS, (1,)),
}


def coords(t, x, y, sy, seen):
    """entry i of x as A, of y as B; seen collects the index of every access"""
    A, B = ('sym', '_A', 0), ('sym', '_B', 0)

    def go(t):
        t = unld(t)
        if not (isinstance(t, tuple) and t):
            return t
        if isinstance(t[0], tuple):
            return tuple(go(q) for q in t)
        if t[0] == 'deref':
            p = unld(t[1])
            for v, r in ((x, A), (y, B)):
                st = field(v, 'stride')
                d = sub(p, field(v, 'first'))
                if not any(s == field(v, 'first') for s in subterms(d)):
                    e = split2(d, st)
                    if e is not None:
                        seen.append(e)
                        return r
            return t
        if t[0] == 'app' and t[1].split('::')[-1] in ('operator()', 'operator[]') and len(t[2]) == 2 and unld(t[2][0]) in (x, y):
            seen.append(t[2][1])
            return A if unld(t[2][0]) == x else B
        if t[0] == 'poly':
            r = 0
            for m, c in t[1]:
                z = c
                for a in m:
                    z = mul(z, inv(go(a[1])) if isinstance(a, tuple) and a[0] == 'inv' else go(a))
                r = add(r, z)
            return r
        if t[0] in ('sym', 'v', 'this', 'str', 'float'):
            return t
        return (t[0],) + tuple(go(q) if isinstance(q, tuple) else q for q in t[1:])
    return nostamp(go(t))


def split2(p, st):
    i = 0
    for m, c in poly(p).items():
        if m.count(st) != 1:
            return None
        mm = list(m)
        mm.remove(st)
        i = add(i, mk({tuple(mm): c}))
    return i


def absdiff(t, A, B):
    t = unld(t)
    if isinstance(t, tuple) and t and t[0] == 'app' and t[1].split('::')[-1] in ('abs', 'fabs') and len(t[2]) == 1:
        d = unld(t[2][0])
        return d in (sub(A, B), sub(B, A))
    return False


def accumulators(ctx, f, k0, p, x, y):
    """symbol after the loops -> what it holds; None when some loop is not understood"""
    A, B = ('sym', '_A', 0), ('sym', '_B', 0)
    acc, other = {}, {}
    SUMS = {'xx': mul(A, A), 'yy': mul(B, B), 'xy': mul(A, B), 'dd': mul(sub(A, B), sub(A, B)), 'x': A, 'y': B}
    for it in p.trace:
        if not isinstance(it, Loop):
            continue
        tr = trip(it)
        whole = None
        if tr:
            sizes = []
            for v in (x, y):
                sizes += [('app', '/', (sub(field(v, 'last'), field(v, 'first')), field(v, 'stride')), 0), ('app', 'VectorView::size', (v,), 0)]
            hi = unld(tr[2])
            whole = tr[1] == 0 and any(eqmod(hi, s) for s in sizes)
            near = any(eqmod(sub(sub(hi, tr[1]), s), k) for s in sizes for k in (-1, 1, 2, -2)) or (tr[1] != 0 and any(eqmod(hi, s) for s in sizes))
            if not whole:
                if near:
                    ctx.bad('metric', f.loc(it.line), '%s looks at the coordinates %s..%s' % (k0, show(tr[1]), show(sub(tr[2], 1))), k0)
                return None
            if any(q.exit not in ('n', 'c') for q in it.paths):
                return None
        else:
            return None
        for d, (nm, sy) in it.syms.items():
            if sy == tr[0]:
                continue
            st = unld(it.start.get(d))
            deltas, kinds = set(), set()
            for q in it.paths:
                nx = q.env.get(d)
                if nx is None:
                    kinds.add('?')
                    continue
                seen = []
                c = coords(nx, x, y, tr[0], seen)
                if any(i != tr[0] for i in seen):
                    if all(is_num(sub(i, tr[0])) for i in seen):
                        ctx.bad('metric', f.loc(it.line), '%s combines coordinates %s' % (k0, ', '.join(sorted({show(i) for i in seen}))), k0)
                    return None
                dl = sub(c, sy)
                kind = None
                for n, s in SUMS.items():
                    if dl == s:
                        kind = n
                if kind is None:
                    if absdiff(dl, A, B):
                        kind = '|d|'
                    elif dl == 0:
                        kind = 'keep'
                    elif absdiff(c, A, B):
                        kind = 'set'
                    elif isinstance(unld(c), tuple) and unld(c)[0] == 'app' and unld(c)[1].split('::')[-1] in ('max', 'fmax') and any(unld(z) == sy for z in unld(c)[2]) and any(absdiff(z, A, B) for z in unld(c)[2]):
                        kind = 'max'
                    elif isinstance(unld(c), tuple) and unld(c)[0] == 'app' and unld(c)[1].split('::')[-1] in ('min', 'fmin') and any(unld(z) == sy for z in unld(c)[2]) and any(absdiff(z, A, B) for z in unld(c)[2]):
                        kind = 'min'
                    elif not any(isinstance(s, tuple) and s and s[0] in ('app', 'deref', 'ix') for s in subterms(dl)) and all(s in (A, B) or not (isinstance(s, tuple) and s and s[0] == 'sym') for s in subterms(dl)):
                        kind = 'poly:' + show(dl)
                    else:
                        kind = '?'
                if kind == 'set' or kind == 'keep':
                    # a comparison decides between keeping and taking the new term
                    o = None
                    for cd in q.trace:
                        if isinstance(cd, Cond) and isinstance(cd.t, tuple) and cd.t[0] == 'cmp' and cd.t[1] == '<':
                            l, r = coords(cd.t[2], x, y, tr[0], []), coords(cd.t[3], x, y, tr[0], [])
                            if l == sy and absdiff(r, A, B):
                                o = '<' if cd.pol else '>='
                            elif r == sy and absdiff(l, A, B):
                                o = '>' if cd.pol else '<='
                    if o is None:
                        kind = '?'
                    else:
                        up = o in ('<', '<=')          # old below new
                        kind = ('max' if up else 'min') if kind == 'set' else ('max' if not up else 'min')
                kinds.add(kind)
            if len(kinds) == 1:
                k = kinds.pop()
                if k in ('xx', 'yy', 'xy', 'dd', '|d|', 'max', 'min') or k.startswith('poly'):
                    nm2 = k + '|d|' if k in ('max', 'min') else k
                    if not is_num(st):
                        return None
                    acc[sy] = nm2 if st == 0 else '%s started at %s' % (nm2, show(st))
                    continue
            if kinds <= {'keep'}:
                continue
            return None
    return acc


def eqmod(a, b):
    a, b = unld(a), unld(b)
    return a == b or (isinstance(a, tuple) and isinstance(b, tuple) and nostamp(a) == nostamp(b))


def nostamp(t):
    if isinstance(t, tuple) and t and t[0] == 'app':
        return ('app', t[1].split('::')[-1] if 'size' in t[1] else t[1], tuple(nostamp(x) for x in t[2]), 0)
    if isinstance(t, tuple) and t and t[0] == 'poly':
        r = 0
        for m, c in t[1]:
            z = c
            for a in m:
                z = mul(z, inv(nostamp(a[1])) if isinstance(a, tuple) and a[0] == 'inv' else nostamp(a))
            r = add(r, z)
        return r
    if isinstance(t, tuple):
        return tuple(nostamp(x) if isinstance(x, tuple) else x for x in t)
    return t


def unclamp(t):
    """strip std::min / std::max against constants: (term, set of bounds)"""
    b = set()
    while True:
        t = unld(t)
        if isinstance(t, tuple) and t and t[0] == 'app' and t[1].split('::')[-1] in ('min', 'max', 'fmin', 'fmax', 'clamp'):
            s = t[1].split('::')[-1]
            nums = [x for x in t[2] if is_num(unld(x))]
            rest = [x for x in t[2] if not is_num(unld(x))]
            if len(rest) == 1:
                if s == 'clamp' and len(nums) == 2:
                    b |= {('lo', unld(nums[0])), ('hi', unld(nums[1]))}
                elif len(nums) == 1:
                    b.add(('hi' if 'min' in s else 'lo', unld(nums[0])))
                t = rest[0]
                continue
        return t, b


def metrics(ctx, u):
    done = set()
    for nm, (form, want, clamp) in METRICS.items():
        for f in inst(u, NS + nm + '::dist'):
            if f.loc() in done:
                continue
            done.add(f.loc())
            ctx.function(f)
            ctx.count("metrics")
            x, y = par(f, 0, u), par(f, 1, u)
            k0 = nm
            for p in Engine(u, vocab=lambda n, z: la_mutator(n, z), maxpaths=2000).run(f):
                if p.exit != 'ret' or p.val is None:
                    continue
                acc = accumulators(ctx, f, k0, p, x, y)
                if acc is None:
                    ctx.count("metrics not recognised")
                    continue
                v = unld(p.val)
                fa = Facts(p.trace)
                if form == 'acos':
                    if not (isinstance(v, tuple) and v[0] == 'app' and v[1].split('::')[-1].startswith('acos')):
                        m = mono(v, acc)
                        if m is not None:
                            ctx.bad('metric', f.loc(), '%s returns %s, not an angle' % (k0, showm(m)), k0)
                        else:
                            ctx.count("metrics not recognised")
                        continue
                    a, b = unclamp(v[2][0])
                    # the cosine may have been compared with the bounds before
                    cs = [(unld(it.t[2]), unld(it.t[3]), it.pol) for it in p.trace if isinstance(it, Cond) and isinstance(it.t, tuple) and it.t[0] == 'cmp' and it.t[1] == '<']
                    cosm = [t for l, r, _ in cs for t in (l, r) if not is_num(t)]
                    if is_num(a):
                        good = False
                        for l, r, pol in cs:
                            if l == a and mono(r, acc) == want and pol and a == 1:
                                good = True
                            if r == a and mono(l, acc) == want and (pol if a == -1 else not pol):
                                good = True
                            if l == a and mono(r, acc) == want and not pol and a == -1:
                                good = True
                        if good:
                            ctx.check(True, 'metric', f.loc(), '', k0)
                        elif cs and all(mono(t, acc) is not None for t in cosm):
                            ctx.bad('metric', f.loc(), '%s returns acos(%s) when %s' % (k0, show(a), '; '.join('%s%s' % ('' if c.pol else 'not ', show(c.t)) for c in p.trace if isinstance(c, Cond))[:120]), k0)
                        else:
                            ctx.count("metrics not recognised")
                        continue
                    m = mono(a, acc)
                    if m is None:
                        ctx.count("metrics not recognised")
                        continue
                    ctx.check(m == want, 'metric', f.loc(), '%s is the arc cosine of %s' % (k0, showm(m)), k0)
                    for c in clamp:
                        okc = any(n == c for _, n in b)
                        for l, r, pol in cs:
                            if c == 1 and ((l == 1 and mono(r, acc) == m and not pol) or (r == 1 and mono(l, acc) == m and pol)):
                                okc = True
                            if c == -1 and ((r == -1 and mono(l, acc) == m and not pol) or (l == -1 and mono(r, acc) == m and pol)):
                                okc = True
                        ctx.check(okc, 'metric', f.loc(), '%s takes the arc cosine of a value not limited by %d' % (k0, c), k0 + ':clamp')
                    continue
                m = mono(v, acc)
                if m is None:
                    ctx.count("metrics not recognised")
                    continue
                ctx.check(m == want, 'metric', f.loc(), '%s is %s' % (k0, showm(m)), k0)


def showm(m):
    return ' + '.join('%s%s' % ('' if c == 1 and k else str(c) + ('*' if k else ''), '*'.join('%s^%s' % (n, e) if e != 1 else n for n, e in k)) for k, c in sorted(m.items(), key=repr)) or '0'

# --------------------------------------------------------------------------- pairs and edge lists
def gfacts(trace):
    fa = Facts([])
    for it in trace:
        if isinstance(it, Cond):
            fa.st.facts[geo(it.t)] = it.pol
    return fa


def ranges(ctxl):
    """loops around an iteration: [(loop, symbol, lo, hi)]; lo, hi in normal form; None entries for unknown loops"""
    out = []
    for L in ctxl:
        tr = trip(L)
        if not tr or tr[3] not in (1, -1):
            out.append((L, None, None, None))
        else:
            out.append((L, tr[0], geo(tr[1]), geo(tr[2])))
    return out


def vardep(t, sy):
    return any(s == sy for s in subterms(t))


def paircover(q, rs, a, b, ns, S=None):
    """(True, '') / (False, why) / None: is every unordered pair of 0..n-1 (n one of ns) met once by the two loops"""
    def idx(t):
        t = unld(t)
        if S is not None:
            if isinstance(t, tuple) and t and t[0] == 'ix' and unld(t[1]) == S:
                return t[2]
            return None
        return t
    a, b = idx(a), idx(b)
    if a is None or b is None:
        return None
    sy = [r for r in rs if r[1] is not None and (r[1] == a or r[1] == b)]
    if a == b:
        return False, 'joins a point to itself'
    if len(sy) != 2:
        # shifted indices such as i+1
        return None
    (L1, s1, lo1, hi1), (L2, s2, lo2, hi2) = sy
    if vardep(lo1, s2) or vardep(hi1, s2):
        return None
    known = [n for n in ns]

    def isn(t, k=0):
        return any(t == add(n, k) for n in known)

    def plain(t):
        """polynomial in s1, the sizes and constants only"""
        return all(all(x == s1 or x in known for x in m) for m in poly(t))
    if not all(plain(t) for t in (lo1, hi1, lo2, hi2)):
        return None
    if lo2 == 0 and hi2 == s1 and lo1 in (0, 1) and isn(hi1):
        return True, ''
    if lo2 == add(s1, 1) and isn(hi2) and lo1 == 0 and (isn(hi1) or isn(hi1, -1)):
        return True, ''
    if lo2 == 0 and isn(hi2) and lo1 == 0 and isn(hi1):
        fa = gfacts(q.trace)
        r = rel(fa, s1, s2)
        if r in (1, -1):
            return True, ''
        return False, 'meets both orders of every pair'
    return False, 'looks at the pairs %s..%s x %s..%s' % (show(lo1), show(sub(hi1, 1)), show(lo2), show(sub(hi2, 1)))


def records(q, flat):
    """edges recorded on one iteration: [(container, a, b, value, line)]"""
    out, half = [], {}
    for e in q.trace:
        if not (isinstance(e, Ev) and e.k == 'call' and e.obj is not None and short(e.name) in ('push_back', 'emplace_back', 'emplace', 'insert', 'emplace_hint')):
            continue
        c = unld(e.obj)
        args = [unld(x) for x in e.args]
        if short(e.name) == 'emplace_hint':
            args = args[1:]
        if flat:
            if len(args) == 1:
                half.setdefault(c, []).append((args[0], e.line))
            continue
        if len(args) == 3:
            out.append((c, args[0], args[1], args[2], e.line))
        elif len(args) == 1:
            x = args[0]
            if isinstance(x, tuple) and x and x[0] == 'app' and x[1].startswith('new ') and 'filtered_edge' in x[1] and len(x[2]) == 3:
                out.append((c, unld(x[2][0]), unld(x[2][1]), unld(x[2][2]), e.line))
            elif isinstance(x, tuple) and x and x[0] == 'list' and len(x[1]) == 3:
                out.append((c, x[1][0], x[1][1], x[1][2], e.line))
    for c, l in half.items():
        for i in range(0, len(l) - 1, 2):
            out.append((c, l[i][0], l[i + 1][0], None, l[i][1]))
    return out


def expected(kind, src, a, b):
    """values the pair (a, b) may carry"""
    if kind == 'data':
        return {sym2(('d', ('pt', src, a), ('pt', src, b)))}
    if kind == 'matrix':
        return {('ent', src, a, b), ('ent', src, b, a)}
    if kind == 'dowker':
        return {('app', NS + 'dowker_edge_param', (src, a, b), 0), ('app', NS + 'dowker_edge_param', (src, b, a), 0)}


def form(v):
    v = unld(v)
    if isinstance(v, tuple) and v:
        if v[0] in ('d', 'ent'):
            return True
        if v[0] == 'app' and v[1].endswith('dowker_edge_param') and len(v[2]) == 3:
            return True
    return False


def edgefn(ctx, u, f, kind, src, rmax, op, flat, S=None, k0=None, paths=None):
    """S: position of the cover parameter or None"""
    k0 = k0 or short(f.name)
    ctx.function(f)
    ctx.count("edge lists")
    D = geo(par(f, src, u))
    R = par(f, rmax, u)
    seenrec = False
    for p, ctxl in all_paths(paths or geng(u, f).run(f)):
        if not ctxl:
            continue
        recs = records(p, flat)
        rs = ranges(ctxl)
        inner = any(isinstance(it, Loop) for it in p.trace)
        for c, a, b, v, line in recs:
            if inner:
                continue
            a, b = geo(a), geo(b)
            seenrec = True
            ns = [('rows', D), ('cols', D)]
            if kind == 'data':
                ns = [('rows', D)]
            C = None
            if S is not None:
                cov = V(par(f, S, u)[1])
                C = ('ix', cov, rs[0][1]) if rs and rs[0][1] is not None else None
                if C is None or not (rs[0][2] == 0 and rs[0][3] == ('size', cov, 0)):
                    ctx.count("edge lists not recognised")
                    continue
                ns = [('size', C, 0)]
            r = paircover(p, rs, a, b, ns, C)
            if r is None:
                ctx.count("edge lists not recognised")
                continue
            ctx.check(r[0], 'pairs', f.loc(line), '%s %s' % (k0, r[1]), k0 + ':pairs')
            want = {sym2(x) for x in expected(kind, D, a, b)}
            if v is not None:
                g = sym2(geo(v))
                if not form(g):
                    if is_num(g) or g in {geo(par(f, n, u)) for n in range(len(f.d['ps']))} | {a, b}:
                        ctx.bad('value', f.loc(line), '%s stores %s with every pair' % (k0, show(g)), k0 + ':value')
                    else:
                        ctx.count("edge lists not recognised")
                else:
                    ctx.check(g in want, 'value', f.loc(line), '%s stores %s with the pair %s, %s' % (k0, show(v)[:80], show(a), show(b)), k0 + ':value')
            compare(ctx, f, k0, p, R, op, want, True, line)
        if not recs and not inner and p.exit in ('n', 'c', 'b') and len(ctxl) >= (3 if S is not None else 2):
            if any(isinstance(it, Cond) and vardep(geo(it.t), R) for it in p.trace):
                compare(ctx, f, k0, p, R, op, None, False, ctxl[-1].line)
            elif p.exit == 'b':
                ctx.count("edge lists not recognised")
    return seenrec


def compare(ctx, f, k0, p, R, op, want, rec, line):
    fa = gfacts(p.trace)
    got = None
    for it in p.trace:
        if not (isinstance(it, Cond) and isinstance(it.t, tuple) and it.t[0] == 'cmp' and it.t[1] == '<'):
            continue
        l, r = sym2(geo(it.t[2])), sym2(geo(it.t[3]))
        if R not in (l, r):
            continue
        v = r if l == R else l
        if not form(v):
            ctx.count("edge lists not recognised")
            return
        if want is not None:
            if v not in want:
                ctx.bad('radius', f.loc(it.line if hasattr(it, 'line') else line), '%s compares %s with rmax for another pair' % (k0, show(v)[:80]), k0 + ':radius')
                return
        o = ('<' if it.pol else '>=') if l == v else ('>' if it.pol else '<=')
        got = o
    if rec:
        if got is None:
            ctx.bad('radius', f.loc(line), '%s takes pairs without comparing them with rmax' % k0, k0 + ':radius')
        else:
            ctx.check(got == op, 'radius', f.loc(line), '%s takes the pairs with parameter %s rmax, not %s' % (k0, got, op), k0 + ':radius')
    elif got is not None:
        anti = {'<=': '>', '<': '>='}[op]
        ctx.check(got == anti, 'radius', f.loc(line), '%s leaves out pairs with parameter %s rmax' % (k0, got), k0 + ':radius')
        if p.exit == 'b':
            ctx.bad('radius', f.loc(line), '%s stops at the first pair beyond rmax' % k0, k0 + ':radius')


def kinds(f, u):
    """D(ata), M(atrix), C(over), n(umber), x(other) for every parameter"""
    s = ''
    for p in f.d['ps']:
        t = u.type(p['t'])
        if 'DataSet' in t:
            s += 'D'
        elif 'Dense' in t or 'Matrix' in t:
            s += 'M'
        elif 'vector<std::set' in t or 'Cover' in t:
            s += 'C'
        elif t.replace('const ', '').strip() in ('double', 'float', 'int', 'unsigned long', 'size_t', 'long'):
            s += 'z' if t.replace('const ', '').strip() in ('unsigned long', 'size_t') else 'r'
        elif 'VectorView' in t:
            s += 'p'
        else:
            s += 'x'
    return s


EDGES = [
    ('rips_edges', 'Dxr', 'data', 0, 2, '<=', True, None),
    ('rips_edges', 'Mr', 'matrix', 0, 1, '<=', True, None),
    ('rips_filtration_edges', 'Dxr', 'data', 0, 2, '<=', False, None),
    ('rips_filtration_edges', 'Mr', 'matrix', 0, 1, '<=', False, None),
    ('rips_filtration_edges', 'DCxr', 'data', 0, 3, '<', False, 1),
    ('flag_filtration_edges', 'Mr', 'matrix', 0, 1, '<', False, None),
    ('dowker_filtration_edges', 'MCr', 'dowker', 0, 2, '<', False, 1),
    ('StrictRipsCoverFiltration', 'DCxrz', 'data', 0, 3, '<', False, 1),
]


def once(ctx, fs):
    out, seen = [], set()
    for f in fs:
        if f.loc() not in seen:
            seen.add(f.loc())
            out.append(f)
    return out


def edgelists(ctx, u):
    for nm, sig, kind, src, rmax, op, flat, S in EDGES:
        for f in once(ctx, inst(u, NS + nm, lambda f: kinds(f, u) == sig)):
            paths = geng(u, f).run(f)
            if not edgefn(ctx, u, f, kind, src, rmax, op, flat, S, paths=paths):
                ctx.count("edge lists not recognised")
            if nm.startswith('Strict'):
                continue
            # what was recorded is what is returned
            for p in paths:
                if p.exit != 'ret':
                    continue
                conts = {r[0] for q, cl in all_paths([p]) for r in records(q, flat) if cl}
                v = unld(p.val)
                rec = {r[0] for q, cl in all_paths([p]) for r in records(q, flat) if len(cl) >= 2}
                if v in rec or not rec:
                    continue
                ok = False
                for it in p.trace:
                    if isinstance(it, Loop):
                        for c in rec:
                            sy = iterates(it, c)
                            if sy is not None:
                                ok = all(q.exit in ('n', 'c') and any(isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('push_back', 'emplace_back') and unld(e.obj) == v and (unld(e.args[0]) == ('ix', c, sy) or True) for e in q.trace) for q in it.paths)
                                ctx.check(ok, 'pairs', f.loc(it.line), '%s leaves recorded edges out of the result' % nm, nm + ':copy')
                if not ok:
                    ctx.count("edge lists not recognised")


# --------------------------------------------------------------------------- wrappers
def ivals(items):
    out = {}
    for it in items:
        if isinstance(it, Ev) and it.k == 'set' and it.name == 'init' and it.args:
            a = unld(it.args[0])
            if isinstance(a, tuple) and a and a[0] in ('app', 'v'):
                out[unld(it.obj)] = a
    return out


def resolved(t, iv, n=6):
    t = unld(t)
    for _ in range(n):
        o = t
        for v, a in iv.items():
            t = subst(t, v, a)
        if t == o:
            break
    return geo(t)


def match(t, pat, f, u, ps):
    """True / False / None: does the term have the shape of the pattern"""
    t = geo(t)
    while isinstance(t, tuple) and t and t[0] == 'app' and len(t[2]) == 1 and t[1].replace('new ', '').split('::')[-1] in ('A', 'DataSet', 'vector', 'move'):
        t = geo(t[2][0])
    names = {geo(x) for x in ps}
    if isinstance(pat, int):
        if t == geo(ps[pat]):
            return True
        return False if t in names or is_num(t) or (isinstance(t, tuple) and t and t[0] in ('rows', 'cols', 'app', 'dtab')) or simple(t, names) else None
    if pat[0] == 'k':
        return True if t == pat[1] else (False if is_num(t) or t in names else None)
    if pat[0] in ('rows', 'cols', 'n'):
        D = geo(ps[pat[1]]) if isinstance(pat[1], int) else None
        if D is None:
            # rows of a table of distances
            return None
        want = [('rows', D)] if pat[0] == 'rows' else [('cols', D)] if pat[0] == 'cols' else [('rows', D), ('cols', D)]
        if t in want:
            return True
        if isinstance(t, tuple) and t and t[0] in ('rows', 'cols') and isinstance(t[1], tuple) and t[1][0] == 'app':
            return None
        if isinstance(t, tuple) and t and t[0] == 'size' and isinstance(t[1], tuple) and t[1][0] == 'app' and 'edges' in short(t[1][1]):
            return False
        return False if simple(t, names) or (isinstance(t, tuple) and t and t[0] in ('rows', 'cols') and t[1] in names) else None
    if pat[0] == 'size':
        return True if t == ('size', geo(ps[pat[1]]), 0) else (False if simple(t, names) else None)
    if pat[0] == 'dtab':
        if isinstance(t, tuple) and t and t[0] == 'dtab':
            r = [match(x, y, f, u, ps) for x, y in zip(t[1:], pat[1:])]
            return False if False in r else None if None in r else True
        return None
    if pat[0] == 'or':
        r = [match(t, x, f, u, ps) for x in pat[1:]]
        return True if True in r else None if None in r else False
    if pat[0] == 'add':
        return True if t == add(geo(ps[pat[1]]), pat[2]) else (False if simple(t, names) else None)
    if pat[0] == 'call':
        if not (isinstance(t, tuple) and t and t[0] == 'app'):
            return None
        if short(t[1]) != pat[1]:
            return False if short(t[1]) in VOC and len(t[2]) == len(pat[2]) else None
        if len(t[2]) != len(pat[2]):
            return None
        r = [match(x, y, f, u, ps) for x, y in zip(t[2], pat[2])]
        return False if False in r else None if None in r else True


def simple(t, names):
    """numbers, parameters and their sizes only"""
    for m, c in poly(t).items():
        for x in m:
            if not (x in names or (isinstance(x, tuple) and x and x[0] in ('rows', 'cols', 'size') and x[1] in names)):
                return False
    return True


RE = lambda *a: ('call', 'rips_edges', list(a))
FE = lambda *a: ('call', 'rips_filtration_edges', list(a))
WRAP = [
    ('RipsComplex', 'Dxrz', [('call', 'FlagComplex', [RE(0, 1, 2), ('rows', 0), 3])]),
    ('RipsComplex', 'Mrz', [('call', 'FlagComplex', [RE(0, 1), ('n', 0), 2])]),
    ('RipsFiltration', 'Dxrz', [('call', 'FlagFiltration', [FE(0, 1, 2), ('rows', 0), 3, ('k', 0)])]),
    ('RipsFiltration', 'Mrz', [('call', 'FlagFiltration', [FE(0, 1), ('n', 0), 2, ('k', 0)])]),
    ('RipsFiltration', 'DCxrz', [('call', 'FlagFiltration', [FE(0, 1, 2, 3), ('rows', 0), 4, ('k', 0)])]),
    ('RipsFiltration_extension', 'Dxrz', [('call', 'FlagFiltration_extension', [FE(0, 1, 2), ('rows', 0), 3, ('k', 0)])]),
    ('RipsFiltration_extension', 'Mrz', [('call', 'FlagFiltration_extension', [FE(0, 1), ('n', 0), 2, ('k', 0)])]),
    ('DowkerFiltration', 'Mrz', [('call', 'FlagFiltration', [('call', 'flag_filtration_edges', [('call', 'dowker_edge_param', [0]), 1]), ('rows', 0), 2, ('k', 0)])]),
    ('DowkerFiltration', 'DDxrz', [('call', 'DowkerFiltration', [('dtab', 0, 1), 3, 4])]),
    ('DowkerFiltration', 'MCrz', [('call', 'FlagFiltration', [('call', 'dowker_filtration_edges', [0, 1, 2]), ('rows', 0), 3, ('k', 0)])]),
    ('DowkerFiltration', 'DDxCrz', [('call', 'DowkerFiltration', [('dtab', 0, 1), 3, 4, 5])]),
    ('WitnessFiltration', 'DDxrz', [('call', 'FlagFiltration', [('call', 'flag_filtration_edges', [('call', 'witness_edge_param', [1, 0, 2, ('k', 0)]), 3]), ('rows', 0), 4, ('k', 0)])]),
    ('WitnessComplex', 'DDxzrz', [('call', 'RipsComplex', [('call', 'witness_edge_param', [0, 1, 2, 3]), 4, 5])]),
    ('witness_neighborhoods', 'DDxzr', [('call', 'neighborhoods', [('call', 'witness_edge_param', [0, 1, 2, 3]), 4])]),
    ('StrictWitnessComplex', 'DDxzrz', [('call', 'Nerve', [('call', 'witness_neighborhoods', [0, 1, 2, 3, 4]), 5])]),
]


def wrappers(ctx, u):
    for nm, sig, pats in WRAP:
        for f in once(ctx, inst(u, NS + nm, lambda f: kinds(f, u) == sig)):
            ctx.function(f)
            ctx.count("wrappers")
            ps = [par(f, i, u) for i in range(len(f.d['ps']))]
            # a point cloud or matrix parameter is an object
            for p in geng(u, f).run(f):
                if p.exit != 'ret' or p.val is None:
                    continue
                t = resolved(p.val, ivals(p.trace))
                r = [match(t, x, f, u, ps) for x in pats]
                if True in r:
                    ctx.check(True, 'wrapper', f.loc(), '', nm)
                elif None in r:
                    ctx.count("wrappers not recognised")
                else:
                    ctx.bad('wrapper', f.loc(), '%s builds %s' % (nm, show(t)[:200]), '%s:%s' % (nm, sig))


# --------------------------------------------------------------------------- tables
def lockstep(L, sy, t):
    """t with every other counter of the loop that runs together with sy replaced by sy"""
    if L is None:
        return t
    cs = counters(L)
    me = [c for c in cs.values() if c[0] == sy]
    if not me:
        return t
    for c in cs.values():
        if c[0] != sy and c[1] is not None:
            s0, s1 = (c[1], me[0][1])
            if c[2] == me[0][2] == 1 and is_num(sub(unld(s0), unld(s1))):
                t = subst(t, c[0], add(sy, sub(unld(s0), unld(s1))))
    return t


def region(rs, row, col, nrow, ncol):
    """part of the table met: subset of '<=>' by comparing row and column, 'all' for the full rectangle,
    a text for a provable gap, None when unknown"""
    sr = [r for r in rs if r[1] is not None and r[1] == row]
    sc = [r for r in rs if r[1] is not None and r[1] == col]
    if row == col and sr:
        L, s, lo, hi = sr[0]
        return {'='} if lo == 0 and hi in nrow else None
    if not sr or not sc:
        return None
    (_, s1, lo1, hi1), (_, s2, lo2, hi2) = sr[0], sc[0]
    dep1, dep2 = vardep(lo1, s2) or vardep(hi1, s2), vardep(lo2, s1) or vardep(hi2, s1)
    if not dep1 and not dep2:
        if lo1 == 0 and hi1 in nrow and lo2 == 0 and hi2 in ncol:
            return {'<', '=', '>'}
        okp = all(all(x in nrow + ncol for x in m) for t in (lo1, hi1, lo2, hi2) for m in poly(t))
        return 'only the entries [%s..%s] x [%s..%s]' % (show(lo1), show(sub(hi1, 1)), show(lo2), show(sub(hi2, 1))) if okp else None
    if dep1 and dep2:
        return None
    # the inner one depends on the outer one
    (so, loo, hio, no), (si, loi, hii, ni) = ((s2, lo2, hi2, ncol), (s1, lo1, hi1, nrow)) if dep1 else ((s1, lo1, hi1, nrow), (s2, lo2, hi2, ncol))
    if not (loo == 0 or loo == 1) or not any(hio == add(n, k) for n in no for k in (0, -1)):
        return None
    r = None
    if loi == 0 and hii == so:
        r = {'<'} if hio in no else None                    # inner < outer
    elif loi == 0 and hii == add(so, 1):
        r = {'<', '='} if hio in no and loo == 0 else None
    elif loi == so and hii in ni:
        r = {'>', '='} if loo == 0 and hio in no else None
    elif loi == add(so, 1) and hii in ni:
        r = {'>'} if loo == 0 else None
    if r is None:
        return None
    if not dep1:                                            # the outer loop runs over the rows
        r = {{'<': '>', '>': '<', '=': '='}[x] for x in r}
    return r


def tablewrites(paths, T, rows2=False):
    """[(row, column, value, ranges, path, line)] of a matrix, or (index, None, ...) of a vector"""
    out = []
    for q, ctxl in all_paths(paths):
        if not ctxl:
            continue
        last = {}
        for e in q.trace:
            if isinstance(e, Ev) and e.k == 'set' and e.obj is not None and e.args:
                o = geo(e.obj)
                if isinstance(o, tuple) and o and o[0] == 'ent' and o[1] == T:
                    last[o] = (o[2], o[3], geo(e.args[0]), ranges(ctxl), q, e.line)
                elif isinstance(o, tuple) and o and o[0] == 'ix' and o[1] == T:
                    last[o] = (o[2], None, geo(e.args[0]), ranges(ctxl), q, e.line)
        out += last.values()
    return out


def made(p, v):
    """arguments of the constructor of a local"""
    for it in p.trace:
        if isinstance(it, Ev) and it.k == 'set' and it.name == 'init' and unld(it.obj) == v:
            a = geo(it.args[0])
            if isinstance(a, tuple) and a and a[0] == 'app' and a[1].startswith('new '):
                return list(a[2])
    return None


def tables(ctx, u):
    for f in once(ctx, inst(u, NS + 'AbstractMetric::operator()')):
        kd = kinds(f, u)
        if kd not in ('pD', 'DD', 'D', 'pp'):
            continue
        ctx.function(f)
        ctx.count("tables")
        P = [geo(par(f, i, u)) for i in range(len(kd))]
        k0 = 'distances:' + kd
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            v = unld(p.val)
            if kd == 'pp':
                g = sym2(geo(v))
                if isinstance(g, tuple) and g[0] == 'd':
                    ctx.check(g == sym2(('d', P[0], P[1])), 'table', f.loc(), 'the distance of two points is %s' % show(g), k0)
                continue
            A, B = (P[0], P[0]) if kd == 'D' else (P[0], P[1])
            ws = tablewrites([p], geo(v))
            if not ws:
                ctx.count("tables not recognised")
            met, odd = set(), not ws
            for row, col, val, rs, q, line in ws:
                if kd != 'pD':
                    r = region(rs, row, col, [('rows', A)], [('rows', B)])
                    if isinstance(r, set):
                        met |= r
                    elif r is None:
                        odd = True
            if kd != 'pD' and not odd:
                gap = {'<', '>'} - met if A == B else {'<', '=', '>'} - met
                ctx.check(not gap, 'table', f.loc(), 'the distance table is filled at row %s column only' % ' and '.join(sorted(met)), k0 + ':whole')
            for row, col, val, rs, q, line in ws:
                if kd == 'pD':
                    sy = [r for r in rs if r[1] == row]
                    if not sy:
                        ctx.count("tables not recognised")
                        continue
                    if sy[0][2] == 0 and sy[0][3] == ('rows', B):
                        ctx.check(True, 'table', f.loc(line), '', k0)
                    elif simple(sy[0][2], {A, B}) and simple(sy[0][3], {A, B}):
                        ctx.bad('table', f.loc(line), 'the distances of a point are written at %s..%s' % (show(sy[0][2]), show(sub(sy[0][3], 1))), k0)
                    want = sym2(('d', A, ('pt', B, row)))
                else:
                    r = region(rs, row, col, [('rows', A)], [('rows', B)])
                    if r is None and kd == 'DD':
                        r = region(rs, col, row, [('rows', B)], [('rows', A)])
                        r = None if r is not None else r
                    if isinstance(r, str):
                        ctx.bad('table', f.loc(line), 'the distance table holds %s' % r, k0)
                        continue
                    if r is None:
                        ctx.count("tables not recognised")
                        continue
                    want = sym2(('d', ('pt', A, row), ('pt', B, col)))
                g = sym2(val)
                if not (isinstance(g, tuple) and g and g[0] == 'd'):
                    if not (isinstance(g, tuple) and g and g[0] in ('ent', 'ix')):
                        if is_num(g):
                            ctx.check(row == col and A == B, 'table', f.loc(line), 'the distance at (%s, %s) is %s' % (show(row), show(col), show(g)), k0)
                        else:
                            ctx.count("tables not recognised")
                    continue
                ctx.check(g == want, 'table', f.loc(line), 'entry (%s%s) of the distance table is %s' % (show(row), '' if col is None else ', ' + show(col), show(val)), k0)
            m = made(p, v)
            if m and kd != 'pD' and len(m) >= 2:
                ctx.check((m[0], m[1]) == (('rows', A), ('rows', B)) or not (simple(m[0], {A, B}) and simple(m[1], {A, B})), 'table', f.loc(), 'the distance table is %s x %s' % (show(m[0]), show(m[1])), k0 + ':size')
    # symmetric table of Dowker parameters
    for f in once(ctx, inst(u, NS + 'dowker_edge_param', lambda f: kinds(f, u) == 'M')):
        ctx.function(f)
        ctx.count("tables")
        M = geo(par(f, 0, u))
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            T = geo(p.val)
            ws = tablewrites([p], T)
            N = [('rows', M)]
            direct, copied, unknown = set(), set(), not ws
            for row, col, val, rs, q, line in ws:
                r = region(rs, row, col, N, N)
                if r is None or isinstance(r, str):
                    if isinstance(r, str):
                        ctx.bad('table', f.loc(line), 'the Dowker table holds %s' % r, 'dowker')
                    unknown = True
                    continue
                if isinstance(val, tuple) and val and val[0] == 'app' and val[1].endswith('dowker_edge_param') and len(val[2]) == 3:
                    ctx.check(val[2] in ((M, row, col), (M, col, row)), 'table', f.loc(line), 'entry (%s, %s) of the Dowker table is that of %s, %s' % (show(row), show(col), show(val[2][1]), show(val[2][2])), 'dowker')
                    direct |= r
                elif isinstance(val, tuple) and val and val[0] == 'ent' and val[1] == T:
                    ctx.check(val[2:] == (col, row), 'table', f.loc(line), 'entry (%s, %s) of the Dowker table copies (%s, %s)' % (show(row), show(col), show(val[2]), show(val[3])), 'dowker')
                    copied |= r
                else:
                    unknown = True
                    ctx.count("tables not recognised")
            if not unknown:
                flip = {{'<': '>', '>': '<', '=': '='}[x] for x in direct}
                ctx.check(copied <= flip, 'table', f.loc(), 'the Dowker table copies entries that are never computed', 'dowker')
                ctx.check(direct | copied == {'<', '=', '>'}, 'table', f.loc(), 'the Dowker table leaves entries unset', 'dowker')
    # witness parameters
    for f in once(ctx, inst(u, NS + 'witness_edge_param', lambda f: kinds(f, u) == 'DDxz')):
        ctx.function(f)
        ctx.count("tables")
        PS = [par(f, i, u) for i in range(4)]
        Xd, Ld = geo(PS[0]), geo(PS[1])
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            iv = ivals(p.trace)
            v = geo(p.val)
            if not (isinstance(v, tuple) and v[0] == 'app' and v[1].endswith('dowker_edge_param') and len(v[2]) == 1):
                ctx.count("tables not recognised")
                continue
            T = v[2][0]
            init = geo(iv.get(unld(T), 0))
            if isinstance(init, tuple) and init and init[0] == 'dtab':
                ctx.check(init == ('dtab', Ld, Xd), 'table', f.loc(), 'witness parameters start from the distances %s' % show(init), 'witness')
            ws = tablewrites([p], T)
            if not ws:
                ctx.bad('table', f.loc(), 'witness parameters do not subtract the nearest distances', 'witness') if not any(isinstance(it, Loop) for it in p.trace) else ctx.count("tables not recognised")
            for row, col, val, rs, q, line in ws:
                r = region(rs, row, col, [('rows', T), ('rows', Ld)], [('cols', T), ('rows', Xd)])
                if isinstance(r, str):
                    ctx.bad('table', f.loc(line), 'witness parameters are computed for %s' % r, 'witness')
                elif r is None or r != {'<', '=', '>'}:
                    ctx.count("tables not recognised")
                    continue
                ms = [s for s in subterms(val) if isinstance(s, tuple) and s and s[0] == 'ix' and isinstance(s[1], tuple) and s[1] and s[1][0] == 'app' and s[1][1].endswith('get_m')]
                cm = [s for c in q.trace if isinstance(c, Cond) for s in subterms(geo(c.t)) if isinstance(s, tuple) and s and s[0] == 'ix' and isinstance(s[1], tuple) and s[1] and s[1][0] == 'app' and s[1][1].endswith('get_m')]
                for m in ms + cm:
                    ctx.check(m[2] == col, 'table', f.loc(line), 'witness parameters of column %s subtract the distance of column %s' % (show(col), show(m[2])), 'witness')
                    ctx.check(m[1][2][1] == geo(PS[3]), 'table', f.loc(line), 'witness parameters subtract the %s-th distance' % show(m[1][2][1]), 'witness')
                e = ('ent', T, row, col)
                val, b = unclamp(val)
                fa = gfacts(q.trace)
                if val == 0:
                    ok = [m for m in cm if fa.holds('<', 0, sub(e, m)) is False or fa.holds('<', e, m) is True or fa.holds('<', sub(e, m), 0) is True]
                    if cm:
                        ctx.check(bool(ok), 'table', f.loc(line), 'a witness parameter is 0 when %s' % showconds(q)[:120], 'witness:clamp')
                elif ms and val == sub(e, ms[0]):
                    ok = ('lo', 0) in b or fa.holds('<', 0, val) is True or fa.holds('<', val, 0) is False or fa.holds('<', e, ms[0]) is False
                    ctx.check(ok, 'table', f.loc(line), 'a witness parameter may be negative', 'witness:clamp')
                elif ms and all(s == e or s == ms[0] or not (isinstance(s, tuple) and s and s[0] in ('ent',)) for s in subterms(val)) and not b:
                    ctx.bad('table', f.loc(line), 'a witness parameter is %s' % show(val)[:100], 'witness')
                else:
                    ctx.count("tables not recognised")
    for f in once(ctx, inst(u, NS + 'kdist', lambda f: kinds(f, u) == 'Dxz')):
        ctx.function(f)
        ctx.count("tables")
        D, K = geo(par(f, 0, u)), geo(par(f, 2, u))
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            T = geo(p.val)
            iv = ivals(p.trace)
            for row, _, val, rs, q, line in tablewrites([p], T):
                sy = [r for r in rs if r[1] == row]
                ne = [e for e in q.trace if isinstance(e, Ev) and short(e.name) == 'nth_element']
                if not sy or len(ne) != 1 or not (isinstance(val, tuple) and val and val[0] == 'ix'):
                    ctx.count("tables not recognised")
                    continue
                ctx.check(sy[0][2] == 0 and sy[0][3] == ('rows', D), 'table', f.loc(line), 'kdist covers the points %s..%s' % (show(sy[0][2]), show(sub(sy[0][3], 1))), 'kdist')
                C = val[1]
                a = [geo(x) for x in ne[0].args]
                ctx.check(a[0] == ('it', C, 0) and a[2] == ('it', C, ('size', C, 0)), 'table', f.loc(line), 'kdist orders %s..%s' % (show(a[0]), show(a[2])), 'kdist')
                ctx.check(a[1] == ('it', C, K) and val[2] == K, 'table', f.loc(line), 'kdist takes entry %s of values ordered at %s' % (show(val[2]), show(a[1])), 'kdist')
                inner = [(i2, v2, rs2) for i2, _, v2, rs2, q2, l2 in tablewrites([p], C)]
                for i2, v2, rs2 in inner:
                    v2 = resolved(v2, iv)
                    s2 = [r for r in rs2 if r[1] == i2]
                    if s2:
                        ctx.check(s2[0][2] == 0 and s2[0][3] in (('rows', D), ('size', C, 0)), 'table', f.loc(line), 'kdist looks at the distances %s..%s' % (show(s2[0][2]), show(sub(s2[0][3], 1))), 'kdist')
                    if isinstance(v2, tuple) and v2 and v2[0] == 'ent':
                        ctx.check(set(v2[2:]) == {i2, row}, 'table', f.loc(line), 'kdist of point %s uses the distance (%s, %s)' % (show(row), show(v2[2]), show(v2[3])), 'kdist')


# --------------------------------------------------------------------------- minima and maxima
def loops_in(paths):
    return [L for L, p, c in loops_of(paths)]


def folds(ctx, u):
    for f in once(ctx, inst(u, NS + 'dowker_edge_param', lambda f: kinds(f, u) == 'Mzz')):
        ctx.function(f)
        ctx.count("folds")
        M, i, j = [geo(par(f, n, u)) for n in range(3)]
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            r = fold2(p, p.val)
            if r is None:
                ctx.count("folds not recognised")
                continue
            op, terms, start, L = r
            ctx.check(op == 'min', 'fold', f.loc(), 'a Dowker parameter is a %simum over the witnesses' % op, 'dowkerfold')
            if start is not None:
                ctx.check(neutral(start) in ('max', 'infinity'), 'fold', f.loc(), 'the minimum over the witnesses starts at %s' % show(start), 'dowkerfold:start')
            tr = trip(L)
            if tr:
                lo, hi = geo(tr[1]), geo(tr[2])
                if simple(lo, {M, i, j}) and simple(hi, {M, i, j}):
                    ctx.check(lo == 0 and hi == ('cols', M), 'fold', f.loc(L.line), 'a Dowker parameter looks at the witnesses %s..%s' % (show(lo), show(sub(hi, 1))), 'dowkerfold:range')
                sets = set()
                for t in terms:
                    if isinstance(t, tuple) and t and t[0] == 'ent' and t[1] == M and t[3] == tr[0]:
                        ctx.bad('fold', f.loc(L.line), 'a Dowker parameter is the %simum of the single distances' % op, 'dowkerfold')
                        break
                    x = pairmax(t)
                    if x is None:
                        ctx.count("folds not recognised")
                        break
                    sets.add(x)
                else:
                    ents = {('ent', M, i, tr[0]), ('ent', M, j, tr[0])}
                    for o, es in sets:
                        ctx.check(o == 'max' and set(es) == ents, 'fold', f.loc(L.line), 'a Dowker parameter is taken over %s(%s)' % (o, ', '.join(sorted(show(e) for e in es))), 'dowkerfold')
    for f in once(ctx, inst(u, NS + 'enclosing_radius', lambda f: kinds(f, u) == 'M')):
        ctx.function(f)
        ctx.count("folds")
        M = geo(par(f, 0, u))
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            r = fold2(p, p.val)
            if r is None:
                ctx.count("folds not recognised")
                continue
            op, terms, start, L = r
            ctx.check(op == 'min', 'fold', f.loc(), 'the enclosing radius is a %simum of row values' % op, 'enclosing')
            if start is not None:
                ctx.check(neutral(start) in ('max', 'infinity'), 'fold', f.loc(), 'the enclosing radius starts at %s' % show(start), 'enclosing:start')
            tr = trip(L)
            if not tr or len(terms) != 1:
                ctx.count("folds not recognised")
                continue
            ctx.check(geo(tr[1]) == 0 and geo(tr[2]) in (('rows', M), ('cols', M)), 'fold', f.loc(L.line), 'the enclosing radius looks at the rows %s..%s' % (show(geo(tr[1])), show(sub(geo(tr[2]), 1))), 'enclosing:range')
            inner = None
            for q in L.paths:
                r2 = fold2(q, next(iter(terms)))
                inner = r2 or inner
            if inner is None:
                ctx.count("folds not recognised")
                continue
            op2, t2, s2, L2 = inner
            tr2 = trip(L2)
            ctx.check(op2 == 'max', 'fold', f.loc(L2.line), 'a row value of the enclosing radius is a %simum' % op2, 'enclosing:inner')
            if s2 is not None:
                ctx.check(s2 == 0 or neutral(s2) in ('lowest', '-inf'), 'fold', f.loc(L2.line), 'the maximum of a row starts at %s' % show(s2), 'enclosing:inner')
            if tr2:
                ctx.check(geo(tr2[1]) == 0 and geo(tr2[2]) in (('rows', M), ('cols', M)), 'fold', f.loc(L2.line), 'a row of the enclosing radius runs over %s..%s' % (show(geo(tr2[1])), show(sub(geo(tr2[2]), 1))), 'enclosing:range')
                for t in t2:
                    g = geo(t)
                    ctx.check(isinstance(g, tuple) and g[0] == 'ent' and set(g[2:]) == {tr[0], tr2[0]}, 'fold', f.loc(L2.line), 'the maximum of row %s uses %s' % (show(tr[0]), show(g)), 'enclosing:inner')
    # next larger distance of a column
    for f in once(ctx, inst(u, NS + 'increment_m', lambda f: kinds(f, u)[0] == 'M')):
        ctx.function(f)
        ctx.count("folds")
        M, m = geo(par(f, 0, u)), geo(par(f, 1, u))
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            for row, _, val, rs, q, line in tablewrites([p], m):
                sy = [r for r in rs if r[1] == row]
                if not sy:
                    ctx.count("folds not recognised")
                    continue
                if simple(sy[0][2], {M, m}) and simple(sy[0][3], {M, m}):
                    ctx.check(sy[0][2] == 0 and sy[0][3] in (('size', m, 0), ('cols', M)), 'fold', f.loc(line), 'increment_m moves the entries %s..%s on' % (show(sy[0][2]), show(sub(sy[0][3], 1))), 'next')
                r = next_(q, val, ('ix', m, row))
                if r is None:
                    ctx.count("folds not recognised")
                    continue
                L, ent, why = r
                tr = trip(L)
                if why:
                    ctx.bad('fold', f.loc(L.line), 'increment_m %s' % why, 'next')
                    continue
                if tr:
                    ctx.check(geo(tr[1]) == 0 and geo(tr[2]) == ('rows', M), 'fold', f.loc(L.line), 'increment_m looks at the rows %s..%s' % (show(geo(tr[1])), show(sub(geo(tr[2]), 1))), 'next')
                    ctx.check(ent == ('ent', M, tr[0], row), 'fold', f.loc(L.line), 'increment_m of column %s looks at %s' % (show(row), show(ent)), 'next')
    for f in once(ctx, inst(u, NS + 'get_m', lambda f: kinds(f, u) == 'Mz')):
        ctx.function(f)
        ctx.count("folds")
        M, nu = geo(par(f, 0, u)), geo(par(f, 1, u))
        for p in geng(u, f).run(f):
            if p.exit != 'ret':
                continue
            a = made(p, unld(p.val))
            if a and len(a) >= 2:
                ctx.check(a[0] == ('cols', M) or not simple(a[0], {M, nu}), 'fold', f.loc(), 'get_m makes room for %s columns' % show(a[0]), 'getm')
                ctx.check(a[1] == 0 or not is_num(a[1]), 'fold', f.loc(), 'get_m starts at %s' % show(a[1]), 'getm')
            for L, q, c in loops_of([p]):
                for r in L.paths:
                    n = sum(1 for e in r.trace if isinstance(e, Ev) and short(e.name) == 'increment_m')
                    if n == 0:
                        continue
                    ctx.check(n == 1, 'fold', f.loc(L.line), 'get_m moves on %d times per step' % n, 'getm')
                for d, (sy, s0, st) in counters(L).items():
                    lo = geo(s0)
                    if lo == nu and st == -1:
                        for q2 in L.exit:
                            fa = gfacts(q2.trace)
                            ok = fa.holds('<', 0, sy) is False or fa.holds('==', sy, 0) is True
                            ctx.check(ok, 'fold', f.loc(L.line), 'get_m stops when %s' % showconds(q2), 'getm')
                tr = trip(L)
                if tr and tr[3] == 1 and tr[1] is not None:
                    n = sub(geo(tr[2]), geo(tr[1]))
                    if simple(n, {nu}):
                        ctx.check(n == nu, 'fold', f.loc(L.line), 'get_m runs %s steps' % show(n), 'getm')


def fold2(p, v):
    """(op, terms, start, loop) of a value built in one loop of the path"""
    v = unld(v)
    for it in p.trace:
        if not isinstance(it, Loop):
            continue
        for d, (nm, sy) in it.syms.items():
            if sy != v:
                continue
            r = fold(v, {sy: (it, d)})
            if r is None or r[0] is None:
                r = splitfold(it, d, sy)
                if r is None:
                    return None
            op, ts = r
            st = unld(it.start[d])
            ts = {t for t in ts if t != st and t != sy}
            ts = {geo(t) for t in ts}
            return op, ts, geo(st), it
    return None


def splitfold(L, d, sy):
    """minimum or maximum written with comparisons of the new term, the term being one of several by path"""
    op, ts = None, set()
    for q in L.paths:
        if q.exit not in ('n', 'c'):
            return None
        nx = unld(q.env.get(d))
        if nx == sy:
            continue
        if isinstance(nx, tuple) and nx and nx[0] == 'app' and nx[1].split('::')[-1] in ('min', 'max') and len(nx[2]) == 2 and any(unld(x) == sy for x in nx[2]):
            o = nx[1].split('::')[-1]
            if op and o != op:
                return None
            op = o
            ts |= {unld(x) for x in nx[2] if unld(x) != sy}
            continue
        o = order(q, sy, nx)
        if o is None:
            return None
        o = {-1: 'max', 1: 'min'}.get(o)
        if o is None or (op and o != op):
            return None
        op = o
        ts.add(nx)
    return (op, ts) if op else None


def pairmax(t):
    t = unld(t)
    if isinstance(t, tuple) and t and t[0] == 'app' and t[1].split('::')[-1] in ('max', 'min'):
        es = [geo(x) for x in t[2]]
        if len(es) == 2 and all(isinstance(e, tuple) and e and e[0] == 'ent' for e in es):
            return t[1].split('::')[-1], tuple(sorted(es, key=repr))
    return None


def next_(q, val, old):
    """val is the smallest entry above old: (loop, entry, reason)"""
    for it in q.trace:
        if not isinstance(it, Loop):
            continue
        for d, (nm, sy) in it.syms.items():
            if sy != unld(val):
                continue
            st = unld(it.start[d])
            if neutral(st) not in ('max', 'infinity'):
                return (it, None, 'starts at %s' % show(st)) if is_num(st) else None
            ent = None
            for r in it.paths:
                if r.exit not in ('n', 'c'):
                    return None
                nx = geo(r.env.get(d))
                if nx == sy:
                    continue
                if not (isinstance(nx, tuple) and nx and nx[0] == 'ent'):
                    return None
                ent = nx
                fa = gfacts(r.trace)
                below = fa.holds('<', sy, nx) is False or fa.holds('<', nx, sy) is True
                above = fa.holds('<', old, nx) is True
                if not above:
                    return it, ent, 'takes entries that are not above the current value'
                if not below:
                    return it, ent, 'takes entries that are not the smallest so far'
            if ent is None:
                return None
            for r in it.paths:
                nx = geo(r.env.get(d))
                if nx == sy:
                    fa = gfacts(r.trace)
                    if fa.holds('<', old, ent) is True and fa.holds('<', ent, sy) is True:
                        return it, ent, 'passes over smaller entries'
            return it, ent, None
    return None


def run(ctx):
    u, = prog.load(['topo'])
    metrics(ctx, u)
    edgelists(ctx, u)
    wrappers(ctx, u)
    tables(ctx, u)
    folds(ctx, u)
    from rules import geom2
    geom2.run(ctx, u)
