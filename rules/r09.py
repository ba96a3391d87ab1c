"""Filtrations.  Every path that adds a cell to a filtration is followed to the place its value is written;
the flag expansions are read as: what vertex set is added in each iteration, with which value, and over
which candidates the recursion goes on; values taken over vertices or pixels are read as folds (the set of
terms a minimum or maximum ranges over, through nested loops and branches) and compared with the vertices or
incident pixels of the cell."""
from rules.common import *
from rules.r08 import eng, par, inst, uniq, field, maxdims, V, cellsource
from bx.seqs import Seqs, X, deep, trip, counters, coef, subst
from bx.folds import *

PROP = dict(
    id="R09", title="Filtrations hold the right cells, each at its own value",
    statement="Filtration::add, add_directed, add_recursive and union_add store the value they are given at the dimension and index of the very cell that was added (every cell add_recursive reports), make room for it first, return what the complex returned, and store nothing for a refused cell; zigzag filtrations do the same with entry and removal times. sublevelset(a) takes exactly the cells with value <= a, a zigzag levelset exactly the cells with an interval meeting [s0,s1]. FlagComplex, FlagFiltration, its extension variant and CompleteFlagFiltration add every vertex at t0, then every edge of the list in the order parameter, source, target at its own parameter, and with each edge every simplex it completes up to maxdim: the simplices made of the edge and common neighbours, once each, at that edge's parameter; neighbour lists stay symmetric and sorted; the extension records for each simplex the edge that gave its value. Lower-star values are the maximum over all vertices of the simplex or cube (with the vertex attaining it), gradients flow back to the vertex recorded for the birth and death simplex, zigzag extensions enter at max - eps and leave at min + eps over all vertices, and zigzag_toplex gives each cube the minimum and maximum over exactly the pixels around it.",
    over=["inputs", "histories"],
    text="all edge lists, functions and images, every maximal dimension",
    why="an index or value that is off by one cell shifts single birth or death times; tests look at a few small filtrations and at none of the zigzag, extension and image constructions",
    files=["include/filtration/filtration.hpp", "include/filtration/flag.hpp", "include/filtration/extension.hpp", "include/topology/flag.hpp", "include/topology/levelset.hpp", "include/zigzag/zigzag_filtration.hpp", "include/zigzag/extension.hpp"],
    mechanism=[("values", "Filtration::add, ZigzagFiltration::add"), ("flag expansion", "add_dimension_recursive_flag, FlagFiltration, FlagComplex"), ("extensions", "lower_star_filtration, extend_zigzag_filtration, zigzag_toplex")],
)
TECHNIQUE = "all-paths typestate of cell and value tables, abstract vertex sets, fold analysis of minima and maxima"
LEVEL = "proof"
ASSUMPTIONS = ["std containers and algorithms behave as specified", "an edge list contains each edge once and no loops"]
MINIMUM = {"writers": 5, "expansions": 3, "builders": 3, "folds": 6}

NS = 'bats::'
ADDS = ('add', 'add_directed', 'add_recursive', 'add_unsafe', 'add_safe')


# ------------------------------------------------------------------------------ writers
def initvals(items):
    """locals initialised by a call result: v -> term"""
    out = {}
    for it in items:
        if isinstance(it, Ev) and it.k == 'set' and it.name == 'init' and it.args:
            a = unld(it.args[0])
            if isinstance(a, tuple) and a and a[0] == 'app':
                out[unld(it.obj)] = a
    return out


def resolve(t, iv):
    t = unld(t)
    for v, a in iv.items():
        t = subst(t, v, a)
    return t


def addcall(it):
    """an add event on a complex: Ev or None"""
    return isinstance(it, Ev) and it.k in ('call', 'pure') and short(it.name) in ADDS and it.obj is not None and 'Filtration' not in it.name


def writers(ctx, u):
    THISX, VAL = field(('this',), 'X'), field(('this',), 'val')
    names = [('Filtration::' + n, n) for n in ('add', 'add_directed', 'add_recursive', 'union_add')] + [('zigzag::ZigzagFiltration::' + n, n) for n in ('add', 'add_recursive')]
    for full, nm in names:
        fs = inst(u, NS + full)
        seen = set()
        for f in fs:
            k0 = full.replace('zigzag::', '')
            if (f.loc(), tuple(u.type(p['t']) for p in f.d['ps'])) in seen:
                continue
            seen.add((f.loc(), tuple(u.type(p['t']) for p in f.d['ps'])))
            ctx.function(f)
            ctx.count("writers")
            zz = 'zigzag' in full
            ps = [par(f, i, u) for i in range(len(f.d['ps']))]
            for p in eng(u, f, keep=('add_directed',)).run(f):
                for q, ctxl in all_paths([p]):
                    ad = [e for e in q.trace if addcall(e) and unld(e.obj) == THISX]
                    if not ad:
                        continue
                    if q.exit == 'throw':
                        continue
                    if len(ad) > 1:
                        ctx.count("writers not recognised")
                        continue
                    e = ad[0]
                    i0 = q.trace.index(e)
                    iv = initvals(q.trace)
                    res = unld(e.res)
                    rec = nm == 'add_recursive'
                    fa = Facts()
                    for it in q.trace:
                        if isinstance(it, Cond):
                            fa.st.facts[resolve(it.t, iv)] = it.pol
                    ind = field(res, 'ind')
                    refused = fa.holds('==', ind, NO_IND)
                    items = q.trace[i0 + 1:]
                    if rec:
                        L = [it for it in items if isinstance(it, Loop) and it.rng is not None and resolve(it.rng, iv) == res]
                        L += [it for it in items if isinstance(it, Loop) and it not in L and trip(it) and trip(it)[1:] == (0, size_of(res), 1)]
                        if not L:
                            if not any(isinstance(it, Loop) for it in items):
                                ctx.bad('value', f.loc(), '%s stores no value for the cells it adds' % k0, k0)
                            else:
                                for it in items:
                                    tr = trip(it) if isinstance(it, Loop) else None
                                    if tr and any(s == size_of(res) for s in subterms(unld(tr[2]))):
                                        ctx.bad('value', f.loc(it.line), '%s stores values for the cells %s..%s only' % (k0, show(tr[1]), show(sub(tr[2], 1))), k0)
                                ctx.count("writers not recognised")
                            continue
                        for L0 in L:
                            tr = trip(L0)
                            el = ('ix', res, tr[0])
                            for r in L0.paths:
                                if r.exit not in ('n', 'c'):
                                    ctx.check(False, 'value', f.loc(L0.line), '%s stops storing values early' % k0, k0)
                                    continue
                                iv2 = dict(iv)
                                iv2.update(initvals(r.trace))
                                onecell(ctx, f, k0, r.trace, iv2, field(el, 'dim'), field(el, 'ind'), ps, zz, VAL, None)
                        ctx.check(resolve(p.val, iv) == res if p.val is not None else True, 'returns', f.loc(), '%s does not return the cells it added' % k0, k0 + ':ret')
                        continue
                    wr = writes(items, iv, VAL, zz)
                    if refused is True:
                        ctx.check(not wr, 'refused', f.loc(e.line), '%s stores a value for a refused cell' % k0, k0 + ':refused')
                        if nm != 'union_add':
                            ctx.check(p.val is not None and resolve(p.val, iv) == res, 'returns', f.loc(), '%s does not return what the complex returned' % k0, k0 + ':ret')
                        continue
                    if wr:
                        ctx.check(refused is False, 'refused', f.loc(wr[0][3]), '%s stores a value without looking whether the cell was refused' % k0, k0 + ':refused')
                    dim, src = field(res, 'dim'), None
                    if nm == 'union_add':
                        sc = cellsource(e.args[0], p)
                        if sc is None:
                            for it in q.trace:
                                if isinstance(it, Ev) and short(it.name) in ('get_simplex', 'get_cell') and len(it.args) == 3 and unld(it.args[2]) == unld(e.args[0]):
                                    sc = (unld(it.obj), unld(it.args[0]), unld(it.args[1]))
                        if sc is None:
                            ctx.count("writers not recognised")
                            continue
                        F2 = ps[0]
                        ctx.check(sc[0] == field(F2, 'X'), 'value', f.loc(e.line), 'union_add adds the cells of %s' % show(sc[0]), k0)
                        src = ('ix', ('ix', field(F2, 'val'), sc[1]), sc[2])
                        dim = (dim, sc[1])
                        if len(ctxl) == 2:
                            to, ti = trip(ctxl[0]), trip(ctxl[1])
                            if to:
                                hi = to[2]
                                md = maxdims(hi)
                                ok = to[1] == 0 and (hi == ('size', field(F2, 'val'), 0) or md == 1)
                                if md is not None or any(s == field(F2, 'val') for s in subterms(hi)):
                                    ctx.check(ok, 'coverage', f.loc(ctxl[0].line), 'union_add visits the dimensions %s..%s' % (show(to[1]), show(sub(hi, 1))), k0)
                            if ti and any(isinstance(s, tuple) and s and (s[0] == 'f' and s[2] in ('_ncells', 'val') or s[0] == 'app' and short(s[1]) == 'ncells') for s in subterms(unld(ti[2]))):
                                hi = unld(ti[2])
                                nc = isinstance(hi, tuple) and hi and hi[0] == 'app' and short(hi[1]) == 'ncells' and hi[2] in ((field(F2, 'X'), sc[1]), (F2, sc[1]))
                                ok = ti[1] == 0 and (nc or hi in (('ix', field(field(F2, 'X'), '_ncells'), sc[1]), ('size', ('ix', field(F2, 'val'), sc[1]), 0)))
                                ctx.check(ok, 'coverage', f.loc(ctxl[1].line), 'union_add visits the cells %s..%s' % (show(ti[1]), show(sub(hi, 1))), k0)
                        if any(it.exit in ('b', 'ret') for L in ctxl for it in L.paths):
                            ctx.bad('coverage', f.loc(), 'union_add stops early', k0)
                    onecell(ctx, f, k0, items, iv, dim, ind, ps, zz, VAL, src)
                    if nm != 'union_add' and p.val is not None:
                        ctx.check(resolve(p.val, iv) == res, 'returns', f.loc(), '%s does not return what the complex returned' % k0, k0 + ':ret')


def writes(items, iv, VAL, zz):
    """[(dim, index, value, line)] of the stores into the value table"""
    out = []
    for it in items:
        if not isinstance(it, Ev):
            continue
        o = resolve(it.obj, iv) if it.obj is not None else None
        if it.k == 'set' and it.name in ('=', 'init') and isinstance(o, tuple) and o[0] == 'ix' and isinstance(unld(o[1]), tuple) and unld(o[1])[0] == 'ix' and unld(unld(o[1])[1]) == VAL and not zz:
            out.append((unld(unld(o[1])[2]), unld(o[2]), resolve(it.args[0], iv), it.line))
        if zz and it.k == 'call' and short(it.name) in PUSH and isinstance(o, tuple) and o[0] == 'ix' and isinstance(unld(o[1]), tuple) and unld(o[1])[0] == 'ix' and unld(unld(o[1])[1]) == VAL:
            out.append((unld(unld(o[1])[2]), unld(o[2]), tuple(resolve(a, iv) for a in it.args), it.line))
    return out


def pairof(v):
    """the two components of a pair value"""
    if isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    if isinstance(v, tuple) and v and v[0] == 'tup':
        d = dict(v[1])
        return (d.get('first'), d.get('second')) if 'first' in d else (d.get('get0'), d.get('get1'))
    if isinstance(v, tuple) and len(v) == 2 and not isinstance(v[0], str):
        return v
    if isinstance(v, tuple) and v and v[0] in ('new', 'app') and len(v[2]) == 2:
        return v[2]
    return None


def onecell(ctx, f, k0, items, iv, dim, ind, ps, zz, VAL, src):
    dims = dim if isinstance(dim, tuple) and dim and isinstance(dim[0], tuple) and len(dim) == 2 and dim[0][0] == 'f' else (dim,)
    wr = writes(items, iv, VAL, zz)
    if not wr:
        if any(isinstance(it, Ev) and it.obj is not None and any(s == VAL for s in subterms(unld(it.obj))) and short(it.name) not in ('resize', 'emplace_back', 'push_back') for it in items) or any(isinstance(it, Loop) and any(isinstance(e, Ev) and e.k == 'set' for e in deep(it.paths[0].trace if it.paths else [])) for it in items):
            ctx.count("writers not recognised")
            return
        ctx.bad('value', f.loc(), '%s stores no value for the cell it added' % k0, k0)
        return
    ctx.check(len(wr) == 1, 'value', f.loc(wr[-1][3]), '%s stores %d values for one cell' % (k0, len(wr)), k0)
    d, i, v, ln = wr[0]
    ctx.check(d in dims and i == ind, 'value', f.loc(ln), '%s stores the value at (%s, %s) although the cell is (%s, %s)' % (k0, show(d), show(i), show(dims[0]), show(ind)), k0)
    if zz:
        pr = pairof(v)
        if pr is not None:
            ctx.check(tuple(unld(x) for x in pr) == (ps[0], ps[1]), 'value', f.loc(ln), '%s stores the interval (%s, %s)' % (k0, show(pr[0]), show(pr[1])), k0 + ':value')
    else:
        want = src if src is not None else ps[0]
        ctx.check(v == want, 'value', f.loc(ln), '%s stores %s instead of %s' % (k0, show(v), show(want)), k0 + ':value')
    # room
    room = room2 = None
    for it in items:
        if isinstance(it, Ev) and it.line == ln and writes([it], iv, VAL, zz):
            break
        for c in ([it] if isinstance(it, Cond) else [x for x in it.path.trace if isinstance(x, Cond)] if isinstance(it, Leave) else []):
            t = resolve(c.t, iv)
            if t[0] == 'cmp' and t[1] == '<':
                for a, b, pol in ((t[2], t[3], c.pol),):
                    if isinstance(a, tuple) and a[0] == 'size' and unld(a[1]) == ('ix', VAL, d) and not pol:
                        room = sub(b, i)
                    if isinstance(a, tuple) and a[0] == 'size' and unld(a[1]) == VAL and not pol:
                        room2 = sub(b, d)
        if isinstance(it, Ev) and short(it.name) == 'resize' and it.args:
            o = resolve(it.obj, iv)
            if o == ('ix', VAL, d):
                room = sub(resolve(it.args[0], iv), i)
            if o == VAL:
                room2 = sub(resolve(it.args[0], iv), d)
    if room is not None and is_num(room):
        ctx.check(room >= 1, 'room', f.loc(ln), '%s makes room for %s values only' % (k0, show(add(i, room))), k0 + ':room')
    elif room is None:
        ctx.bad('room', f.loc(ln), '%s does not make room for the value of the new cell' % k0, k0 + ':room')
    if room2 is not None and is_num(room2):
        ctx.check(room2 >= 1, 'room', f.loc(ln), '%s makes room for %s dimensions only' % (k0, show(add(d, room2))), k0 + ':room')
    elif room2 is None:
        ctx.bad('room', f.loc(ln), '%s does not make room for the dimension of the new cell' % k0, k0 + ':room')


# ------------------------------------------------------------------------------ level sets
def levelsets(ctx, u):
    VAL = field(('this',), 'val')
    TX = field(('this',), 'X')
    for nm, zz in (('Filtration::sublevelset', False), ('zigzag::ZigzagFiltration::levelset', True)):
        for f in inst(u, NS + nm)[:3]:
            ctx.function(f)
            ctx.count("writers")
            k0 = short(nm)
            ps = [par(f, i, u) for i in range(len(f.d['ps']))]
            for p in eng(u, f, drop=('ncells',)).run(f):
                for q, ctxl in all_paths([p]):
                    ad = [e for e in q.trace if addcall(e)]
                    cells = [e for e in q.trace if isinstance(e, Ev) and short(e.name) in ('get_cell', 'get_simplex', 'get_cube')]
                    lv = [L for L in ctxl]
                    if len(lv) < 2:
                        continue
                    to, ti = trip(lv[0]), trip(lv[1])
                    if to is None or ti is None:
                        ctx.count("level sets not recognised")
                        continue
                    d, i = to[0], ti[0]
                    for tr, L, want in ((to, lv[0], (('size', VAL, 0),)), (ti, lv[1], (('size', ('ix', VAL, d), 0), ('ix', field(TX, '_ncells'), d)))):
                        hi = unld(tr[2])
                        known = any(isinstance(s, tuple) and s and s[0] == 'f' and s[2] in ('_ncells', 'val', '__maxdim', '_k') for s in subterms(hi))
                        if known:
                            ctx.check(tr[1] == 0 and (hi in want or (L is lv[0] and maxdims(hi) == 1)), 'coverage', f.loc(L.line), '%s visits %s..%s' % (k0, show(tr[1]), show(sub(hi, 1))), k0)
                    cell = ('ix', ('ix', VAL, d), i)
                    fa = Facts(q.trace)
                    for e in ad:
                        src = cellsource(e.args[0], p) if e.args else None
                        if src is not None:
                            ctx.check((unld(src[1]), unld(src[2])) == (d, i), 'coverage', f.loc(e.line), '%s adds cell (%s, %s) when it looks at cell (%s, %s)' % (k0, show(src[1]), show(src[2]), show(d), show(i)), k0)
                    if not zz:
                        r = fa.holds('<', ps[0], cell)           # a < value: not in the set
                        e = fa.holds('==', ps[0], cell)
                        g = fa.holds('<', cell, ps[0])
                        if q.exit not in ('n', 'c') or len(ctxl) != 2:
                            continue
                        inside = (r is False) or g is True or e is True
                        outside = r is True or (g is False and e is False)
                        if not any(any(s == cell for s in subterms(unld(c.t))) for c in conds(q)):
                            ctx.count("level sets not recognised")
                            continue
                        if ad:
                            ctx.check(inside, 'levelset', f.loc(ad[0].line), '%s adds a cell without value <= a (%s)' % (k0, showconds(q)), k0)
                        else:
                            ctx.check(outside, 'levelset', f.loc(lv[1].line), '%s leaves out a cell with value <= a (%s)' % (k0, showconds(q)), k0)
                    else:
                        iv = [L for L in ctxl[2:]]
                        el = None
                        for L in iv:
                            tr = trip(L)
                            if tr and (unld(tr[2]) == ('size', cell, 0)):
                                el = ('ix', cell, tr[0])
                        if el is None:
                            if len(ctxl) == 2 and conds(q) and not any(isinstance(it, Loop) for it in q.trace):
                                el = ('ix', cell, 0)
                                if any(any(s == el for s in subterms(unld(c.t))) for c in conds(q)):
                                    ctx.bad('levelset', f.loc(lv[1].line), '%s looks at the first interval of a cell only' % k0, k0)
                            continue
                        lo = fa.holds('<', ps[1], field(el, 'first'))       # enters after the window
                        hi = fa.holds('<', field(el, 'second'), ps[0])      # left before the window
                        if lo is None:
                            g = fa.holds('<', field(el, 'first'), ps[1])
                            lo = None if g is None else not g
                        if hi is None:
                            g = fa.holds('<', ps[0], field(el, 'second'))
                            hi = None if g is None else not g
                        if q.exit == 'throw':
                            continue
                        if ad:
                            ctx.check(lo is False and hi is False, 'levelset', f.loc(ad[0].line), '%s adds a cell whose interval need not meet the window (%s)' % (k0, showconds(q)), k0)
                            if q.exit in ('n', 'c'):
                                pass
                        else:
                            lo_ = fa.holds('<', ps[1], field(el, 'first'))
                            hi_ = fa.holds('<', field(el, 'second'), ps[0])
                            ctx.check(lo_ is True or hi_ is True, 'levelset', f.loc(iv[-1].line), '%s leaves out a cell whose interval may meet the window (%s)' % (k0, showconds(q)), k0)


# ------------------------------------------------------------------------------ vertex sets
def minmax(a, b):
    """(x, y) if a is min(x, y) and b is max(x, y)"""
    if all(isinstance(t, tuple) and t and t[0] == 'app' and len(t[2]) == 2 for t in (a, b)) and short(a[1]) == 'min' and short(b[1]) == 'max' and {key(x) for x in a[2]} == {key(x) for x in b[2]}:
        return tuple(unld(x) for x in a[2])
    return None


class Bags:
    """contents of the vertex vectors: (tuple of items, sorted); items ('all', C) or ('el', t); None unknown"""

    def __init__(self):
        self.env = {}

    def get(self, t):
        t = unld(t)
        if t in self.env:
            return self.env[t]
        if isinstance(t, tuple) and t and t[0] in ('list',):
            return [('el', unld(x)) for x in t[1]], False
        if isinstance(t, tuple) and t and t[0] in ('new', 'app') and 'vector' in t[1] and t[2] and isinstance(t[2][0], tuple) and t[2][0][0] == 'list':
            return [('el', unld(x)) for x in t[2][0][1]], False
        if isinstance(t, tuple) and t and t[0] == 'v':
            return [('all', t)], True
        return None

    def copy(self):
        b = Bags()
        b.env = {k: (None if v is None else (list(v[0]), v[1])) for k, v in self.env.items()}
        return b

    def item(self, it):
        if not isinstance(it, Ev):
            if isinstance(it, Loop):
                for q in it.paths:
                    for e in deep(q.trace):
                        if isinstance(e, Ev) and e.obj is not None and unld(e.obj) in self.env and short(e.name) in PUSH + ('pop_back', 'clear', 'resize', 'insert', 'erase'):
                            self.env[unld(e.obj)] = None
                        if isinstance(e, Ev) and e.k == 'set':
                            o = unld(e.obj)
                            if isinstance(o, tuple) and o[0] == 'ix' and unld(o[1]) in self.env:
                                g = self.env[unld(o[1])]
                                self.env[unld(o[1])] = ([('el', None)] * len(g[0]), False) if g is not None and all(x[0] == 'el' for x in g[0]) else None
            return
        o = unld(it.obj) if it.obj is not None else None
        n = short(it.name)
        if it.k == 'set':
            if it.name == 'init' and it.args:
                a = unld(it.args[0])
                if isinstance(a, tuple) and a and a[0] in ('new', 'app') and 'vector' in a[1]:
                    x = a[2][0] if a[2] else None
                    if x is None or isinstance(x, tuple) and x and x[0] in ('new', 'app') and 'allocator' in x[1]:
                        self.env[o] = ([], True)
                    elif is_num(x) and not (isinstance(x, bool)):
                        self.env[o] = ([('el', None)] * int(x), False)
                    elif isinstance(x, tuple) and x[0] == 'list':
                        self.env[o] = ([('el', unld(y)) for y in x[1]], False)
                    elif isinstance(x, tuple) and x[0] == 'it' and len(a[2]) > 1 and isinstance(a[2][1], tuple) and a[2][1][0] == 'it' and x[2] == 0 and unld(x[1]) == unld(a[2][1][1]) and a[2][1][2] == size_of(x[1]):
                        g = self.get(x[1])
                        self.env[o] = None if g is None else (list(g[0]), g[1])
                    else:
                        g = self.get(x) if len(a[2]) == 1 or True and isinstance(x, tuple) and x and x[0] == 'v' else None
                        self.env[o] = None if g is None else (list(g[0]), g[1])
                elif isinstance(a, tuple) and a and a[0] in ('v', 'list'):
                    g = self.get(a)
                    self.env[o] = None if g is None else (list(g[0]), g[1])
                return
            if isinstance(o, tuple) and o and o[0] == 'ix' and unld(o[1]) in self.env:
                g, k = self.env[unld(o[1])], unld(o[2])
                if g is not None and is_num(k) and all(x[0] == 'el' for x in g[0]) and 0 <= k < len(g[0]):
                    g[0][int(k)] = ('el', unld(it.args[0]))
                    self.env[unld(o[1])] = (g[0], len(g[0]) == 2 and minmax(g[0][0][1], g[0][1][1]) is not None)
                else:
                    self.env[unld(o[1])] = None
                return
            if it.name == '=' and it.args:
                g = self.get(it.args[0])
                if isinstance(o, tuple) and o and o[0] == 'v':
                    self.env[o] = None if g is None else (list(g[0]), g[1])
            return
        if it.k not in ('call', 'pure'):
            return
        if n == 'sort_into' and len(it.args) >= 2:
            g = self.get(it.args[0])
            self.env[unld(it.args[1])] = None if g is None else (list(g[0]), True)
        elif n in ('sort', 'stable_sort') and it.args:
            a = it.args[0]
            if isinstance(a, tuple) and a[0] == 'it':
                C = unld(a[1])
                g = self.get(C)
                whole = a[2] == 0 and isinstance(it.args[1], tuple) and it.args[1][0] == 'it' and unld(it.args[1][2]) == size_of(C)
                if g is not None:
                    self.env[C] = (list(g[0]), whole or g[1])
        elif it.name.startswith('std::vector') and o is not None:
            g = self.get(o)
            if n in ('push_back', 'emplace_back'):
                self.env[o] = None if g is None else (g[0] + [('el', unld(it.args[0]))], False)
            elif n == 'pop_back':
                if g is not None and g[0] and g[0][-1][0] == 'el':
                    left = g[0][:-1]
                    self.env[o] = (left, left == [('all', o)] or g[1])
                else:
                    self.env[o] = None
            elif n == 'clear':
                self.env[o] = ([], True)
            elif n == 'resize' and it.args:
                k = unld(it.args[0])
                if g is not None and is_num(k) and all(x[0] == 'el' for x in g[0]):
                    self.env[o] = ((g[0] + [('el', None)] * 8)[:int(k)] if k < 8 else None, False)
                elif g is not None and k == sub(size_of(o), 1) and g[0] and g[0][-1][0] == 'el':
                    self.env[o] = (g[0][:-1], True)
                elif g is not None and k == size_of(o) or not any(isinstance(x, tuple) and x and x[0] == 'size' for x in subterms(k)):
                    self.env[o] = None
                else:
                    self.env[o] = None
            elif n in ('insert', 'emplace') and len(it.args) == 2:
                pos = it.args[0]
                okpos = isinstance(pos, tuple) and any(isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) in ('lower_bound', 'upper_bound') for s in subterms(pos))
                self.env[o] = None if g is None else (g[0] + [('el', unld(it.args[1]))], okpos and g[1])
            elif n == 'operator=' and it.args:
                h = self.get(it.args[0])
                self.env[o] = None if h is None else (list(h[0]), h[1])
            elif n == 'assign' and len(it.args) == 2 and all(isinstance(a, tuple) and a[0] == 'it' for a in it.args) and it.args[0][2] == 0:
                h = self.get(it.args[0][1])
                self.env[o] = None if h is None else (list(h[0]), h[1])


def bagkey(items):
    return sorted((str(k), key(t) if t is not None else '') for k, t in items)


def showbag(b):
    return '{%s}' % ', '.join(('' if k == 'el' else 'all of ') + (show(t) if t is not None else '?') for k, t in b)


EXP = ('add_dimension_recursive_flag', 'add_dimension_recursive_flag_extension', 'add_dimension_recursive_flag_unsafe')


def feng(u, f):
    return Engine(u, vocab=lambda n, x: short(n) in ('sort_into', 'intersect_sorted', 'intersect_sorted_lt', 'has_intersect_sorted_lt', 'add', 'add_unsafe', 'add_directed', 'add_recursive') or (short(n) in EXP) or la_mutator(n, x), maxpaths=20000)


def fargs(u, f):
    """names of the parameters of an expansion by role, from the types and the order"""
    r = {}
    vecs = []
    szs = []
    for i, p in enumerate(f.d['ps']):
        t = u.type(p['t']).replace('const ', '')
        v = par(f, i, u)
        if i == 0:
            r['X'] = (i, v)
        elif 'vector<std::vector' in t or 'vector<std::set' in t:
            if 'nbrs' not in r:
                r['nbrs'] = (i, v)
            else:
                r['inds'] = (i, v)
        elif 'vector<' in t:
            vecs.append((i, v))
        elif t.startswith('unsigned long') or t.startswith('size_t'):
            szs.append((i, v))
        elif 'value' not in r:
            r['value'] = (i, v)
    if len(vecs) >= 2 and len(szs) >= 2:
        r['iter'], r['spx'] = vecs[0], vecs[1]
        r['d'], r['maxd'] = szs[0], szs[1]
        if len(szs) > 2:
            r['edge'] = szs[2]
    return r


def cellsize(t, bag, var):
    """number of vertices - 1 = index of the table the extension writes"""
    return None


def expansions(ctx, u):
    """returns the set of expansions that add nothing when d > maxd"""
    safe = {}
    for nm in EXP:
        fs = [f for f in inst(u, NS + nm)]
        seen = set()
        for f in fs:
            tk = (f.loc(), tuple(u.type(p['t']) for p in f.d['ps'])[:1])
            if tk in seen:
                continue
            seen.add(tk)
            r = fargs(u, f)
            if 'spx' not in r or 'nbrs' not in r:
                ctx.count("expansions not recognised")
                continue
            ctx.function(f)
            ctx.count("expansions")
            k0 = nm + ('[filtration]' if 'Filtration' in u.type(f.d['ps'][0]['t']) else '')
            paths = feng(u, f).run(f)
            oksafe = True
            for p in paths:
                fa0 = Facts(p.trace)
                d, M = r['d'][1], r['maxd'][1]
                eq, lt, gt = fa0.holds('==', d, M), fa0.holds('<', d, M), fa0.holds('<', M, d)
                # what the path says about d and maxd
                if eq is True:
                    rel_ = 0
                elif lt is True or (gt is False and eq is False):
                    rel_ = -1
                elif gt is True or (lt is False and eq is False):
                    rel_ = 1
                elif eq is False:
                    rel_ = -2          # different: below, if callers never pass more
                elif gt is False:
                    rel_ = -3          # at most
                else:
                    rel_ = None
                if any(isinstance(it, Loop) for it in p.trace):
                    if rel_ in (1,):
                        ctx.bad('maxdim', f.loc(), '%s adds cells above the maximal dimension' % k0, k0 + ':maxd')
                    if rel_ in (None, -2):
                        oksafe = False
                elif rel_ in (0, -1, -2) and p.exit == 'ret' and not any(isinstance(it, Loop) for it in p.trace):
                    # nothing added although the dimension is allowed
                    em = fa0.empty(r['iter'][1])
                    ctx.check(em is True, 'expansion', f.loc(), '%s adds nothing although the dimension is allowed' % k0, k0)
                tops = [it for it in p.trace if isinstance(it, Loop)]
                for L in tops:
                    expand_loop(ctx, u, f, r, k0, p, L, rel_, fa0)
            kk = nm + ('' if len(f.d['ps']) > 6 else '#')
            safe[kk] = safe.get(kk, True) and oksafe
    return safe


def expand_loop(ctx, u, f, r, k0, p, L, rel0, fa0):
    tr = trip(L)
    I = r['iter'][1]
    if tr is None:
        ctx.count("expansions not recognised")
        return
    whole = unld(tr[2]) == size_of(I) and tr[1] == 0 and tr[3] == 1 or (tr[3] == -1 and unld(tr[2]) == size_of(I) and tr[1] == 0)
    if any(s == size_of(I) for s in subterms(unld(tr[2]))):
        ctx.check(whole, 'expansion', f.loc(L.line), '%s visits the candidates %s..%s' % (k0, show(tr[1]), show(sub(tr[2], 1))), k0 + ':loop')
    if not whole:
        ctx.count("expansions not recognised")
        return
    k = ('ix', I, tr[0])
    spx = r['spx'][1]
    pre = Bags()
    for it in p.trace:
        if it is L:
            break
        pre.item(it)
    for q in L.paths:
        if q.exit in ('b', 'ret'):
            ctx.bad('expansion', f.loc(L.line), '%s leaves out the remaining candidates' % k0, k0 + ':loop')
            continue
        if q.exit == 'throw':
            continue
        B = pre.copy()
        n = 0
        added = None
        candidates = None
        recursed = False
        fa = Facts(q.trace)
        tab = []
        for it in q.trace:
            B.item(it)
            if not isinstance(it, Ev):
                continue
            nn = short(it.name)
            if nn in ADDS and it.obj is not None and unld(it.obj) == r['X'][1]:
                n += 1
                a = it.args[-1]
                b = B.get(a)
                if b is None or any(t is None for _, t in b[0]):
                    ctx.count("expansions not recognised")
                else:
                    want = [('all', spx), ('el', k)]
                    ctx.check(bagkey(b[0]) == bagkey(want), 'expansion', f.loc(it.line), '%s adds %s instead of the simplex with the candidate' % (k0, showbag(b[0])), k0 + ':simplex')
                    added = unld(a)
                    if 'Filtration' not in it.name or True:
                        ctx.check(b[1] or 'SimplicialComplex::add' in it.name and 'Light' not in it.name and False or b[1], 'sorted', f.loc(it.line), '%s adds an unsorted simplex' % k0, k0 + ':sorted')
                if 'value' in r:
                    ctx.check(unld(it.args[0]) == r['value'][1], 'value', f.loc(it.line), '%s gives the simplex the value %s' % (k0, show(it.args[0])), k0 + ':value')
            elif it.obj is not None and 'inds' in r and nn in PUSH:
                o = unld(it.obj)
                if isinstance(o, tuple) and o[0] == 'ix' and unld(o[1]) == r['inds'][1]:
                    tab.append((unld(o[2]), unld(it.args[0]), it.line))
            elif nn == 'intersect_sorted_lt' and len(it.args) >= 4:
                a = [unld(x) for x in it.args]
                nb = ('ix', r['nbrs'][1], k)
                ok = {key(a[0]), key(a[1])} == {key(I), key(nb)} and a[2] == k
                known = all(x in (I, nb) or (isinstance(x, tuple) and x[0] == 'ix' and unld(x[1]) == r['nbrs'][1]) for x in a[:2])
                if known:
                    ctx.check(ok, 'expansion', f.loc(it.line), '%s continues with %s and %s below %s' % (k0, show(a[0]), show(a[1]), show(a[2])), k0 + ':candidates')
                    candidates = (a[3], 'lt')
                else:
                    ctx.count("expansions not recognised")
            elif nn == 'intersect_sorted' and len(it.args) >= 3:
                a = [unld(x) for x in it.args]
                nb = ('ix', r['nbrs'][1], k)
                if {key(a[0]), key(a[1])} == {key(I), key(nb)}:
                    ctx.bad('expansion', f.loc(it.line), '%s continues with all common neighbours: simplices are visited once per order of their vertices' % k0, k0 + ':candidates')
            elif nn in EXP:
                recursed = True
                g = {kk: unld(it.args[v[0]]) for kk, v in r.items() if v[0] < len(it.args)}
                dd, mm = sub(g['d'], r['d'][1]), sub(g['maxd'], r['maxd'][1])
                if is_num(sub(dd, mm)):
                    ctx.check(sub(dd, mm) == 1, 'maxdim', f.loc(it.line), '%s recurses with dimension %s of %s' % (k0, show(g['d']), show(g['maxd'])), k0 + ':maxd')
                if g['X'] != r['X'][1] or g['nbrs'] != r['nbrs'][1]:
                    ctx.bad('expansion', f.loc(it.line), '%s recurses on another complex or graph' % k0, k0)
                if 'value' in r:
                    ctx.check(g['value'] == r['value'][1], 'value', f.loc(it.line), '%s passes the value %s on' % (k0, show(g['value'])), k0 + ':value')
                if 'edge' in r:
                    ctx.check(g['edge'] == r['edge'][1], 'value', f.loc(it.line), '%s passes the edge %s on' % (k0, show(g['edge'])), k0 + ':edge')
                if 'inds' in r:
                    ctx.check(g['inds'] == r['inds'][1], 'value', f.loc(it.line), '%s passes another table on' % k0, k0 + ':edge')
                b = B.get(it.args[r['spx'][0]])
                if b is not None and all(t is not None for _, t in b[0]):
                    ctx.check(bagkey(b[0]) == bagkey([('all', spx), ('el', k)]), 'expansion', f.loc(it.line), '%s recurses from %s' % (k0, showbag(b[0])), k0 + ':simplex')
                if candidates is not None:
                    ctx.check(g['iter'] == candidates[0], 'expansion', f.loc(it.line), '%s recurses over %s instead of the common neighbours' % (k0, show(g['iter'])), k0 + ':candidates')
                elif g['iter'] == I:
                    ctx.bad('expansion', f.loc(it.line), '%s recurses over its own candidates' % k0, k0 + ':candidates')
                else:
                    ctx.count("expansions not recognised")
                # the dimension must be allowed
                eq, lt, gt = fa0.holds('==', r['d'][1], r['maxd'][1]), fa.holds('<', r['d'][1], r['maxd'][1]), None
                if rel0 == 0:
                    ctx.bad('maxdim', f.loc(it.line), '%s recurses above the maximal dimension' % k0, k0 + ':maxd')
        ctx.check(n == 1, 'expansion', f.loc(L.line), '%s adds %d simplices for one candidate' % (k0, n), k0 + ':simplex')
        if rel0 in (-1, -2) and not recursed:
            em = fa.empty(candidates[0]) if candidates else None
            e2 = fa.holds('<', add(r['d'][1], 1), r['maxd'][1])
            ctx.check(em is True, 'expansion', f.loc(L.line), '%s does not go on to the next dimension' % k0, k0 + ':recursion')
        if 'inds' in r:
            ctx.check(len(tab) == n, 'value', f.loc(L.line), '%s records %d edges for %d simplices' % (k0, len(tab), n), k0 + ':edge')
            for dd, v, ln in tab:
                ctx.check(v == r['edge'][1], 'value', f.loc(ln), '%s records %s instead of the edge' % (k0, show(v)), k0 + ':edge')
                if added is not None:
                    okd = dd in (sub(size_of(added), 1), r['d'][1], size_of(spx), sub(size_of(spx), 1))
                    wrong = any(s in (size_of(added), r['d'][1], size_of(spx)) for s in subterms(dd) if isinstance(s, tuple)) and not okd
                    if dd == sub(size_of(spx), 1):
                        # after push_back the vector has one more element than at the start
                        okd = True
                    ctx.check(not wrong, 'value', f.loc(ln), '%s records the edge in dimension %s' % (k0, show(dd)), k0 + ':edge')
        # the simplex of the caller comes back as it was
        if spx in B.env and B.env[spx] is not None:
            ctx.check(bagkey(B.env[spx][0]) == bagkey([('all', spx)]), 'expansion', f.loc(L.line), '%s leaves %s in the simplex of its caller' % (k0, showbag(B.env[spx][0])), k0 + ':restore')


# ------------------------------------------------------------------------------ builders
def ends(b):
    return [t for kk, t in b if kk == 'el']


def builders(ctx, u, safe):
    for nm in ('FlagComplex', 'FlagFiltration', 'FlagFiltration_extension', 'CompleteFlagFiltration'):
        seen = set()
        for f in inst(u, NS + nm):
            tk = (f.loc(), f.d.get('ta'))
            if tk in seen:
                continue
            seen.add(tk)
            ctx.function(f)
            ctx.count("builders")
            builder(ctx, u, f, nm, safe)


def builder(ctx, u, f, nm, safe):
    E = par(f, 0, u)
    P = {p['n']: par(f, i, u) for i, p in enumerate(f.d['ps'])}
    szs = [par(f, i, u) for i, p in enumerate(f.d['ps']) if u.type(p['t']).replace('const ', '') in ('unsigned long', 'size_t')]
    if len(szs) < 2:
        ctx.count("builders not recognised")
        return
    N, M = szs[0], szs[1]
    filt = nm != 'FlagComplex'
    t0 = par(f, len(f.d['ps']) - 1, u) if filt else None
    T = par(f, 1, u) if nm == 'CompleteFlagFiltration' else None
    byedge = nm in ('FlagFiltration', 'FlagFiltration_extension')
    ext = nm.endswith('extension')
    for p in feng(u, f).run(f):
        if p.exit == 'throw':
            continue
        fa0 = Facts(p.trace)
        loops = [it for it in p.trace if isinstance(it, Loop) and any(isinstance(e, Ev) and short(e.name) in ADDS for q in it.paths for e in q.trace)]
        nomore = fa0.holds('==', M, 0) is True or (fa0.holds('<', 0, M) is False and fa0.holds('==', M, 0) is not False)
        if fa0.holds('<', 0, M) is False and fa0.holds('==', M, 0) is False:
            continue                    # contradictory
        vert = edge = None
        B = Bags()
        sorted_edges = False
        target = None
        for it in p.trace:
            if isinstance(it, Ev) and short(it.name) in ('sort', 'stable_sort') and it.args and isinstance(it.args[0], tuple) and it.args[0][0] == 'it' and unld(it.args[0][1]) == E:
                a, b = it.args[0], it.args[1]
                if a[2] == 0 and isinstance(b, tuple) and b[0] == 'it' and unld(b[2]) == size_of(E):
                    if len(it.args) == 2:
                        sorted_edges = True
                    elif len(it.args) == 3:
                        sorted_edges = None
                else:
                    ctx.bad('order', f.loc(it.line), '%s sorts only part of the edges' % nm, nm + ':order')
                    sorted_edges = None
            if it in loops:
                bodies = [q for q in it.paths if q.exit in ('n', 'c')]
                kinds = set()
                for q in bodies:
                    Bq = B.copy()
                    for x in q.trace:
                        Bq.item(x)
                        if isinstance(x, Ev) and short(x.name) in ADDS and x.obj is not None:
                            b = Bq.get(x.args[-1])
                            kinds.add(len(b[0]) if b is not None else None)
                if kinds == {1} or kinds == {1, None}:
                    vert = it
                    vertices(ctx, f, nm, it, B.copy(), N, t0, ext)
                elif 2 in kinds:
                    edge = it
                    edges(ctx, u, f, nm, it, B.copy(), E, M, T, byedge, ext, safe, fa0, sorted_edges)
                else:
                    ctx.count("builders not recognised")
            B.item(it)
        if vert is None and not any(None in () for _ in ()):
            if not loops:
                ctx.check(False, 'vertices', f.loc(), '%s adds no vertices' % nm, nm + ':vertices')
        if edge is None and p.exit == 'ret' and not nomore and len(loops) < 2:
            ctx.bad('edges', f.loc(), '%s returns without its edges (%s)' % (nm, showconds(p)), nm + ':edges')
        if nomore and edge is not None:
            ctx.bad('maxdim', f.loc(), '%s adds edges when maxdim is 0' % nm, nm + ':maxd')
        elif edge is not None:
            ok = fa0.holds('==', M, 0) is False or fa0.holds('<', 0, M) is True
            q0 = [fa for fa in (Facts(q.trace) for q in edge.paths)]
            ok = ok or all(fa.holds('==', M, 0) is False or fa.holds('<', 0, M) is True for fa in q0)
            ctx.check(ok, 'maxdim', f.loc(edge.line), '%s adds edges when maxdim is 0' % nm, nm + ':maxd')


def vertices(ctx, f, nm, L, B0, N, t0, ext):
    tr = trip(L)
    if tr is None:
        ctx.count("builders not recognised")
        return
    if unld(tr[2]) == N or any(s == N for s in subterms(unld(tr[2]))):
        ctx.check(tr[1] == 0 and unld(tr[2]) == N and tr[3] in (1, -1), 'vertices', f.loc(L.line), '%s adds the vertices %s..%s' % (nm, show(tr[1]), show(sub(tr[2], 1))), nm + ':vertices')
    for q in L.paths:
        if q.exit == 'throw':
            continue
        ctx.check(q.exit in ('n', 'c'), 'vertices', f.loc(L.line), '%s stops adding vertices early' % nm, nm + ':vertices')
        B = B0.copy()
        n, m = 0, 0
        for it in q.trace:
            B.item(it)
            if isinstance(it, Ev) and short(it.name) in ADDS:
                n += 1
                b = B.get(it.args[-1])
                if b is not None and b[0] and b[0][0][1] is not None:
                    ctx.check(bagkey(b[0]) == bagkey([('el', tr[0])]), 'vertices', f.loc(it.line), '%s adds the vertex %s in iteration %s' % (nm, showbag(b[0]), show(tr[0])), nm + ':vertices')
                if t0 is not None:
                    ctx.check(unld(it.args[0]) == t0, 'value', f.loc(it.line), '%s adds the vertices at %s' % (nm, show(it.args[0])), nm + ':t0')
            elif ext and isinstance(it, Ev) and short(it.name) in PUSH:
                o = unld(it.obj)
                if isinstance(o, tuple) and o[0] == 'ix' and o[2] == 0:
                    m += 1
                    ctx.check(unld(it.args[0]) == tr[0], 'value', f.loc(it.line), '%s records %s for vertex %s' % (nm, show(it.args[0]), show(tr[0])), nm + ':ext')
        ctx.check(n == 1, 'vertices', f.loc(L.line), '%s adds %d vertices per iteration' % (nm, n), nm + ':vertices')
        if ext:
            ctx.check(m == 1, 'value', f.loc(L.line), '%s records %d vertices per iteration' % (nm, m), nm + ':ext')


def edges(ctx, u, f, nm, L, B0, E, M, T, byedge, ext, safe, fa0, sorted_edges):
    tr = trip(L)
    if tr is None:
        ctx.count("builders not recognised")
        return
    sy, lo, hi, st = tr
    hi = unld(hi)
    if byedge:
        ctx.check(sorted_edges is not False, 'order', f.loc(L.line), '%s does not sort its edges' % nm, nm + ':order')
        src, tgt, val = None, None, None
    for q in L.paths:
        if q.exit == 'throw':
            continue
        ctx.check(q.exit in ('n', 'c'), 'edges', f.loc(L.line), '%s stops adding edges early' % nm, nm + ':edges')
        B = B0.copy()
        for o, g in list(B.env.items()):
            # vectors reused by every iteration: contents unknown
            if g is not None and any(isinstance(e, Ev) and e.obj is not None and any(s == o for s in subterms(unld(e.obj))) for r in L.paths for e in r.trace):
                B.env[o] = ([('el', None)] * len(g[0]), False) if all(x[0] == 'el' for x in g[0]) else None
        fa = Facts(q.trace)
        pair, nadd, tval = None, 0, None
        common = None
        expanded = False
        nb = []
        rec = 0
        sorts = {}
        N = None
        for idx, it in enumerate(q.trace):
            B.item(it)
            if not isinstance(it, Ev):
                continue
            nn = short(it.name)
            if nn in ADDS and it.obj is not None and 'std::' not in it.name:
                nadd += 1
                b = B.get(it.args[-1])
                if b is None or len(b[0]) != 2 or any(t is None for _, t in b[0]):
                    ctx.count("builders not recognised")
                    continue
                pair = ends(b[0])
                light = 'Light' in f.d.get('ta', '')        # SimplicialComplex sorts what it is given
                ctx.check(b[1] or not light, 'sorted', f.loc(it.line), '%s adds an edge with unsorted vertices' % nm, nm + ':sorted')
                if 'Filtration' in it.name:
                    tval = unld(it.args[0])
            elif nn == 'intersect_sorted' and len(it.args) >= 3:
                common = (unld(it.args[0]), unld(it.args[1]), unld(it.args[2]), it.line, len(nb))
            elif nn in EXP:
                expanded = True
                r = fargs(u, it.fn) if getattr(it, 'fn', None) is not None and hasattr(it.fn, 'd') else None
                a = [unld(x) for x in it.args]
                if pair is None:
                    continue
                if common is not None:
                    ctx.check(common[2] in a, 'expansion', f.loc(it.line), '%s expands an edge over something else than the common neighbours' % nm, nm + ':common')
                nums = [x for x in a if is_num(x)]
                if len(a) > 3:
                    # d, maxd
                    dd, mm = a[2], a[3]
                    if is_num(dd) and mm == M or is_num(sub(sub(mm, M), dd) if True else None):
                        ctx.check(is_num(dd) and dd == 2 and mm == M or is_num(sub(dd, mm)) is False and sub(sub(mm, M), sub(dd, 2)) == 0, 'maxdim', f.loc(it.line), '%s expands an edge from dimension %s up to %s' % (nm, show(dd), show(mm)), nm + ':maxd')
                b = None
                for x in it.args[4:]:
                    g = B.get(x) if unld(x) in B.env else None
                    if g is not None and len(g[0]) == 2 and all(t is not None for _, t in g[0]):
                        b = g
                if b is not None:
                    ctx.check(sorted(map(key, ends(b[0]))) == sorted(map(key, pair)), 'expansion', f.loc(it.line), '%s expands %s after adding %s' % (nm, showbag(b[0]), ', '.join(map(show, pair))), nm + ':common')
                if tval is not None:
                    ctx.check(tval in a[5:], 'value', f.loc(it.line), '%s expands an edge at another value than %s' % (nm, show(tval)), nm + ':value')
                if ext:
                    ctx.check(sy in a[6:], 'value', f.loc(it.line), '%s passes another edge index than %s' % (nm, show(sy)), nm + ':ext')
                # above the maximal dimension
                low = fa.holds('<', M, 2) is True or fa.holds('<', 1, M) is False or fa0.holds('<', 1, M) is False
                high = fa.holds('<', 1, M) is True or fa.holds('<', M, 2) is False or fa0.holds('<', 1, M) is True
                ok = safe.get(nn + ('#' if len(it.args) <= 6 else ''), True) or high
                ctx.check(ok and not (low and not safe.get(nn + ('#' if len(it.args) <= 6 else ''), True)), 'maxdim', f.loc(it.line), '%s expands edges to triangles even if maxdim is 1' % nm, nm + ':maxd')
            elif nn in PUSH and it.obj is not None:
                o = unld(it.obj)
                if isinstance(o, tuple) and o[0] == 'ix':
                    if ext and is_num(o[2]):
                        rec += 1
                        ctx.check(o[2] == 1 and unld(it.args[0]) == sy, 'value', f.loc(it.line), '%s records %s in dimension %s for edge %s' % (nm, show(it.args[0]), show(o[2]), show(sy)), nm + ':ext')
                    else:
                        v = it.args[-1]
                        pos = it.args[0] if len(it.args) > 1 else None
                        isset = 'std::set' in it.name
                        okp = isset or pos is not None and any(isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) in ('lower_bound', 'upper_bound') for s in subterms(pos))
                        nb.append((unld(o[1]), unld(o[2]), unld(v), it.line))
                        sorts[o] = okp
                        N = unld(o[1])
            elif nn in ('sort', 'stable_sort') and it.args and isinstance(it.args[0], tuple) and it.args[0][0] == 'it':
                C = unld(it.args[0][1])
                if C in sorts:
                    b2 = it.args[1]
                    sorts[C] = it.args[0][2] == 0 and isinstance(b2, tuple) and b2[0] == 'it' and unld(b2[2]) == size_of(C)
            elif nn in ('inplace_merge', 'insert', 'rotate') and it.args:
                for C in list(sorts):
                    sorts[C] = True
        ctx.check(nadd == 1, 'edges', f.loc(L.line), '%s adds %d edges per iteration' % (nm, nadd), nm + ':edges')
        if ext:
            ctx.check(rec == 1, 'value', f.loc(L.line), '%s records %d edges per iteration' % (nm, rec), nm + ':ext')
        if pair is None:
            continue
        a, b = pair
        pair = minmax(a, b) or minmax(b, a) or pair
        # which edge of the list
        if byedge:
            okp = all(isinstance(x, tuple) and x[0] == 'f' and isinstance(unld(x[1]), tuple) and unld(x[1])[0] == 'ix' and unld(unld(x[1])[1]) == E for x in pair)
            if okp:
                e1, e2 = unld(pair[0][1]), unld(pair[1][1])
                ctx.check(e1 == e2 and {pair[0][2], pair[1][2]} == {'s', 't'}, 'edges', f.loc(L.line), '%s adds the edge %s, %s' % (nm, show(a), show(b)), nm + ':edges')
                c = coef(e1[2], sy)
                if c is not None:
                    first = add(mul(c[0], lo), c[1])
                    last_ = add(mul(c[0], hi), c[1])
                    ctx.check(abs(c[0]) == 1 and abs(st) == 1 and c[0] * st == 1 and first == 0 and last_ == size_of(E), 'edges', f.loc(L.line), '%s takes the edges %s..%s' % (nm, show(first), show(sub(last_, 1))), nm + ':edges')
                if tval is not None:
                    ctx.check(tval == field(e1, 'r'), 'value', f.loc(L.line), '%s adds an edge at %s' % (nm, show(tval)), nm + ':value')
            else:
                ctx.count("builders not recognised")
        else:
            ix = [x for x in pair if isinstance(x, tuple) and x[0] == 'ix' and unld(x[1]) == E]
            if len(ix) == 2:
                cs = [coef(x[2], sy) for x in ix]
                if all(cs):
                    cs.sort(key=lambda c: key(c[1]))
                    offs = sorted([c[1] for c in cs], key=lambda x: (not is_num(x), x if is_num(x) else 0))
                    step = {c[0] * st for c in cs}
                    first = {key(add(mul(c[0], lo), c[1])) for c in cs}
                    want = {key(0), key(1)}
                    ctx.check(step == {2} and first == want, 'edges', f.loc(L.line), '%s takes the entries %s and %s of the edge list' % (nm, show(ix[0][2]), show(ix[1][2])), nm + ':edges')
                    top = mul(cs[0][0], hi)
                    half = ('app', '/', (size_of(E), 2), 0)
                    okh = hi in (size_of(E),) and cs[0][0] == 1 or isinstance(hi, tuple) and hi[0] == 'app' and hi[1].startswith('/') and hi[2] == (size_of(E), 2) and cs[0][0] == 2 or T is not None and hi == size_of(T) and cs[0][0] == 2
                    if not okh and any(s in (size_of(E), size_of(T) if T is not None else None) for s in subterms(hi)):
                        ctx.check(mul(2, hi) == size_of(E) and cs[0][0] == 2, 'edges', f.loc(L.line), '%s takes the edges below %s' % (nm, show(hi)), nm + ':edges')
                    if tval is not None and T is not None:
                        ctx.check(isinstance(tval, tuple) and tval[0] == 'ix' and unld(tval[1]) == T and tval[2] == sy if cs[0][0] == 2 else True, 'value', f.loc(L.line), '%s adds edge %s at %s' % (nm, show(sy), show(tval)), nm + ':value')
        # neighbours
        if N is not None or common is not None:
            G = N if N is not None else unld(common[0][1]) if common[0][0] == 'ix' else None
            got = sorted((key(x[1]), key(x[2])) for x in nb if x[0] == G)
            want = sorted(((key(a), key(b)), (key(b), key(a))))
            ctx.check(got == want, 'neighbours', f.loc(L.line), '%s notes %s' % (nm, ', '.join('%s next to %s' % (show(x[2]), show(x[1])) for x in nb) or 'no neighbours'), nm + ':neighbours')
            for o, ok in sorts.items():
                ctx.check(ok, 'neighbours', f.loc(L.line), '%s leaves the neighbours of %s unsorted' % (nm, show(o[2])), nm + ':neighbours')
            if common is not None:
                w = {key(('ix', G, a)), key(('ix', G, b))}
                ctx.check({key(common[0]), key(common[1])} == w, 'expansion', f.loc(common[3]), '%s takes the common neighbours of %s and %s' % (nm, show(common[0]), show(common[1])), nm + ':common')
        if not expanded:
            em = fa.empty(common[2]) if common is not None else None
            low = fa.holds('<', 1, M) is False or fa.holds('<', M, 2) is True or fa.holds('==', M, 1) is True or fa0.holds('<', 1, M) is False
            ctx.check(em is True or low, 'expansion', f.loc(L.line), '%s does not expand an edge (%s)' % (nm, showconds(q)), nm + ':expand')


# ------------------------------------------------------------------------------ order of edges
def edgeorder(ctx, u):
    for f in inst(u, NS + 'filtered_edge::operator<')[:1]:
        ctx.function(f)
        ctx.count("folds")
        O = par(f, 0, u)
        paths = eng(u, f).run(f)
        val = {}
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                for c in (-1, 0, 1):
                    w = {'r': a, 's': b, 't': c}
                    res = set()
                    for p in paths:
                        ok = True
                        for cd in conds(p):
                            v = evalcmp(unld(cd.t), O, w)
                            if v is None:
                                ok = None
                                break
                            if v != cd.pol:
                                ok = False
                                break
                        if ok is None:
                            res.add(None)
                        elif ok:
                            r = p.val
                            if isinstance(r, tuple) and r and r[0] in ('cmp', 'not'):
                                r = evalcmp(unld(r), O, w)
                            res.add(bool(r) if isinstance(r, (bool, int)) else None)
                    val[(a, b, c)] = res.pop() if len(res) == 1 else None
        if any(v is None for v in val.values()):
            ctx.count("orders not recognised")
            continue
        for (a, b, c), v in val.items():
            if a:
                ctx.check(v == (a < 0), 'order', f.loc(), 'an edge with %s parameter is%s put first' % ('smaller' if a < 0 else 'larger', '' if v else ' not'), 'filtered_edge')
            elif (b, c) == (0, 0):
                ctx.check(not v, 'order', f.loc(), 'an edge comes before itself', 'filtered_edge')
            else:
                ctx.check(v != val[(0, -b, -c)], 'order', f.loc(), 'two edges at the same parameter are not ordered', 'filtered_edge')
                if b:
                    ctx.check(v == (b < 0), 'order', f.loc(), 'edges at the same parameter are not ordered by source', 'filtered_edge')
                elif c:
                    ctx.check(v == (c < 0), 'order', f.loc(), 'edges at the same parameter and source are not ordered by target', 'filtered_edge')


def evalcmp(t, O, w):
    if not (isinstance(t, tuple) and t and t[0] == 'cmp'):
        if isinstance(t, tuple) and t and t[0] == 'not':
            v = evalcmp(t[1], O, w)
            return None if v is None else not v
        return None
    def side(x):
        x = unld(x)
        if isinstance(x, tuple) and x[0] == 'f' and x[2] in w:
            return (x[2], 0 if x[1] == ('this',) else 1 if x[1] == O else None)
        return None
    a, b = side(t[2]), side(t[3])
    if not a or not b or a[0] != b[0] or {a[1], b[1]} != {0, 1}:
        return None
    r = w[a[0]] if a[1] == 0 else -w[a[0]]
    return {'<': r < 0, '==': r == 0}.get(t[1])


# ------------------------------------------------------------------------------ extensions
def corners(C, n):
    """index choices of the vertices of a cube with n intervals"""
    import itertools
    return [tuple(('ix', C, 2 * k + b) for k, b in enumerate(bits)) for bits in itertools.product((0, 1), repeat=n)]


def drops(ctx, f, k0):
    for L, x, q in dropped():
        ctx.bad('fold', f.loc(L.line), '%s does not take %s although it is better, when %s' % (k0, show(x), showconds(q)), k0 + ':dropped')


def cubefolds(ctx, u):
    dropped()
    for f in inst(u, 'max_cube_val'):
        ctx.function(f)
        ctx.count("folds")
        C, F0 = par(f, 0, u), par(f, 1, u)
        n = u.type(f.d['ps'][1]['t']).count('vector<')
        want = set()
        for c in corners(C, n):
            t = F0
            for x in c:
                t = ('ix', t, x)
            want.add(t)
        ps = [p for p in eng(u, f, drop=('max_cube_val',)).run(f) if p.exit == 'ret']
        got, known = set(), True
        for p in ps:
            r = extremum(p.val, loopmap(ps))
            if r is None:
                known = False
                continue
            cornercheck(ctx, f, 'max_cube_val', r, want, 'max')
        drops(ctx, f, 'max_cube_val')
        if not known:
            ctx.count("folds not recognised")
    for f in inst(u, NS + 'zigzag::detail::cube_extrema') + inst(u, NS + 'zigzag::detail::simplex_extrema'):
        ctx.function(f)
        ctx.count("folds")
        cube = 'cube' in f.name
        k0 = short(f.name)
        ps = [p for p in eng(u, f).run(f) if p.exit == 'ret']
        lm = loopmap(ps)
        for p in ps:
            pr = pairof(p.val) if isinstance(p.val, tuple) else None
            if pr is None:
                ctx.count("folds not recognised")
                continue
            for x, op in zip(pr, ('min', 'max')):
                r = extremum(x, lm)
                if r is None:
                    if unld(x) in lm:
                        L, d = lm[unld(x)]
                        for q in L.paths:
                            nx = unld(q.env.get(d)) if q.exit in ('n', 'c') else None
                            if isinstance(nx, tuple) and nx and nx[0] == 'app' and short(nx[1]) in ('min', 'max') and any(unld(a) in lm and lm[unld(a)][1] != d and lm[unld(a)][0] is L for a in nx[2]):
                                ctx.bad('fold', f.loc(L.line), '%s folds %s into the %s' % (k0, show(nx), op), k0 + ':' + op)
                    ctx.count("folds not recognised")
                    continue
                if cube:
                    F0, C, n = par(f, 0, u), par(f, 1, u), par(f, 2, u)
                    want = {('ix', F0, add(c[2], mul(add(c[1], mul(c[0], n)), n))) for c in corners(C, 3)}
                    cornercheck(ctx, f, k0, r, want, op)
                else:
                    o, ts, ok = r
                    ctx.check(ok, 'neutral', f.loc(), '%s starts the %s at a value that is not neutral' % (k0, op), k0 + ':' + op)
                    ctx.check(o in (op, None) and o is not None, 'fold', f.loc(), '%s returns the %s where the %s belongs' % (k0, o, op), k0 + ':' + op)
        drops(ctx, f, k0)
        # the whole range
        if not cube:
            for L, q0, cl in loops_of(ps):
                for d, (nm_, sy, s0, cont) in cursors(L).items():
                    pass
                IT, END = par(f, 0, u), par(f, 1, u)
                for q in L.exit:
                    fa = Facts(q.trace)
                    cc = conds(q)
                    if len(cc) == 1 and cc[0].t[0] == 'cmp' and cc[0].t[1] == '==' :
                        ab = [unld(cc[0].t[2]), unld(cc[0].t[3])]
                        if any(x == END or (isinstance(x, tuple) and any(s == END for s in subterms(x))) for x in ab):
                            e = [x for x in ab if x == END]
                            ctx.check(bool(e), 'fold', f.loc(L.line), '%s stops before the end' % k0, k0 + ':range')


def cornercheck(ctx, f, k0, r, want, op):
    o, ts, ok = r
    ctx.check(ok, 'neutral', f.loc(), '%s starts the %s at a value that is not neutral' % (k0, op), k0 + ':' + op)
    ctx.check(o == op, 'fold', f.loc(), '%s computes the %s instead of the %s' % (k0, o, op), k0 + ':' + op)
    miss, more = want - ts, ts - want
    ctx.check(not miss and not more, 'fold', f.loc(), '%s: %s%s' % (k0, 'does not look at %s' % show(sorted(miss, key=key)[0]) if miss else '', ' looks at %s' % show(sorted(more, key=key)[0]) if more else ''), k0 + ':' + op + ':corners')


def extend(ctx, u):
    cubefolds(ctx, u)
    # values pushed per cell
    for f in inst(u, 'extend_filtration') + inst(u, 'lower_star_filtration'):
        k0 = short(f.name)
        ctx.function(f)
        ctx.count("folds")
        Xc = par(f, 0, u)
        ps = Engine(u, vocab=lambda n, x: short(n) in ('get_simplices', 'get_cubes', 'ncells', 'max_cube_val', 'extend_filtration') or la_mutator(n, x), maxpaths=5000).run(f)
        for p in ps:
            for q, cl in all_paths([p]):
                if len(cl) != 2 or q.exit not in ('n', 'c'):
                    if len(cl) == 2 and q.exit in ('b', 'ret'):
                        ctx.bad('coverage', f.loc(cl[1].line), '%s stops early' % k0, k0)
                    continue
                to, ti = trip(cl[0]), trip(cl[1])
                if to is None or ti is None:
                    continue
                d = to[0]
                md = maxdims(to[2])
                if md is not None:
                    ctx.check(to[1] == 0 and md == 1, 'coverage', f.loc(cl[0].line), '%s visits the dimensions %s..%s' % (k0, show(to[1]), show(sub(to[2], 1))), k0)
                rng = unld(cl[1].rng) if cl[1].rng is not None else None
                cellt = None
                if isinstance(rng, tuple) and rng and rng[0] == 'app' and short(rng[1]) in ('get_simplices', 'get_cubes'):
                    ctx.check(rng[2][-1] == d and rng[2][0] == Xc, 'coverage', f.loc(cl[1].line), '%s visits the cells of dimension %s of %s in iteration %s' % (k0, show(rng[2][-1]), show(rng[2][0]), show(d)), k0)
                    cellt = ('ix', rng, cl[1].var)
                pu = pushes(q)
                tabs = {}
                for e in pu:
                    o = unld(e.obj)
                    if isinstance(o, tuple) and o[0] == 'ix':
                        ctx.check(o[2] == d, 'value', f.loc(e.line), '%s stores the value of a cell of dimension %s in dimension %s' % (k0, show(d), show(o[2])), k0 + ':dim')
                        tabs.setdefault(o[1], []).append((unld(e.args[0]), e.line))
                if cellt is None:
                    ctx.count("folds not recognised")
                    continue
                for C, vs in tabs.items():
                    ctx.check(len(vs) == 1, 'value', f.loc(vs[-1][1]), '%s stores %d values for a cell' % (k0, len(vs)), k0 + ':count')
                    for v, ln in vs:
                        if isinstance(v, tuple) and v and v[0] == 'app' and short(v[1]) == 'max_cube_val':
                            ctx.check(v[2][0] == cellt and v[2][1] == par(f, 1, u), 'value', f.loc(ln), '%s takes the value of another cell' % k0, k0 + ':cell')
                        elif isinstance(v, tuple) and v and v[0] == 'f' and v[2] in ('first', 'second', 'get0', 'get1') and isinstance(v[1], tuple) and v[1][0] == 'app':
                            ctx.check(cellt in v[1][2], 'value', f.loc(ln), '%s takes the value of another cell' % k0, k0 + ':cell')
                if len(tabs) == 2:
                    # the tuple is returned in the order (values, vertices)
                    want = {}
                    for C, vs in tabs.items():
                        v = vs[0][0]
                        if isinstance(v, tuple) and v[0] == 'f':
                            want[v[2] in ('second', 'get1')] = C
                    r = p.val
                    if isinstance(r, tuple) and r and r[0] == 'tup' and len(want) == 2:
                        dct = dict(r[1])
                        g0, g1 = dct.get('get0', dct.get('first')), dct.get('get1', dct.get('second'))
                        if g0 is not None and g1 is not None:
                            ctx.check(unld(g0) == want[False] and unld(g1) == want[True], 'value', f.loc(), '%s returns vertices and values in the wrong order' % k0, k0 + ':ret')
                elif not tabs:
                    ctx.bad('value', f.loc(cl[1].line), '%s stores no value for a cell' % k0, k0 + ':count')
    # the vertex function of simplices
    starlambda(ctx, u)
    backwards(ctx, u)


def starlambda(ctx, u):
    for f in inst(u, 'lower_star_filtration'):
        if 'Cubical' in u.type(f.d['ps'][0]['t']):
            continue
        F0 = par(f, 1, u)
        lams = [n for n in walk(f.d['b']) if n.get('k') == 'lambda']
        outer = None
        for n in lams:
            g = u.byid.get(n['fid'])
            if g is None or g.dep:
                continue
            if len(g.d['ps']) == 1 and 'vector' in u.type(g.d['ps'][0]['t']):
                outer = g
        if outer is None:
            ctx.count("folds not recognised")
            continue
        S = par(outer, 0, u)
        try:
            ps = [p for p in eng(u, outer).run(outer) if p.exit == 'ret']
        except Broken:
            ctx.count("folds not recognised")
            continue
        for p in ps:
            pr = pairof(p.val) if isinstance(p.val, tuple) else None
            if pr is None:
                ctx.count("folds not recognised")
                continue
            v, i = unld(pr[0]), unld(pr[1])
            me = [e for e in p.trace if isinstance(e, Ev) and short(e.name) in ('max_element', 'min_element')]
            if me:
                e = me[0]
                a = e.args
                whole = len(a) >= 2 and all(isinstance(x, tuple) and x[0] == 'it' for x in a[:2]) and unld(a[0][1]) == S and a[0][2] == 0 and unld(a[1][2]) == size_of(S)
                if all(isinstance(x, tuple) and x[0] == 'it' and unld(x[1]) == S for x in a[:2]):
                    ctx.check(whole, 'fold', outer.loc(e.line), 'lower_star_filtration looks at part of the vertices', 'lower_star:range')
                    bigger = lessby(u, a[2]) if len(a) > 2 else 0
                    want = {'max_element': 1, 'min_element': -1}[short(e.name)]
                    if bigger is not None and bigger != 0:
                        ctx.check(bigger * want == 1, 'fold', outer.loc(e.line), 'lower_star_filtration takes the smallest value of the vertices', 'lower_star:max')
                    elif len(a) <= 2:
                        ctx.bad('fold', outer.loc(e.line), 'lower_star_filtration compares the vertices, not their values', 'lower_star:max')
                if isinstance(v, tuple) and v[0] == 'ix':
                    ctx.check(unld(v[2]) == i, 'value', outer.loc(), 'lower_star_filtration returns the value of another vertex than the one it records', 'lower_star:vertex')
                elif isinstance(i, tuple) and i == v:
                    ctx.bad('value', outer.loc(), 'lower_star_filtration returns the vertex as its value', 'lower_star:vertex')
            else:
                r = extremum(v, loopmap(ps))
                if r is None or r[0] is None:
                    ctx.count("folds not recognised")
                else:
                    ctx.check(r[0] == 'max', 'fold', outer.loc(), 'lower_star_filtration computes the %s' % r[0], 'lower_star:max')


def lessby(u, t):
    """direction of a comparison lambda on indices: 1 when f[i] < f[j], -1 when f[i] > f[j], None unknown"""
    t = unld(t)
    if not (isinstance(t, tuple) and t and t[0] == 'lam'):
        return None
    g = next((u.byid[x] for x in t[1:2] if x in u.byid), None)
    if g is None:
        return None
    try:
        ps = [p for p in Engine(u).run(g) if p.exit == 'ret']
    except Broken:
        return None
    a, b = par(g, 0, u), par(g, 1, u)
    out = set()
    for p in ps:
        v = p.val
        c = [x for x in conds(p)]
        if isinstance(v, tuple) and v and v[0] == 'cmp':
            c, pol = [Cond(v, True, 0)], True
        else:
            pol = bool(v)
        if len(c) != 1 or c[0].t[0] != 'cmp' or c[0].t[1] != '<':
            return None
        x, y = unld(c[0].t[2]), unld(c[0].t[3])
        xi, yi = any(s == a for s in subterms(x)), any(s == a for s in subterms(y))
        if xi == yi:
            return None
        if x in (a, b) or y in (a, b):
            return None
        out.add((1 if xi else -1) * (1 if c[0].pol == pol else -1))
    return out.pop() if len(out) == 1 else None


def backwards(ctx, u):
    for f in inst(u, 'lower_star_backwards'):
        ctx.function(f)
        ctx.count("folds")
        G, Bd, Im = [par(f, i, u) for i in range(3)]
        k0 = 'lower_star_backwards'
        for p in eng(u, f).run(f):
            for q, cl in all_paths([p]):
                if len(cl) != 2 or q.exit not in ('n', 'c'):
                    continue
                to, ti = trip(cl[0]), trip(cl[1])
                if to is None or ti is None:
                    ctx.count("folds not recognised")
                    continue
                d, k, st = to[0], ti[0], ti[3]
                if unld(to[2]) == size_of(G) or any(s == size_of(G) for s in subterms(unld(to[2]))):
                    ctx.check(to[1] == 0 and unld(to[2]) == size_of(G), 'coverage', f.loc(cl[0].line), '%s visits the dimensions %s..%s' % (k0, show(to[1]), show(sub(to[2], 1))), k0)
                fa = Facts(q.trace)
                done = set()
                for e in q.trace:
                    if not (isinstance(e, Ev) and e.k == 'set' and isinstance(unld(e.obj), tuple) and unld(e.obj)[0] == 'ix'):
                        continue
                    o = unld(e.obj)
                    i = unld(o[2])
                    delta = sub(unld(e.args[0]), o)
                    if not (isinstance(i, tuple) and i[0] == 'ix' and isinstance(unld(i[1]), tuple) and unld(i[1])[0] == 'ix' and unld(unld(i[1])[1]) == Im):
                        continue
                    dd, j = unld(unld(i[1])[2]), unld(i[2])
                    if not (isinstance(j, tuple) and j[0] == 'ix' and unld(unld(j[1])[1]) == Bd if isinstance(j, tuple) and j[0] == 'ix' and isinstance(unld(j[1]), tuple) and unld(j[1])[0] == 'ix' else False):
                        continue
                    x = unld(j[2])
                    off = sub(x, k)
                    if st != 2 or not is_num(off):
                        ctx.count("folds not recognised")
                        continue
                    done.add(off)
                    ctx.check(unld(j[1])[2] == d and dd == add(d, off) and off in (0, 1), 'gradient', f.loc(e.line), '%s sends entry %s of dimension %s to the vertex of a cell of dimension %s' % (k0, show(x), show(unld(j[1])[2]), show(dd)), k0 + ':dim')
                    ctx.check(delta == ('ix', ('ix', G, d), x), 'gradient', f.loc(e.line), '%s adds %s for entry %s' % (k0, show(delta), show(x)), k0 + ':grad')
                    ctx.check(fa.holds('==', j, -1) is False or fa.holds('<', j, 0) is False, 'gradient', f.loc(e.line), '%s follows the index -1' % k0, k0 + ':guard')
                for off in (0, 1):
                    j = ('ix', ('ix', Bd, d), add(k, off))
                    if off not in done and st == 2:
                        ctx.check(fa.holds('==', j, -1) is True or fa.holds('<', j, 0) is True, 'gradient', f.loc(cl[1].line), '%s drops the gradient of entry %s' % (k0, show(add(k, off))), k0 + ':drop')


def zigzags(ctx, u):
    # entry and removal times of a cell
    for f in inst(u, NS + 'zigzag::extend_zigzag_filtration') + inst(u, NS + 'zigzag::extend_levelset'):
        ctx.function(f)
        ctx.count("folds")
        k0 = short(f.name)
        F0, Xc, EPS = [par(f, i, u) for i in range(3)]
        ps = Engine(u, vocab=lambda n, x: short(n) in ('get_simplex', 'get_cube', 'get_cell', 'ncells', 'simplex_begin', 'simplex_end', 'simplex_extrema', 'cube_extrema') or short(n) == 'add' and 'ZigzagFiltration' in n or la_mutator(n, x), maxpaths=5000).run(f)
        for p in ps:
            for q, cl in all_paths([p]):
                if len(cl) != 2:
                    continue
                to, ti = trip(cl[0]), trip(cl[1])
                if to is None or ti is None:
                    ctx.count("folds not recognised")
                    continue
                d, i = to[0], ti[0]
                md = maxdims(to[2])
                if md is not None:
                    ctx.check(to[1] == 0 and md == 1, 'coverage', f.loc(cl[0].line), '%s visits the dimensions %s..%s' % (k0, show(to[1]), show(sub(to[2], 1))), k0)
                hi = unld(ti[2])
                if isinstance(hi, tuple) and hi[0] == 'app' and short(hi[1]) == 'ncells':
                    ctx.check(ti[1] == 0 and hi[2] == (Xc, d), 'coverage', f.loc(cl[1].line), '%s visits the cells %s..%s' % (k0, show(ti[1]), show(hi)), k0)
                ex = [e for e in q.trace if isinstance(e, Ev) and short(e.name) in ('simplex_extrema', 'cube_extrema')]
                if len(ex) != 1:
                    if q.exit != 'throw':
                        ctx.count("folds not recognised")
                    continue
                e = ex[0]
                iv = initvals(q.trace)
                r = unld(e.res)
                for v, a in list(iv.items()):
                    pass
                # variables assigned (not initialised) from the call
                for x in q.trace:
                    if isinstance(x, Ev) and x.k == 'set' and x.name == '=' and x.args and unld(x.args[0]) == r:
                        iv[unld(x.obj)] = r
                A = [unld(a) for a in e.args]
                if short(e.name) == 'simplex_extrema':
                    b, en = A[0], A[1]
                    for t, want in ((b, 'simplex_begin'), (en, 'simplex_end')):
                        if isinstance(t, tuple) and t[0] == 'app' and short(t[1]) in ('simplex_begin', 'simplex_end'):
                            ctx.check(short(t[1]) == want and t[2] == (Xc, d, i), 'value', f.loc(e.line), '%s takes the vertices from %s' % (k0, show(t)), k0 + ':vertices')
                        elif any(isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) == want for s in subterms(t)):
                            ctx.bad('value', f.loc(e.line), '%s takes the vertices from %s' % (k0, show(t)), k0 + ':vertices')
                    ctx.check(A[2] == F0, 'value', f.loc(e.line), '%s takes the values from %s' % (k0, show(A[2])), k0 + ':function')
                else:
                    src = None
                    for x in q.trace:
                        if isinstance(x, Ev) and short(x.name) in ('get_cube', 'get_cell'):
                            if len(x.args) == 3 and unld(x.args[2]) == A[1]:
                                src = (unld(x.args[0]), unld(x.args[1]))
                            elif len(x.args) == 2 and unld(x.res) == A[1]:
                                src = (unld(x.args[0]), unld(x.args[1]))
                    if src is not None:
                        ctx.check(src == (d, i), 'value', f.loc(e.line), '%s takes cell (%s, %s) in iteration (%s, %s)' % (k0, show(src[0]), show(src[1]), show(d), show(i)), k0 + ':vertices')
                    ctx.check(A[0] == F0, 'value', f.loc(e.line), '%s takes the values from %s' % (k0, show(A[0])), k0 + ':function')
                ent, rem = sub(field(r, 'second'), EPS), add(field(r, 'first'), EPS)
                fa = Facts()
                for it in q.trace:
                    if isinstance(it, Cond):
                        fa.st.facts[resolve(it.t, iv)] = it.pol
                bad = fa.holds('<', rem, ent)
                st = None
                for x in q.trace:
                    if not isinstance(x, Ev):
                        continue
                    if short(x.name) == 'add' and 'ZigzagFiltration' in x.name:
                        st = (tuple(resolve(a, iv) for a in x.args[:2]), x.line, None)
                        ctx.check(unld(x.args[2]) == A[1], 'value', f.loc(x.line), '%s adds another cell than the one it looked at' % k0, k0 + ':cell')
                    elif x.k == 'call' and short(x.name) in PUSH:
                        o = unld(x.obj)
                        if isinstance(o, tuple) and o[0] == 'ix' and isinstance(unld(o[1]), tuple) and unld(o[1])[0] == 'ix':
                            pr = pairof(tuple(resolve(a, iv) for a in x.args))
                            if pr is not None:
                                st = (tuple(unld(y) for y in pr), x.line, (unld(unld(o[1])[2]), unld(o[2])))
                if st is not None:
                    ctx.check(st[0] == (ent, rem), 'value', f.loc(st[1]), '%s gives a cell the interval (%s, %s)' % (k0, show(st[0][0]), show(st[0][1])), k0 + ':interval')
                    if st[2] is not None:
                        ctx.check(st[2] == (d, i), 'value', f.loc(st[1]), '%s stores the interval at (%s, %s)' % (k0, show(st[2][0]), show(st[2][1])), k0 + ':cell')
                    ctx.check(bad is False, 'value', f.loc(st[1]), '%s keeps a cell that is removed before it enters' % k0, k0 + ':empty')
                else:
                    ctx.check(bad is True, 'value', f.loc(cl[1].line), '%s leaves out a cell' % k0, k0 + ':drop')
    toplex(ctx, u)


def toplex(ctx, u):
    for f in inst(u, NS + 'zigzag_toplex'):
        ctx.function(f)
        ctx.count("folds")
        I = par(f, 0, u)
        sizes = [size_of(I), size_of(('ix', I, 0)), size_of(('ix', ('ix', I, 0), 0))]
        k0 = 'zigzag_toplex'
        shapes = {}
        for p in Engine(u, vocab=lambda n, x: short(n) == 'add' or la_mutator(n, x), maxpaths=20000).run(f):
            lm = loopmap([p])
            for q, cl in all_paths([p]):
                for e in q.trace:
                    if not (isinstance(e, Ev) and short(e.name) == 'add' and len(e.args) == 3):
                        continue
                    c = unld(e.args[2])
                    while isinstance(c, tuple) and c and c[0] in ('new', 'app') and c[2]:
                        c = c[2][0]
                    if not (isinstance(c, tuple) and c and c[0] == 'list' and len(c[1]) == 6):
                        ctx.count("folds not recognised")
                        continue
                    c = [unld(x) for x in c[1]]
                    fa = Facts([x for L in cl for x in ()])
                    for L in cl:
                        for r in L.paths:
                            pass
                    fa = Facts(q.trace)
                    # facts of the enclosing iterations
                    trs = [trip(L) for L in cl]
                    if any(t is None for t in trs) or len(trs) != 3:
                        ctx.count("folds not recognised")
                        continue
                    bysym = {t[0]: t for t in trs}
                    pix = []
                    shape = []
                    okc = True
                    for ax in range(3):
                        a, b = c[2 * ax], c[2 * ax + 1]
                        w = sub(b, a)
                        if a not in bysym or w not in (0, 1):
                            okc = False
                            break
                        t = bysym[a]
                        n = sizes[ax]
                        want = add(n, 1) if w == 0 else n
                        if any(s in sizes for s in subterms(unld(t[2]))):
                            ctx.check(t[1] == 0 and unld(t[2]) == want and t[3] == 1, 'coverage', f.loc(cl[ax].line), '%s adds cubes with coordinate %d in %s..%s' % (k0, ax, show(t[1]), show(sub(t[2], 1))), k0 + ':range')
                        shape.append(w)
                        if w == 1:
                            pix.append([a])
                        else:
                            opts = []
                            g0 = fa.holds('<', 0, a)
                            if g0 is None:
                                z = fa.holds('==', a, 0)
                                g0 = None if z is None else not z
                            g1 = fa.holds('<', a, n)
                            if g1 is None:
                                z = fa.holds('==', a, n)
                                g1 = None if z is None else not z
                            opts = (g0, g1)
                            pix.append((a, g0, g1))
                    if not okc:
                        ctx.bad('toplex', f.loc(e.line), '%s adds the cube %s' % (k0, ', '.join(map(show, c))), k0 + ':shape')
                        continue
                    shapes[tuple(shape)] = True
                    # consistency: both neighbours out of range is impossible for non-empty images
                    if any(isinstance(x, tuple) and len(x) == 3 and x[1] is False and x[2] is False for x in pix):
                        continue
                    want = [()]
                    unknown = False
                    for x in pix:
                        if isinstance(x, list):
                            want = [w + (x[0],) for w in want]
                        else:
                            ch = []
                            if x[1] is None or x[2] is None:
                                unknown = True
                            if x[1]:
                                ch.append(sub(x[0], 1))
                            if x[2]:
                                ch.append(x[0])
                            want = [w + (y,) for w in want for y in ch]
                    wset = {('ix', ('ix', ('ix', I, w[0]), w[1]), w[2]) for w in want}
                    for arg, op in ((e.args[0], 'min'), (e.args[1], 'max')):
                        r = extremum(arg, {})
                        if r is None:
                            ctx.bad('toplex', f.loc(e.line), '%s mixes minima and maxima for a cube' % k0, k0 + ':' + op) if any(isinstance(s, tuple) and s and s[0] == 'app' and short(s[1]) in ('min', 'max') for s in subterms(unld(arg))) else ctx.count("folds not recognised")
                            continue
                        o, ts, ok = r
                        if not unknown:
                            sh = ''.join(map(str, shape))
                            ctx.check(ts == wset, 'toplex', f.loc(e.line), '%s gives the cube %s the %s over %s instead of the %d pixels around it' % (k0, ', '.join(map(show, c)), op, ', '.join(sorted(map(show, ts)))[:150], len(wset)), k0 + ':' + op + ':' + sh)
                            ctx.check(ok and (o == op or o is None and len(ts) == 1), 'toplex', f.loc(e.line), '%s takes the %s as %s value of a cube' % (k0, o, 'entry' if op == 'min' else 'removal'), k0 + ':' + op)
                        else:
                            ctx.count("folds not recognised")
        if shapes:
            ctx.check(len(shapes) == 8, 'toplex', f.loc(), '%s adds %d of the 8 kinds of cubes' % (k0, len(shapes)), k0 + ':shapes')


def run(ctx):
    u, = prog.load(['topo'])
    writers(ctx, u)
    levelsets(ctx, u)
    safe = expansions(ctx, u)
    builders(ctx, u, safe)
    edgeorder(ctx, u)
    extend(ctx, u)
    zigzags(ctx, u)
