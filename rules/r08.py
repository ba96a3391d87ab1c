"""Complexes as tables.  The events of every path that adds a cell are replayed in a domain of segment
sequences (runs of an index range, single elements, point updates), which gives the vertices of
each face that is looked up as the cell minus one index (or, for a cube, the cell with one interval
collapsed), whatever loops or library calls build it; the rule then requires every index once, the
alternating sign, a roll-back that leaves every table as it was, one entry per table otherwise, and
the same permutation on faces and coefficients.  Readers must use the stride of the writers, set
operations and cell maps must reach every cell of every dimension behind the right membership
guard, the key arithmetic of the light complex is compared as polynomials over the digits, and the
tries must own their children."""
from rules.common import *
from bx.seqs import *
from bx.seqs import Seqs, X, deep

PROP = dict(
    id="R08", title="A complex lists each cell once, with its true signed boundary",
    statement="Adding a simplex looks up every face (the simplex without one vertex, each vertex once) and stores index and alternating sign together, sorted by index with one permutation for both; adding a cube does the same for the two ends of every non-degenerate interval, with opposite signs, changing sign per non-degenerate interval. A cell is appended only if it is not there yet and all its faces are (otherwise nothing changes and NO_IND is returned, or the faces are added first), and then all tables grow together and the returned index is the cell's position. The order of the vertices passed in does not matter. Lookups return the index of exactly that cell or NO_IND. boundary, boundary_csc, faces and cell accessors, get_simplices, get_cubes, union, intersection, skeleton, get_indices and triangulated products agree with these tables in every dimension. Light complexes use the same faces and signs through their integer keys. Cellular and simplicial maps have one column per source cell: the index of the image with its orientation sign, nothing when degenerate, an exception when the image is missing. Copies of a complex are independent.",
    over=["inputs", "histories"],
    text="all simplices and cubes of every dimension, every history of insertions, every vertex map",
    why="a wrong sign, a missing face or a table that gets out of step shows only in the dimension, vertex order or failed insertion that triggers it; most of these classes have no unit test at all",
    files=["include/complex/simplicial_complex.hpp", "include/complex/cubical_complex.hpp", "include/complex/light_simplicial_complex.hpp", "include/complex/cell_complex.hpp", "include/complex/cell_map.hpp", "include/complex/simplicial_map.hpp", "include/util/trie.hpp", "include/util/simplex.hpp"],
    mechanism=[("adding cells", "SimplicialComplex::_add_unsafe, _add_recursive, CubicalComplex::_add_unsafe"), ("reading cells", "boundary_csc, faces_begin, get_simplices"), ("keys", "LightSimplicialComplex::simplex_boundary_iterator"), ("maps", "CellularMap, SimplicialMap")],
)
TECHNIQUE = "abstract interpretation of container contents as segment sequences over all paths"
LEVEL = "proof"
ASSUMPTIONS = ["std containers behave as specified", "cells given to a directed or light complex are sorted (documented precondition)"]
MINIMUM = {"adders": 4, "readers": 20, "set operations": 5, "maps": 4, "light": 8, "trie": 6}

NS = 'bats::'
KEEP = {'find_idx', 'fill_sortperm', 'sortperm', 'apply_perm', '_add_unsafe', '_add_recursive', '_add_unsafe_recursive', 'add_safe', 'add_directed_safe',
        'add_safe_recursive', 'add_directed_recursive_safe', 'get_simplex', 'get_cell', 'get_cube', 'get_cubes', 'cube_dim', 'is_valid_cube', 'simplex_sign',
        'perm_sign', 'is_degenerate', 'simplex_key', 'next', 'add_recursive', 'add_unsafe', 'add_vertex', 'product_paths', 'max_vertex', 'add', 'ncells', 'key_to_simplex'}


def eng(u, f, keep=(), drop=(), **kw):
    r = short(f.name)
    k = (KEEP | set(keep)) - set(drop)
    kw.setdefault('maxpaths', 20000)
    return Engine(u, vocab=lambda n, x: ('SparseTrie::' in n or short(n) in k) and not (short(n) == r and cls_of(n) == cls_of(f.name) and False) or la_mutator(n, x), **kw)


def V(n):
    return ('v', n, 0)


def par(f, i, u):
    p = f.d['ps'][i]
    t = u.type(p['t'])
    nm = p['n'] or '_p%d' % p['d']
    if p.get('ref') or not Engine(u).is_scalar_type(t):
        return ('v', nm, 0)
    return ('sym', nm, 0)


def nomod(t):
    """x % y as x - (x / y) * y"""
    if isinstance(t, tuple) and t:
        if t[0] == 'poly':
            r = 0
            for m, c in t[1]:
                x = c
                for a in m:
                    x = mul(x, nomod(a))
                r = add(r, x)
            return r
        if t[0] == 'app':
            a = tuple(nomod(x) for x in t[2])
            if t[1] in ('%', '%u') and len(a) == 2:
                return sub(a[0], mul(('app', '/', a, 0), a[1]))
            return ('app', t[1], a, t[3])
        if t[0] in ('sym', 'v', 'this', 'str', 'float'):
            return t
        return (t[0],) + tuple(nomod(x) if isinstance(x, tuple) else x for x in t[1:])
    return t


def same(a, b):
    return nomod(unld(a)) == nomod(unld(b))


def field(o, n):
    return ('f', o, n)


THIS = None


def this_of(paths):
    return ('this',)


def uniq(u, name, cond=lambda f: True):
    out, seen = [], set()
    for f in u.find(name):
        if f.dep or f.d.get('imp') or f.d.get('dfd') or f.loc() in seen or not cond(f):
            continue
        seen.add(f.loc())
        out.append(f)
    return out


def inst(u, name, cond=lambda f: True):
    return [f for f in u.find(name) if not f.dep and not f.d.get('imp') and not f.d.get('dfd') and cond(f)]


def tname_(t):
    """name of the private table a term lives in: this.faces[..] -> 'faces'"""
    t = unld(t)
    while isinstance(t, tuple) and t and t[0] == 'ix':
        t = unld(t[1])
    if isinstance(t, tuple) and t and t[0] == 'f' and t[1] == ('this',):
        return t[2]
    return None


def is_lookup(ev):
    """(complex, key vector) of a lookup event"""
    if ev.k not in ('call', 'pure'):
        return None
    n = short(ev.name)
    if n == 'find_idx' and len(ev.args) == 1:
        return unld(ev.obj), unld(ev.args[0])
    if n in ('get', 'count', 'operator[]', 'at') and 'SparseTrie' in ev.name:
        o = unld(ev.obj)
        return (o[1] if isinstance(o, tuple) and o[0] == 'f' else o), unld(ev.args[0])
    return None


class Adder:
    """one iteration of the face loop: what was looked up, what was stored"""

    def __init__(self, ctx, f, s):
        self.ctx, self.f, self.s = ctx, f, s

    def replay(self, q, start):
        """[(kind, content or value, term/event)] of one path, content of the scratch vectors kept"""
        sq = Seqs()
        sq.env.update(start)
        out = []
        src = {}
        for it in q.trace:
            if isinstance(it, Ev):
                lk = is_lookup(it)
                rec = it.k == 'call' and short(it.name) in ('_add_recursive', '_add_unsafe_recursive') and it.args
                if lk or rec:
                    key_ = lk[1] if lk else unld(it.args[0])
                    src[it.res] = sq.get(key_)
                elif it.k == 'call' and short(it.name) in PUSH and tname_(it.obj) in ('faces', 'coeff'):
                    out.append((tname_(it.obj), it.args[0], it))
                    continue
                elif it.k == 'call' and tname_(it.obj) in ('faces', 'coeff', 'spx'):
                    continue
            sq.item(it)
        res = []
        for k, v, ev in out:
            if k == 'faces':
                w = v
                if isinstance(w, tuple) and w and w[0] == 'f' and w[2] == 'ind':
                    w = w[1]
                res.append((k, src.get(w, 'other'), ev))
            else:
                res.append((k, v, ev))
        return res, sq


def group(paths):
    """paths of a loop that go on to the next iteration"""
    return [q for q in paths if q.exit in ('n', 'c')]


def faceloop(p):
    """the loops of a path that store faces"""
    for it in p.trace:
        if isinstance(it, Loop):
            if any(isinstance(e, Ev) and e.k == 'call' and short(e.name) in PUSH and tname_(e.obj) == 'faces' for q in it.paths for e in q.trace):
                yield it


def parity(q, sy, L):
    """parity of the loop index established on the path: 0 even, 1 odd, None"""
    for c in conds(q):
        t = unld(c.t)
        if t[0] == 'cmp' and t[1] == '==':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if isinstance(a, tuple) and a and a[0] == 'app' and a[1] in ('%', '%u', '&') and b in (0, 1) and is_num(b):
                    x, m = a[2]
                    if (a[1] == '&' and m == 1) or (a[1] != '&' and m == 2):
                        cf = coef(x, sy)
                        if cf and cf[0] % 2 == 1:
                            v = b if c.pol else 1 - b
                            return (v, cf[1], cf[0])
    return None


def simplicial_adder(ctx, u, f, conv):
    k0 = short(f.name)
    ctx.function(f)
    ctx.count("adders")
    s = par(f, 0, u)
    n = size_of(s)
    A = Adder(ctx, f, s)
    for p in eng(u, f).run(f):
        for L in faceloop(p):
            tr = trip(L)
            sq0 = Seqs()
            for it in p.trace:
                if it is L:
                    break
                sq0.item(it)
            signs = []
            for q in group(L.paths):
                res, sq = A.replay(q, {})
                fs = [r for r in res if r[0] == 'faces']
                cs = [r for r in res if r[0] == 'coeff']
                for _, c, ev in fs:
                    if c is None or c == 'other':
                        ctx.count("faces not recognised")
                        continue
                    m = without(c, s)
                    if m is None:
                        ctx.count("faces not recognised")
                        continue
                    if m is False and not about(c, s):
                        ctx.count("faces not recognised")
                        continue
                    if m is False:
                        ctx.bad('face', f.loc(ev.line), '%s stores as a face %s, which is not the simplex without one vertex' % (k0, shows(c)), k0 + ':face')
                        continue
                    v = visits(L, m)
                    if v is None:
                        ctx.count("faces not recognised")
                    else:
                        ctx.check(v[0] == 0 and v[1] == n, 'face', f.loc(ev.line), '%s leaves out the vertices %s..%s instead of each vertex once' % (k0, show(v[0]), show(sub(v[1], 1))), k0 + ':range')
                        signs.append((q, m, v, cs, ev))
                # the index stored is the one found, or the one of the face just added
                for e in q.trace:
                    if not (isinstance(e, Ev) and e.k == 'call' and short(e.name) in PUSH and tname_(e.obj) == 'faces'):
                        continue
                    w = e.args[0]
                    looked = {x.res: x for x in q.trace if isinstance(x, Ev) and is_lookup(x) and short(x.name) in ('find_idx', 'get')}
                    for c in [c for c in q.trace if isinstance(c, Cond)]:
                        t = c.t
                        if isinstance(t, tuple) and t[0] == 'cmp' and t[1] == '==' and NO_IND in t[2:]:
                            x = t[3] if t[2] == NO_IND else t[2]
                            if x in looked:
                                ctx.check(not (c.pol and w == x), 'face', f.loc(e.line), '%s stores the index of a face that was not found' % k0, k0 + ':found')
                                v = w[1] if isinstance(w, tuple) and w and w[0] == 'f' else w
                                again = any(isinstance(y, Ev) and y.res == v and short(y.name) in ('_add_recursive',) for y in q.trace)
                                ctx.check(c.pol or not again, 'face', f.loc(e.line), '%s adds a face that was found a second time' % k0, k0 + ':found')
                ctx.check(len(fs) == len(cs), 'tables', f.loc(L.line), '%s: an iteration stores %d faces and %d coefficients' % (k0, len(fs), len(cs)), k0 + ':pair')
            for q, m, v, cs, ev in signs:
                if len(cs) != 1 or tr is None:
                    continue
                c = cs[0][1]
                pr = parity(q, tr[0], L)
                if is_num(c):
                    if pr is None:
                        ctx.bad('sign', f.loc(cs[0][2].line), '%s: the coefficient is always %d' % (k0, c), k0 + ':sign')
                    continue
                for eps in (1, -1):
                    d = next((d for d, (nm, sy) in L.syms.items() if c == sy or c == mul(eps, sy)), None)
                    if d is not None:
                        break
                if d is None:
                    ctx.count("signs not recognised")
                    continue
                sy = L.syms[d][1]
                e = 1 if c == sy else -1
                nx = q.env.get(d)
                if nx == neg(sy) or nx == sy:
                    ctx.check(nx == neg(sy), 'sign', f.loc(L.line), '%s: the coefficient does not alternate from face to face' % k0, k0 + ':sign')
                    s0 = L.start.get(d)
                    first = v[0] if v[2] == 1 else sub(v[1], 1)
                    if s0 in (1, -1) and is_num(s0):
                        conv.append((f, first, s0 * e, L.line))
                else:
                    ctx.count("signs not recognised")
        rows(ctx, u, f, p, s, sub(n, 1), n, k0)


def rows(ctx, u, f, p, s, D, stride, k0):
    """all tables grow together or not at all"""
    if p.exit != 'ret':
        return
    v = p.val
    vals = cell(v)
    if vals is None:
        ctx.count("results not recognised")
        return
    rd, ri = vals
    ctx.check(unld(rd) == D, 'index', f.loc(), '%s returns dimension %s for a cell of dimension %s' % (k0, show(unld(rd)), show(D)), k0 + ':dim')
    delta, emplaced, spxseg, facepush, coeffpush, reset, line = 0, [], [], 0, 0, set(), {}
    known = True
    resets = []

    def scan(items, mult):
        nonlocal delta, facepush, coeffpush, known
        for it in items:
            if isinstance(it, Leave):
                if it.path.exit in ('ret', 'b'):
                    scan(it.path.trace, mult)
                continue
            if isinstance(it, Loop):
                left = None
                t = tabs(it)
                if t & {'_ncells', 'spx_to_idx'}:
                    known = False if any(group([q]) for q in it.paths) and any(isinstance(e, Ev) and tname_(e.obj) in ('_ncells', 'spx_to_idx') and e.k in ('set',) for q in group(it.paths) for e in q.trace) else known
                if 'spx' in t:
                    sq = Seqs()
                    sq.item(it)
                    got = [c for C, c in sq.env.items() if tname_(C) == 'spx']
                    spxseg.append((it, got[0] if got else None))
                continue
            if not isinstance(it, Ev) or it.obj is None:
                continue
            t = tname_(it.obj)
            if t == '_ncells' and it.k == 'set':
                d = sub(it.args[0], strip(it.args[0], it.obj)) if strip(it.args[0], it.obj) is not None else None
                if d is not None and is_num(d):
                    delta += d
                else:
                    known = False
            elif t == 'spx_to_idx' and it.k == 'call' and short(it.name) in ('emplace', 'insert'):
                emplaced.append(it)
            elif t == 'spx' and it.k == 'call':
                if short(it.name) == 'insert' and len(it.args) == 3 or short(it.name) in PUSH:
                    sq = Seqs()
                    sq.item(it)
                    spxseg.append((it, sq.env.get(unld(it.obj))))
            elif t in ('faces', 'coeff') and it.k == 'call' and short(it.name) in ('resize', 'erase'):
                reset.add(t)
                if short(it.name) == 'resize':
                    a = unld(it.args[0])
                    C = unld(it.obj)
                    other = field(('this',), 'coeff' if t == 'faces' else 'faces')
                    z = size_of(C) if any(y == size_of(C) for y in subterms(a)) or not (isinstance(C, tuple) and C[0] == 'ix') else size_of(('ix', other, C[2]))
                    d = sub(a, z)
                    if is_num(d):
                        resets.append((it, t, d))
                    else:
                        ctx.count("roll-backs not recognised")
    scan(p.trace, 1)
    if not known:
        ctx.count("tables not recognised")
        return
    where = f.loc()
    if unld(ri) == NO_IND:
        ctx.check(delta == 0, 'rollback', where, '%s: a refused cell leaves the cell count changed by %d' % (k0, delta), k0 + ':rollback')
        ctx.check(not emplaced, 'rollback', where, '%s: a refused cell is entered in the index' % k0, k0 + ':rollback')
        # faces stored before the refusal must be taken back
        stored = set()
        for it in p.trace:
            if isinstance(it, Loop):
                for q in group(it.paths):
                    for e in deep(q.trace):
                        if isinstance(e, Ev) and e.k == 'call' and short(e.name) in PUSH and tname_(e.obj) in ('faces', 'coeff'):
                            stored.add(tname_(e.obj))
        for e, t, d in resets:
            ctx.check(d == 0, 'rollback', f.loc(e.line), '%s: a refused cell changes the size of %s by %s' % (k0, t, show(d)), k0 + ':rollback')
        for t in stored:
            ctx.check(t in reset, 'rollback', where, '%s: a refused cell leaves entries in %s' % (k0, t), k0 + ':rollback')
        return
    if len(f.d['ps']) == 2:
        out = par(f, 1, u)
        rep = [e for e in p.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in PUSH and unld(e.obj) == out]
        if not any(isinstance(e, Ev) and e.k == 'call' and (unld(e.obj) == out and short(e.name) not in PUSH or any(unld(a) == out for a in e.args)) for e in p.trace):
            got = [cell(e.args[0]) for e in rep]
            if None not in got:
                ctx.check(len(rep) == 1, 'index', where, '%s reports a new cell %d times' % (k0, len(rep)), k0 + ':report')
                for e, c in zip(rep, got):
                    ctx.check(unld(c[0]) == D and samever(c[1], ri), 'index', f.loc(e.line), '%s reports (%s, %s) for the new cell' % (k0, show(unld(c[0])), show(unld(c[1]))), k0 + ':report')
    ctx.check(delta == 1, 'tables', where, '%s: a stored cell changes the cell count by %d' % (k0, delta), k0 + ':count')
    ctx.check(len(emplaced) == 1, 'tables', where, '%s: a stored cell is entered %d times in the index' % (k0, len(emplaced)), k0 + ':emplace')
    cnt = ('ix', field(('this',), '_ncells'), D)
    for e in emplaced:
        ctx.check(unld(e.args[0]) == s, 'tables', f.loc(e.line), '%s enters %s in the index instead of the cell' % (k0, show(unld(e.args[0]))), k0 + ':emplace')
        ctx.check(samever(e.args[-1], ri), 'index', f.loc(e.line), '%s enters index %s but returns %s' % (k0, show(unld(e.args[-1])), show(unld(ri))), k0 + ':index')
    if unld(ri) in (cnt, add(cnt, 1), sub(cnt, 1)):
        # value of the count before this cell was added
        ctx.check(unld(ri) == cnt and older(p, ri, cnt), 'index', where, '%s returns %s, not the position of the new cell' % (k0, show(unld(ri))), k0 + ':index')
    if len(spxseg) != 1:
        if len(spxseg) == 0:
            ctx.bad('tables', where, '%s: a stored cell is not appended to the list of cells' % k0, k0 + ':spx')
        else:
            ctx.count("tables not recognised")
    else:
        it, c = spxseg[0]
        C = None
        if c is None:
            ctx.count("tables not recognised")
        else:
            tail = [x for x in c if x[0] != 'all']
            r = eqs(tail, [rng(s)])
            if r is not None:
                ctx.check(r, 'tables', f.loc(it.line), '%s appends %s to the list of cells instead of the cell' % (k0, shows(tail)), k0 + ':spx')


def strip(v, o):
    """v = o + c -> the term of o inside v"""
    o = unld(o)
    for m, c in poly(v).items():
        if len(m) == 1 and c == 1 and unld(m[0]) == o:
            return m[0]
    if unld(v) == o:
        return v
    return None


def older(p, ri, cnt):
    """the returned count is the one before the increment"""
    # the increment event stores (ld cnt)+1; the returned index must be that same load
    for it in p.trace:
        if isinstance(it, Ev) and it.k == 'set' and unld(it.obj) == cnt:
            return strip(it.args[0], it.obj) == ri or unld(strip(it.args[0], it.obj)) == unld(ri) and vers(strip(it.args[0], it.obj)) == vers(ri)
    return True


def vers(t):
    return t


def samever(a, b):
    return unld(a) == unld(b)


def tabs(L):
    out = set()
    for q in L.paths:
        for e in deep(q.trace):
            if isinstance(e, Ev) and e.obj is not None and e.k in ('set', 'call'):
                t = tname_(e.obj)
                if t:
                    out.add(t)
    return out


def cell(v):
    """cell_ind value -> (dim, ind)"""
    if isinstance(v, tuple) and v and v[0] == 'app' and v[1] == 'new cell_ind' and len(v[2]) == 2:
        return v[2]
    if isinstance(v, tuple) and v and v[0] == 'tup':
        d = dict(v[1])
        if 'dim' in d and 'ind' in d:
            return d['dim'], d['ind']
    return None


def sorted_together(ctx, u, f, D, stride, k0):
    """faces and coefficients of the new cell are permuted by the sorting permutation of the faces"""
    for p in eng(u, f).run(f):
        if p.exit != 'ret' or cell(p.val) is None or unld(cell(p.val)[1]) == NO_IND:
            continue
        ind = cell(p.val)[1]
        F, C = (('ix', field(('this',), x), sub(D, 1)) for x in ('faces', 'coeff'))
        lo = mul(stride, unld(ind))
        perm, done = None, {}
        for it in p.trace:
            if not isinstance(it, Ev) or it.k not in ('call', 'pure'):
                continue
            n = short(it.name)
            a = [unld(x) for x in it.args]
            if n == 'fill_sortperm' and len(a) == 3 and isinstance(a[0], tuple) and a[0][0] == 'it':
                perm = a[2]
                ctx.check(a[0] == ('it', F, lo) and a[1] == ('it', F, add(lo, stride)), 'sort', f.loc(it.line),
                          '%s sorts the positions %s..%s of %s instead of the faces of the new cell' % (k0, show(a[0][2]), show(a[1][2] if a[1][0] == 'it' else a[1]), show(a[0][1])), k0 + ':sort')
            elif n == 'apply_perm' and len(a) == 3 and isinstance(a[0], tuple) and a[0][0] == 'it':
                t = tname_(a[0][1])
                if perm is not None and a[2] == perm:
                    done[t] = done.get(t, 0) + 1
                    want = {'faces': F, 'coeff': C}.get(t)
                    if want is not None:
                        ctx.check(a[0] == ('it', want, lo), 'sort', f.loc(it.line), '%s permutes %s from position %s instead of the new cell' % (k0, t, show(a[0][2])), k0 + ':sort')
        if perm is not None and (done.get('faces') or done.get('coeff')):
            ctx.check(done.get('faces') == 1 and done.get('coeff') == 1, 'sort', f.loc(), '%s sorts faces and coefficients %s' % (k0, 'separately' if len(done) == 2 else 'only in one of the two tables'), k0 + ':sort')
        elif perm is not None:
            ctx.count("sorting not recognised")
    ctx.count("sorts")


def cubical_adder(ctx, u, f, conv):
    k0 = short(f.name)
    ctx.function(f)
    ctx.count("adders")
    s = par(f, 0, u)
    n = size_of(s)
    A = Adder(ctx, f, s)
    for p in eng(u, f).run(f):
        D = None
        for it in p.trace:
            if isinstance(it, Ev) and short(it.name) == 'cube_dim' and unld(it.args[0]) == s:
                D = unld(it.res) if it.res is not None else None
        if D is None:
            D = ('app', 'bats::CubicalComplex::cube_dim', (('this',), s), 0)
        for L in faceloop(p):
            tr = trip(L)
            if tr is None:
                ctx.count("faces not recognised")
                continue
            k, lo, hi, st = tr
            full = unld(hi) in (n, mul(2, field(('this',), '__maxdim')))
            if is_num(lo) and st == 2:
                ctx.check(lo == 0 and full, 'face', f.loc(L.line), '%s visits the intervals from %s to %s instead of all of them' % (k0, show(lo), show(hi)), k0 + ':range')
            else:
                ctx.count("faces not recognised")
                continue
            # scratch vectors equal to the cube when the loop is reached
            sq0 = Seqs()
            for it in p.trace:
                if it is L:
                    break
                sq0.item(it)
            start = {C: c for C, c in sq0.env.items() if c is not None and tname_(C) not in ('faces', 'coeff', 'spx')}
            up = norm([('for', X(), 0, k, ('ix', s, X())), ('el', ('ix', s, add(k, 1))), ('for', X(), add(k, 1), n, ('ix', s, X()))])
            dn = norm([('for', X(), 0, add(k, 1), ('ix', s, X())), ('el', ('ix', s, k)), ('for', X(), add(k, 2), n, ('ix', s, X()))])
            for q in group(L.paths):
                fa = Facts(q.trace)
                deg = fa.holds('==', ('ix', s, k), ('ix', s, add(k, 1)))
                res, sq = A.replay(q, start)
                for C, c in start.items():
                    now = sq.get(C)
                    r = eqs(now, c)
                    if r is False:
                        ctx.bad('face', f.loc(L.line), '%s: the scratch cube is left as %s after an iteration' % (k0, shows(now)), k0 + ':restore')
                fs = [r for r in res if r[0] == 'faces']
                cs = [r for r in res if r[0] == 'coeff']
                # the index stored is the one found, or the one of the face just added
                for e in q.trace:
                    if not (isinstance(e, Ev) and e.k == 'call' and short(e.name) in PUSH and tname_(e.obj) == 'faces'):
                        continue
                    w = e.args[0]
                    looked = {x.res: x for x in q.trace if isinstance(x, Ev) and is_lookup(x) and short(x.name) in ('find_idx', 'get')}
                    for c in [c for c in q.trace if isinstance(c, Cond)]:
                        t = c.t
                        if isinstance(t, tuple) and t[0] == 'cmp' and t[1] == '==' and NO_IND in t[2:]:
                            x = t[3] if t[2] == NO_IND else t[2]
                            if x in looked:
                                ctx.check(not (c.pol and w == x), 'face', f.loc(e.line), '%s stores the index of a face that was not found' % k0, k0 + ':found')
                                v = w[1] if isinstance(w, tuple) and w and w[0] == 'f' else w
                                again = any(isinstance(y, Ev) and y.res == v and short(y.name) in ('_add_recursive',) for y in q.trace)
                                ctx.check(c.pol or not again, 'face', f.loc(e.line), '%s adds a face that was found a second time' % k0, k0 + ':found')
                ctx.check(len(fs) == len(cs), 'tables', f.loc(L.line), '%s: an iteration stores %d faces and %d coefficients' % (k0, len(fs), len(cs)), k0 + ':pair')
                d = None
                for dd, (nm, sy) in L.syms.items():
                    if any(c[1] in (sy, neg(sy)) for c in cs):
                        d = dd
                if deg is True:
                    ctx.check(not fs, 'face', f.loc(L.line), '%s stores faces for a degenerate interval' % k0, k0 + ':degenerate')
                    for dd, (nm, sy) in L.syms.items():
                        s0 = L.start.get(dd)
                        if is_num(s0) and s0 in (1, -1) and sy != k:
                            ctx.check(q.env.get(dd) != neg(sy), 'sign', f.loc(L.line), '%s changes the sign at a degenerate interval' % k0, k0 + ':sign')
                    continue
                if deg is None:
                    ctx.count("faces not recognised")
                    continue
                if len(fs) != 2:
                    ctx.bad('face', f.loc(L.line), '%s stores %d faces for a non-degenerate interval instead of two' % (k0, len(fs)), k0 + ':face')
                    continue
                kinds = []
                for (_, c, ev), (_, cc, ev2) in zip(fs, cs):
                    if c is None or c == 'other':
                        kinds = None
                        ctx.count("faces not recognised")
                        break
                    w = 'upper' if norm(self_runs(c)) == up else 'lower' if norm(self_runs(c)) == dn else None
                    if w is None and not about(c, s):
                        kinds = None
                        ctx.count("faces not recognised")
                        break
                    if w is None:
                        ctx.bad('face', f.loc(ev.line), '%s stores as a face %s' % (k0, shows(c)), k0 + ':face')
                        kinds = None
                        break
                    kinds.append((w, cc, ev))
                if not kinds:
                    continue
                ctx.check({w for w, _, _ in kinds} == {'upper', 'lower'}, 'face', f.loc(L.line), '%s stores the %s end of an interval twice' % (k0, kinds[0][0]), k0 + ':face')
                a, b = kinds[0][1], kinds[1][1]
                ctx.check(a == neg(b), 'sign', f.loc(kinds[1][2].line), '%s gives the two ends of an interval the coefficients %s and %s' % (k0, show(a), show(b)), k0 + ':sign')
                if d is not None:
                    sy = L.syms[d][1]
                    ctx.check(q.env.get(d) == neg(sy), 'sign', f.loc(L.line), '%s does not change the sign after a non-degenerate interval' % k0, k0 + ':sign')
                    s0 = L.start.get(d)
                    uc = dict((w, c) for w, c, _ in kinds).get('upper')
                    if is_num(s0) and uc in (sy, neg(sy)):
                        conv.append((f, 'cube', s0 * (1 if uc == sy else -1), L.line))
                elif is_num(a):
                    ctx.bad('sign', f.loc(L.line), '%s uses the constant coefficient %d' % (k0, a), k0 + ':sign')
                else:
                    ctx.count("signs not recognised")
        rows(ctx, u, f, p, s, D, None, k0)


def about(segs, s):
    """is the content written in terms of s alone"""
    return segs is not None and all(unld(x[1]) == s for y in segs for t in y[1:] for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'ix') and all(x[1] == s for x in segs if x[0] == 'all')


def self_runs(segs):
    return None if segs is None else [rng(x[1]) if x[0] == 'all' else x for x in segs]


def agree(ctx, conv, what):
    """one sign convention per class"""
    if len(conv) < 2:
        return
    f0, m0, c0, l0 = conv[0]
    for f, m, c, l in conv[1:]:
        if (m, c) == (m0, c0):
            ctx.check(True, 'sign', f.loc(l), 'convention', 'conv')
        elif m == m0 or what != 'cubes' and not is_num(sub(m, m0)):
            ctx.bad('sign', f.loc(l), '%s gives %s the opposite orientation of %s (%s)' % (short(f.name), what, short(f0.name), f0.loc(l0)), short(f.name) + ':convention')


# ------------------------------------------------------------------ guarded entry points
UNSAFE = ('_add_unsafe', '_add_recursive', '_add_unsafe_recursive')


def entry(ctx, u, f, sortfirst, reserves):
    k0 = cls_of(f.name) + '::' + short(f.name)
    ctx.function(f)
    ctx.count("entry points")
    s = par(f, 0, u)
    K = KEEP - {'add_safe', 'add_directed_safe', 'add_safe_recursive', 'add_directed_recursive_safe'}
    e = Engine(u, vocab=lambda n, x: 'SparseTrie::' in n or short(n) in K and not (short(n) in ('add', 'add_recursive')), maxpaths=20000)
    for p in e.run(f):
        if p.exit == 'throw':
            continue
        srt, res, looked, absent, present = False, False, None, None, None
        valid = None
        lookups = {}
        for it in p.trace:
            if isinstance(it, Ev):
                n = short(it.name)
                if n in ('sort', 'stable_sort') and it.name.startswith('std::') and len(it.args) == 2:
                    a = [unld(x) for x in it.args]
                    if a[0] == ('it', s, 0) and a[1] == ('it', s, size_of(s)):
                        srt = True
                lk = is_lookup(it)
                if lk:
                    if sortfirst and not srt and lk[1] == s:
                        ctx.bad('entry', f.loc(it.line), '%s looks the cell up before its vertices are sorted' % k0, k0 + ':sort')
                    lookups[unld(it.res) if it.res is not None else None] = (short(it.name), lk)
                if it.k == 'call' and n in UNSAFE:
                    if sortfirst:
                        ctx.check(srt, 'entry', f.loc(it.line), '%s adds a cell whose vertices may not be sorted' % k0, k0 + ':sort')
                    fa = Facts([x for x in upto(p, it)])
                    ab = [absent_fact(fa, t, nm, lk) for t, (nm, lk) in lookups.items() if lk[1] == s]
                    if any(a is None for a in ab) and not any(a is True for a in ab):
                        ctx.count("guards not recognised")
                    else:
                        ctx.check(any(a is True for a in ab), 'entry', f.loc(it.line), '%s adds a cell without knowing that it is not there yet' % k0, k0 + ':guard')
                    if reserves:
                        ok = tables_ready(p, it, sub(size_of(s), 1))
                        if ok is None:
                            ctx.count("reservations not recognised")
                        else:
                            ctx.check(ok, 'entry', f.loc(it.line), '%s adds a cell without making room for its dimension' % k0, k0 + ':reserve')
        # the cell was there: its own index is returned
        if not any(isinstance(it, Ev) and short(it.name) in UNSAFE for it in p.trace):
            v = p.val
            if isinstance(v, tuple) and v and v[0] == 'app' and v[1].startswith('new std::vector') and v[2] and isinstance(v[2][0], tuple) and v[2][0][0] == 'list':
                v = v[2][0][1][0] if v[2][0][1] else v
            if isinstance(v, tuple) and v and v[0] == 'list' and v[1]:
                v = v[1][0]
            c = cell(v)
            if c is None:
                ctx.count("results not recognised")
                continue
            ind = unld(c[1])
            if isinstance(ind, tuple) and ind[0] == 'app' and (ind[1].endswith('find_idx') or 'SparseTrie' in ind[1]):
                ctx.check(ind[2][1] == s, 'entry', f.loc(), '%s returns the index of %s for a cell that is there' % (k0, show(ind[2][1])), k0 + ':existing')
            elif is_num(ind):
                ctx.bad('entry', f.loc(), '%s returns index %s for a cell that is there' % (k0, show(ind)), k0 + ':existing')


def absent_fact(fa, t, nm, lk):
    if t is None:
        return None
    if nm == 'count':
        for op, b, yes in (('<', 0, None), ('==', 0, True), ('>', 0, False), ('<', 1, True)):
            if yes is None:
                continue
            r = fa.holds(op, t, b)
            if r is not None:
                return r == yes
    r = fa.holds('==', t, NO_IND)
    if r is not None:
        return r
    # no condition mentions the lookup: it does not guard anything
    for x in fa.st.facts:
        if any(y == t for y in subterms(x)):
            return None
    return False


def tables_ready(p, ev, D):
    """on every path to ev: |_ncells| > D known"""
    fa = Facts()
    N = size_of(field(('this',), '_ncells'))
    grown = False
    for it in p.trace:
        if it is ev:
            break
        if isinstance(it, Cond):
            fa.add(it)
        if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'resize' and tname_(it.obj) == '_ncells' and unld(it.obj) == field(('this',), '_ncells'):
            if unld(it.args[0]) == add(D, 1):
                grown = True
            else:
                return None
    r = fa.holds('<', N, add(D, 1))
    if r is None:
        for x in fa.st.facts:
            if any(y == N for y in subterms(x)):
                return None
        return False
    return grown if r else True


def reserved(ctx, u, cls):
    """reserve(maxdim) makes every table reach the dimension"""
    for f in uniq(u, NS + cls + '::reserve', lambda f: len(f.d['ps']) == 1):
        ctx.function(f)
        m = par(f, 0, u)
        want = {'_ncells': add(m, 1), '_reserved': add(m, 1), 'spx': add(m, 1), 'faces': m, 'coeff': m, 'ptr': m, 'bdr': m}
        for p in eng(u, f).run(f):
            fa = Facts(p.trace)
            for t, w in want.items():
                T = field(('this',), t)
                rs = [it for it in p.trace if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'resize' and unld(it.obj) == T]
                mention = any(any(y == size_of(T) for y in subterms(x)) for x in fa.st.facts)
                if rs:
                    a = unld(rs[-1].args[0])
                    d = sub(a, w)
                    if is_num(d):
                        ctx.check(d >= 0, 'reserve', f.loc(rs[-1].line), '%s::reserve sizes %s for %s dimensions too few' % (cls, t, -d), cls + ':reserve')
                elif mention:
                    r = fa.holds('<', size_of(T), w)
                    if r is True:
                        ctx.bad('reserve', f.loc(), '%s::reserve leaves %s too short' % (cls, t), cls + ':reserve')
                    else:
                        # not known to be long enough
                        ctx.check(r is False or any(fa.holds('<', size_of(T), add(w, i)) is False for i in range(1, 4)), 'reserve', f.loc(), '%s::reserve may leave %s too short' % (cls, t), cls + ':reserve')


# ------------------------------------------------------------------------------ readers
def readers(ctx, u):
    S = lambda cls, n, k=None: uniq(u, NS + cls + '::' + n, lambda f: k is None or len(f.d['ps']) == k)
    T = lambda n: field(('this',), n)

    def iters(cls, n, tab, dimoff, stride, plus):
        fs = S(cls, n, 2)
        ctx.need(fs, 'anchor vanished: %s::%s' % (cls, n))
        for f in fs:
            ctx.function(f)
            ctx.count("readers")
            d, i = par(f, 0, u), par(f, 1, u)
            for p in eng(u, f).run(f):
                v = unld(p.val) if isinstance(p.val, tuple) else p.val
                if isinstance(v, tuple) and v[0] == 'it':
                    want = ('it', ('ix', T(tab), sub(d, dimoff)), mul(stride(d), add(i, plus)))
                    ctx.check(v == want, 'stride', f.loc(), '%s::%s points to %s instead of %s' % (cls, n, show(v), show(want)), cls + '::' + n)
                else:
                    ctx.count("readers not recognised")
    sd = lambda d: add(d, 1)
    cd = lambda d: mul(2, d)
    md = lambda d: mul(2, T('__maxdim'))
    for a, b in (('begin', 0), ('end', 1)):
        iters('SimplicialComplex', 'faces_' + a, 'faces', 1, sd, b)
        iters('SimplicialComplex', 'simplex_' + a, 'spx', 0, sd, b)
        iters('CubicalComplex', 'faces_' + a, 'faces', 1, cd, b)
        iters('CubicalComplex', 'cell_' + a, 'spx', 0, md, b)
    # one cell
    for cls, n, stride in (('SimplicialComplex', 'get_simplex', sd), ('CubicalComplex', 'get_cube', md)):
        for f in S(cls, n):
            ctx.function(f)
            ctx.count("readers")
            d, i = par(f, 0, u), par(f, 1, u)
            for p in eng(u, f, drop=('get_simplex', 'get_cube')).run(f):
                sq = Seqs().run(p.trace)
                out = par(f, 2, u) if len(f.d['ps']) > 2 else p.val
                got = sq.get(out) if isinstance(out, tuple) else None
                want = [('for', X(), mul(stride(d), i), mul(stride(d), add(i, 1)), ('ix', ('ix', T('spx'), d), X()))]
                r = eqs(got, want)
                if r is None:
                    ctx.count("readers not recognised")
                else:
                    ctx.check(r, 'stride', f.loc(), '%s::%s returns %s' % (cls, n, shows(got)), cls + '::' + n)
    # the boundary of one simplex
    for f in S('SimplicialComplex', 'boundary', 2):
        ctx.function(f)
        ctx.count("readers")
        d, i = par(f, 0, u), par(f, 1, u)
        for p in eng(u, f).run(f):
            sq = Seqs().run(p.trace)
            v = p.val
            parts = None
            if isinstance(v, tuple) and v and v[0] == 'tup':
                parts = [x for _, x in v[1]]
            elif isinstance(v, tuple) and v and v[0] == 'app' and len(v[2]) == 2:
                parts = list(v[2])
            if not parts or len(parts) != 2:
                ctx.count("readers not recognised")
                continue
            for x, tab in zip(parts, ('faces', 'coeff')):
                got = sq.get(x)
                want = [('for', X(), mul(sd(d), i), mul(sd(d), add(i, 1)), ('ix', ('ix', T(tab), sub(d, 1)), X()))]
                r = eqs(got, want)
                if r is None:
                    ctx.count("readers not recognised")
                else:
                    ctx.check(r, 'stride', f.loc(), 'boundary returns %s' % shows(got), 'boundary')
    # boundary matrices
    for cls, stride in (('SimplicialComplex', sd), ('CubicalComplex', cd), ('LightSimplicialComplex', sd)):
        fs = S(cls, 'boundary_csc', 1)
        ctx.need(fs, 'anchor vanished: %s::boundary_csc' % cls)
        for f in fs:
            ctx.function(f)
            ctx.count("readers")
            csc(ctx, u, f, cls, stride(par(f, 0, u)))
    for f in S('CellComplex', 'boundary_csc', 1):
        ctx.function(f)
        ctx.count("readers")
        d = par(f, 0, u)
        for p in eng(u, f, drop=('ncells',)).run(f):
            v = unld(p.val)
            if isinstance(v, tuple) and v[0] == 'app' and v[1].startswith('new') and len(v[2]) == 5:
                for got, t in zip(v[2][2:], ('ptr', 'bdr', 'coeff')):
                    ctx.check(got == ('ix', T(t), sub(d, 1)), 'csc', f.loc(), 'CellComplex::boundary_csc passes %s as %s' % (show(got), t), 'cell:csc')
                k0 = 'cell:csc'
                for got, x in zip(v[2][:2], (sub(d, 1), d)):
                    if got == 0 or is_num(got):
                        continue
                    ctx.check(got == ('ix', T('_ncells'), x), 'csc', f.loc(), 'CellComplex::boundary_csc has size %s' % show(got), k0)
    # number of cells
    for cls in ('SimplicialComplex', 'CubicalComplex', 'CellComplex', 'LightSimplicialComplex'):
        for f in S(cls, 'ncells', 0):
            ctx.function(f)
            ctx.count("readers")
            for p in eng(u, f, keep=('maxdim',)).run(f):
                for it in p.trace:
                    if isinstance(it, Loop):
                        tr = trip(it)
                        if tr is None:
                            continue
                        md_ = maxdims(tr[2])
                        if it.kind == 'rfor':
                            continue
                        if md_ is not None or is_num(tr[1]):
                            if md_ is not None:
                                ctx.check(tr[1] == 0 and md_ == 1, 'coverage', f.loc(it.line), '%s::ncells counts the dimensions %s..%s' % (cls, show(tr[1]), show(sub(tr[2], 1))), cls + '::ncells')
    # lists of cells
    for cls, n, stride in (('SimplicialComplex', 'get_simplices', sd), ('CubicalComplex', 'get_cubes', md), ('SimplicialComplex', 'union_add', sd)):
        for f in S(cls, n):
            ctx.function(f)
            ctx.count("readers")
            chunks(ctx, u, f, cls, n, stride)


def maxdims(hi):
    """hi = number of dimensions + c - 1 of some complex: returns c (1 = all dimensions)"""
    for m, c in poly(unld(hi)).items():
        if len(m) == 1 and c == 1:
            t = m[0]
            d = sub(unld(hi), t)
            if not is_num(d):
                continue
            if isinstance(t, tuple) and t[0] == 'size' and isinstance(t[1], tuple) and t[1][0] == 'f' and t[1][2] in ('_ncells', 'spx'):
                return d + 1
            if isinstance(t, tuple) and t[0] == 'f' and t[2] in ('__maxdim', '_k'):
                return d
            if isinstance(t, tuple) and t[0] == 'app' and t[1].endswith('maxdim'):
                return d
    return None


def csc(ctx, u, f, cls, stride):
    d = par(f, 0, u)
    T = lambda n: field(('this',), n)
    k0 = cls + ':csc'
    for p in eng(u, f, drop=('ncells',)).run(f):
        if p.exit == 'throw':
            continue
        v = p.val
        if not (isinstance(v, tuple) and v[0] == 'app' and v[1].startswith('new') and len(v[2]) == 5):
            ctx.count("readers not recognised")
            continue
        m, n, cp, ri, iv = (unld(x) for x in v[2])
        cnt = (lambda x: size_of(('ix', T('index_to_key'), x))) if cls.startswith('Light') else (lambda x: ('ix', T('_ncells'), x))
        ctx.check((m, n) == (cnt(sub(d, 1)), cnt(d)), 'csc', f.loc(), '%s::boundary_csc has size %s x %s' % (cls, show(m), show(n)), k0)
        # column pointers: 0, stride, 2*stride, ...
        for it in p.trace:
            if not isinstance(it, Loop):
                continue
            w = [e for q in group(it.paths) for e in q.trace if isinstance(e, Ev) and e.k == 'set' and unld(e.obj)[0] == 'ix' and unld(unld(e.obj)[1]) == cp]
            if not w:
                continue
            tr = trip(it)
            if tr is None or len(group(it.paths)) != 1:
                ctx.count("readers not recognised")
                continue
            q = group(it.paths)[0]
            e = w[0]
            val = e.args[0]
            dd = next((x for x, (nm, sy) in it.syms.items() if val == sy), None)
            ctx.check(tr[1] == 0 and tr[3] == 1 and (tr[2] == size_of(cp) or tr[2] == add(n, 1) or unld(cp)[2][0] == tr[2]), 'csc', f.loc(it.line), '%s::boundary_csc fills the column pointers %s..%s only' % (cls, show(tr[1]), show(tr[2])), k0)
            if dd is not None and dd in it.start and dd != [x for x, (nm, sy) in it.syms.items() if sy == tr[0]][0]:
                inc = sub(unld(q.env.get(dd)), it.syms[dd][1])
                ctx.check(it.start[dd] == 0 and inc == stride, 'csc', f.loc(it.line), '%s::boundary_csc gives every column %s entries instead of %s' % (cls, show(inc), show(stride)), k0)
            else:
                c = coef(unld(val), tr[0])
                if c is None:
                    # not linear with an integer factor:  val == stride * j
                    ctx.check(unld(val) == mul(stride, tr[0]), 'csc', f.loc(it.line), '%s::boundary_csc stores the column pointer %s' % (cls, show(unld(val))), k0)
        if cls.startswith('Light'):
            continue
        for e in p.trace:
            if isinstance(e, Ev) and e.k in ('call', 'pure') and len(e.args) >= 2:
                a, b = unld(e.args[0]), unld(e.args[1])
                if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ('it',):
                    ctx.check(unld(a[1]) == unld(b[1]), 'csc', f.loc(e.line), '%s::boundary_csc reads from %s to the end of %s' % (cls, show(unld(a[1])), show(unld(b[1]))), k0)
        sq = Seqs().run(p.trace)
        for x, t in ((ri, 'faces'), (iv, 'coeff')):
            got = sq.get(x)
            want = [rng(('ix', T(t), sub(d, 1)))]
            r = eqs(got, want) if got is not None else None
            if x == ('ix', T(t), sub(d, 1)):
                r = True
            if r is None:
                ctx.count("readers not recognised")
            else:
                ctx.check(r, 'csc', f.loc(), '%s::boundary_csc passes %s instead of all of %s' % (cls, shows(got), t), k0)


def chunks(ctx, u, f, cls, n, stride):
    """loops over the flat list of cells that cut it into cells"""
    k0 = cls + '::' + n
    owner = ('this',)
    ps = f.d['ps']
    if n == 'union_add':
        owner = par(f, 0, u)
    for p in eng(u, f).run(f):
        for L, q0, ctxl in loops_of([p]):
            r = unld(L.rng) if L.kind == 'rfor' else None
            if r is None or not (isinstance(r, tuple) and r[0] == 'ix' and unld(r[1]) == field(owner, 'spx')):
                continue
            d = r[2]
            if ctxl:
                tr = trip(ctxl[-1])
                if tr is not None and maxdims(tr[2]) is not None and tr[0] == d:
                    ctx.check(tr[1] == 0 and maxdims(tr[2]) == 1, 'coverage', f.loc(ctxl[-1].line), '%s visits the dimensions %s..%s' % (k0, show(tr[1]), show(sub(tr[2], 1))), k0)
                    own = tr[2]
                    if any(t == owner for t in subterms(own)) is False:
                        ctx.bad('coverage', f.loc(ctxl[-1].line), '%s visits the dimensions of another complex' % k0, k0)
            sd_ = stride(d) if n != 'union_add' else add(d, 1)
            for q in L.paths:
                pu = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace_back', 'push_back') and unld(e.args[0]) == ('ix', r, L.var)]
                if len(pu) != 1:
                    ctx.count("readers not recognised")
                    continue
                s = unld(pu[0].obj)
                fl = [e for e in q.trace if isinstance(e, Ev) and e is not pu[0] and any(unld(a) == s for a in e.args)]
                cl = [e for e in q.trace if isinstance(e, Ev) and short(e.name) == 'clear' and unld(e.obj) == s]
                fa = Facts(q.trace)
                full = fa.holds('==', size_of(s), sd_)
                if full is None:
                    cc = [c for c in conds(q) if any(y == size_of(s) for y in subterms(unld(c.t)))]
                    if cc:
                        ctx.bad('stride', f.loc(cc[0].line), '%s cuts the list of cells where %r' % (k0, cc[0]), k0)
                    continue
                if full:
                    ctx.check(len(fl) == 1, 'stride', f.loc(L.line), '%s does not store a complete cell' % k0, k0)
                    ctx.check(len(cl) == 1, 'stride', f.loc(L.line), '%s does not start afresh after a cell' % k0, k0)
                else:
                    ctx.check(not fl and not cl, 'stride', f.loc(L.line), '%s stores an incomplete cell' % k0, k0)


# --------------------------------------------------------------------- set operations
def cellloops(p):
    """(event, [loops around it], path) of calls in nested loops"""
    for q, ctxl in all_paths([p]):
        for it in q.trace:
            if isinstance(it, Ev) and it.k in ('call', 'pure', 'set'):
                yield it, ctxl, q


def covers(ctx, f, ev, ctxl, cpx, k0, dim=None, counts=('_ncells',)):
    """the call is reached for every cell of every dimension of cpx: returns (d, i) symbols"""
    if len(ctxl) < 1:
        return None
    inner = trip(ctxl[-1])
    if inner is None:
        return None
    d = dim
    if dim is None:
        if len(ctxl) < 2:
            return None
        outer = trip(ctxl[-2])
        if outer is None:
            return None
        md = maxdims(outer[2])
        if md is not None:
            own = any(t == cpx for t in subterms(unld(outer[2])))
            ctx.check(outer[1] == 0 and md == 1 and own, 'coverage', f.loc(ctxl[-2].line), '%s visits the dimensions %s..%s%s' % (k0, show(outer[1]), show(sub(outer[2], 1)), '' if own else ' of another complex'), k0)
        d = outer[0]
    n = ('ix', field(cpx, '_ncells'), d)
    n2 = ('size', ('ix', field(cpx, 'index_to_key'), d), 0)
    hi = inner[2]
    apphi = isinstance(hi, tuple) and hi[0] == 'app' and hi[1].endswith('ncells')
    if hi in (n, n2) or apphi:
        okn = hi in (n, n2) or apphi and hi[2] and hi[2][0] == cpx and hi[2][-1] == d
        ctx.check(inner[1] == 0 and okn, 'coverage', f.loc(ctxl[-1].line), '%s visits the cells %s..%s' % (k0, show(inner[1]), show(sub(hi, 1))), k0)
    elif any(isinstance(t, tuple) and t and t[0] == 'f' and t[2] in ('_ncells', 'index_to_key') for t in subterms(hi)):
        ctx.bad('coverage', f.loc(ctxl[-1].line), '%s visits the cells below %s of dimension %s' % (k0, show(hi), show(d)), k0)
    return d, inner[0]


def setops(ctx, u):
    # union / intersection / indices / skeleton
    for f in uniq(u, NS + 'simplicial_union'):
        ctx.function(f)
        ctx.count("set operations")
        Xs = [par(f, 0, u), par(f, 1, u)]
        for p in eng(u, f).run(f):
            seen = set()
            for ev, ctxl, q in cellloops(p):
                if short(ev.name) in ('add_safe', 'add', 'add_directed_safe') and ctxl:
                    src = cellsource(ev.args[0], p)
                    if src is None:
                        ctx.count("set operations not recognised")
                        seen = None
                        break
                    C, d, i = src
                    seen.add(C)
                    cv = covers(ctx, f, ev, ctxl, C, 'simplicial_union')
                    if cv:
                        ctx.check(cv == (d, i), 'coverage', f.loc(ev.line), 'simplicial_union adds cell (%s, %s) in iteration (%s, %s)' % (show(d), show(i), show(cv[0]), show(cv[1])), 'simplicial_union')
            if seen is not None:
                ctx.check(seen == set(Xs) or not seen, 'coverage', f.loc(), 'simplicial_union adds only the cells of %s' % ', '.join(show(x) for x in seen), 'simplicial_union')
    for f in uniq(u, NS + 'intersection', lambda f: len(f.d['ps']) == 2 and 'SimplicialComplex' in u.type(f.d['ps'][0]['t'])):
        ctx.function(f)
        ctx.count("set operations")
        A, B = par(f, 0, u), par(f, 1, u)
        for p in eng(u, f).run(f):
            for ev, ctxl, q in cellloops(p):
                if not ctxl:
                    continue
                if short(ev.name) in UNSAFE + ('add_safe', 'add', 'add_directed_safe'):
                    src = cellsource(ev.args[0], p)
                    if src is None:
                        ctx.count("set operations not recognised")
                        continue
                    C, d, i = src
                    cv = covers(ctx, f, ev, ctxl, C, 'intersection')
                    if cv:
                        ctx.check(cv == (d, i), 'coverage', f.loc(ev.line), 'intersection adds cell (%s, %s) in iteration (%s, %s)' % (show(d), show(i), show(cv[0]), show(cv[1])), 'intersection')
                    other = B if C == A else A
                    g = member(q, other, ev)
                    ctx.check(g is not False, 'guard', f.loc(ev.line), 'intersection adds a cell %s' % ('that the other complex lacks'), 'intersection')
                # nothing else decides membership
            for q, ctxl in all_paths([p]):
                if len(ctxl) == 2 and q.exit in ('n', 'c') and not any(isinstance(e, Ev) and short(e.name) in UNSAFE + ('add_safe', 'add', 'add_directed_safe') for e in q.trace):
                    g = [member(q, C, None) for C in (A, B)]
                    if True in g:
                        ctx.bad('guard', f.loc(), 'intersection leaves out a cell of both complexes', 'intersection')
    for f in uniq(u, NS + 'SimplicialComplex::get_indices'):
        ctx.function(f)
        ctx.count("set operations")
        A = par(f, 0, u)
        dim = par(f, 1, u) if len(f.d['ps']) > 1 else None
        for p in eng(u, f, drop=('ncells',)).run(f):
            if dim is not None and not any(isinstance(it, Loop) for it in p.trace):
                fa = Facts(p.trace)
                top = sub(size_of(field(A, '_ncells')), 1)
                r = fa.holds('<', top, dim)
                z = fa.holds('==', ('ix', field(A, '_ncells'), dim), 0)
                ctx.check(r is True or z is True, 'coverage', f.loc(), 'get_indices gives up although the dimension may have cells', 'get_indices')
            for ev, ctxl, q in cellloops(p):
                if not ctxl or ev.k not in ('set', 'call') or ev.name == 'init':
                    continue
                for a in ev.args:
                    a = unld(a)
                    if isinstance(a, tuple) and a and a[0] == 'app' and a[1].endswith('find_idx') and ev.k == 'set' or (isinstance(a, tuple) and a and a[0] == 'app' and a[1].endswith('find_idx') and short(ev.name) in PUSH):
                        ctx.check(a[2][0] == ('this',), 'coverage', f.loc(ev.line), 'get_indices looks the cell up in %s' % show(a[2][0]), 'get_indices')
                        src = cellsource(a[2][1], p)
                        if src is None:
                            ctx.count("set operations not recognised")
                            continue
                        C, d, i = src
                        ctx.check(C == A, 'coverage', f.loc(ev.line), 'get_indices looks up the cells of %s' % show(C), 'get_indices')
                        if dim is not None:
                            cv = covers(ctx, f, ev, ctxl, A, 'get_indices', dim)
                        else:
                            tr = trip(ctxl[-1])
                            cv = (d, tr[0]) if tr else None
                        if cv:
                            ctx.check(cv == (d, i), 'coverage', f.loc(ev.line), 'get_indices looks up cell (%s, %s) in iteration (%s, %s)' % (show(d), show(i), show(cv[0]), show(cv[1])), 'get_indices')
                        if ev.k == 'set':
                            o = unld(ev.obj)
                            ctx.check(o[0] == 'ix' and o[2] == i, 'coverage', f.loc(ev.line), 'get_indices stores the index of cell %s at %s' % (show(i), show(o)), 'get_indices')
    for f in uniq(u, NS + 'CubicalComplex::skeleton'):
        ctx.function(f)
        ctx.count("set operations")
        k = par(f, 0, u)
        for p in eng(u, f).run(f):
            for L, q, ctxl in loops_of([p]):
                tr = trip(L)
                if tr is None or L.kind == 'rfor' and ctxl:
                    continue
                calls = [e for q2 in L.paths for e in deep(q2.trace) if isinstance(e, Ev) and short(e.name) in UNSAFE + ('add_safe', 'add')]
                if not calls or L.kind == 'rfor':
                    continue
                if not ctxl:
                    d = sub(tr[2], k)
                    if is_num(d):
                        ctx.check(tr[1] == 0 and d == 1 and tr[3] == 1, 'coverage', f.loc(L.line), 'skeleton(k) keeps the dimensions %s..%s' % (show(tr[1]), show(sub(tr[2], 1))), 'skeleton')
                    for e in calls:
                        a = unld(e.args[0])
                        src = next((t for t in subterms(a) if isinstance(t, tuple) and t and t[0] == 'app' and t[1].endswith('get_cubes')), None)
                        if src is not None:
                            ctx.check(src[2] == (('this',), tr[0]), 'coverage', f.loc(e.line), 'skeleton adds %s in dimension %s' % (show(src), show(tr[0])), 'skeleton')


def cellsource(t, p):
    """the cell a vector holds: (complex, dim, index)"""
    t0 = t
    t = unld(t)
    if isinstance(t, tuple) and t and t[0] == 'app' and short(t[1]) in ('get_simplex', 'get_cell', 'get_cube') and len(t[2]) == 3:
        return t[2]
    if isinstance(t, tuple) and t and t[0] == 'v':
        # filled by get_cell(d, i, s) or initialised from a value on some path around
        found = None
        for q, _ in all_paths([p]):
            for it in q.trace:
                if isinstance(it, Ev):
                    if it.k == 'set' and it.name == 'init' and unld(it.obj) == t and it.args:
                        r = cellsource(it.args[0], p) if unld(it.args[0]) != t else None
                        if r:
                            found = r
                    elif it.k == 'call' and short(it.name) in ('get_simplex', 'get_cell', 'get_cube') and len(it.args) == 3 and unld(it.args[2]) == t:
                        found = (unld(it.obj), unld(it.args[0]), unld(it.args[1]))
        return found
    return None


def member(q, C, ev):
    """what the path knows about the cell being in C: True / False (unknown or absent) / None"""
    fa = Facts(q.trace if ev is None else upto(q, ev))
    for t, pol in fa.st.facts.items():
        for x in subterms(t):
            if isinstance(x, tuple) and x and x[0] == 'app' and (x[1].endswith('find_idx') or 'SparseTrie' in x[1]) and x[2] and (x[2][0] == C or x[2][0] == field(C, 'spx_to_idx')):
                r = fa.holds('==', x, NO_IND)
                if r is not None:
                    return not r
                r = fa.holds('==', x, 0)
                if r is not None and 'count' in x[1]:
                    return not r
                r = fa.holds('<', 0, x)
                if r is not None and 'count' in x[1]:
                    return r
                return None
    return False if ev is not None else None


# --------------------------------------------------------------------------------- maps
def maps(ctx, u):
    fs = [f for f in inst(u, NS + 'SimplicialMap', lambda f: len(f.d['ps']) == 3)] + [f for f in inst(u, NS + 'CellularMap::CellularMap', lambda f: len(f.d['ps']) == 2)]
    ctx.need(fs, 'anchor vanished: SimplicialMap / CellularMap(X, Y)')
    for f in fs:
        ctx.function(f)
        ctx.count("maps")
        k0 = short(f.name)
        A, B = par(f, 0, u), par(f, 1, u)
        f0 = par(f, 2, u) if len(f.d['ps']) > 2 else None
        for p in eng(u, f, drop=('ncells',)).run(f):
            for q, ctxl in all_paths([p]):
                if len(ctxl) != 2:
                    if len(ctxl) == 1 and q.exit in ('n', 'c'):
                        mapmatrix(ctx, f, q, ctxl[0], A, B, k0)
                    continue
                if q.exit not in ('n', 'c') or not group([q]):
                    continue
                L = ctxl[-1]
                tr, to = trip(L), trip(ctxl[0])
                pu = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in PUSH and e.args and isinstance(unld(e.args[0]), tuple) and unld(e.args[0])[0] == 'app' and 'SparseVector' in unld(e.args[0])[1]]
                if tr is None or to is None:
                    ctx.count("maps not recognised")
                    continue
                if not any(isinstance(e, Ev) and (short(e.name) in ('find_idx', 'get_simplex', 'get_cell')) for e in q.trace):
                    continue
                # every iteration adds exactly one column
                if any(isinstance(e, Ev) and e.k == 'set' and col_of(e.obj) for e in q.trace):
                    continue
                ctx.check(len(pu) == 1, 'map', f.loc(L.line), '%s gives a cell %d columns' % (k0, len(pu)), k0 + ':column')
                cv = covers(ctx, f, pu[0] if pu else None, ctxl, A, k0)
                if len(pu) != 1:
                    continue
                e = pu[0]
                v = unld(e.args[0])
                sq, looked, sign = Seqs(), None, None
                img = {}
                source = None
                for it in q.trace:
                    if isinstance(it, Ev):
                        n = short(it.name)
                        if n in ('get_simplex', 'get_cell', 'get_cube'):
                            src = (unld(it.obj), unld(it.args[0]), unld(it.args[1]))
                            source = src
                            if len(it.args) == 3:
                                sq.env[unld(it.args[2])] = [('all', ('src',) + src)]
                        if n == 'simplex_sign':
                            sign = (it, sq.get(it.args[0]), unld(it.args[0]))
                        if n == 'find_idx':
                            looked = (it, sq.get(it.args[0]), unld(it.args[0]), unld(it.obj))
                    sq.item(it)
                if source is not None and cv:
                    ctx.check(source == (A, cv[0], cv[1]), 'map', f.loc(L.line), '%s maps cell (%s, %s) of %s in iteration (%s, %s)' % (k0, show(source[1]), show(source[2]), show(source[0]), show(cv[0]), show(cv[1])), k0 + ':source')
                fa = Facts(upto(q, e))
                args = v[2]
                if sign is not None:
                    sres = unld(sign[0].res)
                    nz = fa.holds('==', sres, 0)
                    # the image of every vertex
                    want = None
                    if f0 is not None and source is not None:
                        ap = None
                        if sign[1] is not None:
                            segs = norm(sign[1])
                            if len(segs) == 1 and segs[0][0] == 'for':
                                t = segs[0][4]
                                inner = t[2] if isinstance(t, tuple) and t[0] == 'ix' and unld(t[1]) == f0 else None
                                ctx.check(inner is not None and cellsource(unld(inner)[1], p) == source if isinstance(inner, tuple) and inner[0] == 'ix' else inner is not None, 'map', f.loc(sign[0].line), '%s takes %s as the image of a simplex' % (k0, shows(sign[1])), k0 + ':image')
                    if len(args) == 0:
                        ctx.check(nz is True, 'map', f.loc(e.line), '%s gives a non-degenerate simplex an empty column' % k0, k0 + ':degenerate')
                        continue
                    ctx.check(nz is False, 'map', f.loc(e.line), '%s gives a degenerate simplex a non-empty column' % k0, k0 + ':degenerate')
                elif len(args) == 0:
                    ctx.bad('map', f.loc(e.line), '%s drops a cell' % k0, k0 + ':column')
                    continue
                if looked is None:
                    ctx.count("maps not recognised")
                    continue
                ctx.check(looked[3] == B, 'map', f.loc(looked[0].line), '%s looks the image up in %s' % (k0, show(looked[3])), k0 + ':target')
                lres = unld(looked[0].res)
                ctx.check(fa.holds('==', lres, NO_IND) is False, 'map', f.loc(e.line), '%s stores a column although the image is missing' % k0, k0 + ':missing')
                one = lambda t: t[1][0] if isinstance(t, tuple) and t and t[0] == 'list' and len(t[1]) == 1 else None
                if len(args) >= 2:
                    i, c = one(args[0]), one(args[1])
                    if i is not None:
                        ctx.check(i == lres, 'map', f.loc(e.line), '%s stores row %s instead of the index of the image' % (k0, show(i)), k0 + ':row')
                    if c is not None:
                        w = unld(sign[0].res) if sign is not None else 1
                        ctx.check(c == w, 'map', f.loc(e.line), '%s stores the coefficient %s instead of %s' % (k0, show(c), show(w)), k0 + ':sign')
                if f0 is not None and sign is None:
                    ctx.bad('map', f.loc(e.line), '%s ignores the orientation of the image' % k0, k0 + ':sign')
    for f in inst(u, NS + 'CellularMap::identity'):
        ctx.function(f)
        ctx.count("maps")
        A = par(f, 0, u)
        for p in eng(u, f, drop=('ncells',)).run(f):
            for L, q0, ctxl in loops_of([p]):
                tr = trip(L)
                if tr is None or ctxl:
                    continue
                md = maxdims(tr[2])
                if md is not None:
                    ctx.check(tr[1] == 0 and md == 1, 'coverage', f.loc(L.line), 'identity visits the dimensions %s..%s' % (show(tr[1]), show(sub(tr[2], 1))), 'identity')
                for q in group(L.paths):
                    for e in q.trace:
                        for a in (e.args or ()) if isinstance(e, Ev) else ():
                            t = unld(a)
                            if isinstance(t, tuple) and t and t[0] == 'app' and t[1].endswith('identity') and t[2]:
                                w = (('ix', field(A, '_ncells'), tr[0]),)
                                ctx.check(t[2][-1] in w, 'map', f.loc(e.line), 'the identity map of dimension %s has size %s' % (show(tr[0]), show(t[2][-1])), 'identity')
    # orientation of a vertex list
    for f in inst(u, NS + 'util::simplex_sign'):
        ctx.function(f)
        ctx.count("maps")
        s = par(f, 0, u)
        for p in eng(u, f).run(f):
            if p.exit != 'ret':
                continue
            ev = [it for it in p.trace if isinstance(it, Ev)]
            sp = [e for e in ev if short(e.name) == 'sortperm' and unld(e.args[0]) == s]
            ap = [e for e in ev if short(e.name) == 'apply_perm' and unld(e.args[0]) == s]
            dg = [e for e in ev if short(e.name) == 'is_degenerate' and unld(e.args[0]) == s]
            if not sp or not dg:
                ctx.count("maps not recognised")
                continue
            if ap:
                ctx.check(ev.index(ap[0]) < ev.index(dg[0]), 'orientation', f.loc(dg[0].line), 'simplex_sign tests an unsorted list for degeneracy', 'simplex_sign')
            else:
                ctx.check(any(short(e.name) in ('sort', 'stable_sort') for e in ev), 'orientation', f.loc(), 'simplex_sign does not sort the list it tests', 'simplex_sign')
            fa = Facts(p.trace)
            t = unld(dg[0].res)
            d = fa.st.facts.get(('truth', t))
            if d is None:
                d = next((pol for x, pol in fa.st.facts.items() if any(y == t for y in subterms(x))), None)
            if d is True:
                ctx.check(p.val == 0, 'orientation', f.loc(), 'simplex_sign returns %s for a degenerate list' % show(p.val), 'simplex_sign')
            elif d is False:
                v = unld(p.val)
                ok = isinstance(v, tuple) and v[0] == 'app' and v[1].endswith('perm_sign')
                if is_num(v) or ok is False and poly(v) and any(isinstance(m[0], tuple) and m[0][0] == 'app' and m[0][1].endswith('perm_sign') for m in poly(v) if m):
                    ctx.bad('orientation', f.loc(), 'simplex_sign returns %s' % show(v), 'simplex_sign')
    for f in inst(u, NS + 'util::is_degenerate'):
        ctx.function(f)
        s = par(f, 0, u)
        for p in eng(u, f, drop=('is_degenerate',)).run(f):
            for it in p.trace:
                if not isinstance(it, Loop):
                    continue
                tr = trip(it)
                if tr is None or tr[3] != 1:
                    continue
                for q in it.paths:
                    for c in conds(q):
                        t = unld(c.t)
                        if t[0] == 'cmp' and t[1] == '==' and all(isinstance(x, tuple) and x[0] == 'ix' and unld(x[1]) == s for x in t[2:4]):
                            a, b = coef(t[2][2], tr[0]), coef(t[3][2], tr[0])
                            if a and b and {a[0], b[0]} == {0, 1} and is_num(a[1]) and is_num(b[1]):
                                ctx.bad('orientation', f.loc(c.line), 'is_degenerate compares every entry with a fixed one', 'is_degenerate')
                            if not (a and b and a[0] == b[0] == 1 and is_num(a[1]) and is_num(b[1])):
                                continue
                            dlt = abs(a[1] - b[1])
                            ctx.check(dlt == 1, 'orientation', f.loc(c.line), 'is_degenerate compares entries %d apart' % dlt, 'is_degenerate')
                            first = add(tr[1], min(a[1], b[1]))
                            last_ = add(tr[2], max(a[1], b[1]))
                            ctx.check(first == 0 and last_ == size_of(s), 'orientation', f.loc(c.line), 'is_degenerate compares the entries from %s to %s only' % (show(first), show(sub(last_, 1))), 'is_degenerate')
                            if q.exit == 'ret':
                                ctx.check(c.pol, 'orientation', f.loc(c.line), 'is_degenerate stops at entries that differ', 'is_degenerate')


def mapmatrix(ctx, f, q, L, A, B, k0):
    tr = trip(L)
    for e in q.trace:
        if not isinstance(e, Ev) or e.k not in ('set', 'call') or not e.args:
            continue
        v = unld(e.args[0])
        if isinstance(v, tuple) and v[0] == 'app' and v[1] == 'new ColumnMatrix' and len(v[2]) == 3 and tr is not None:
            k = tr[0]
            for i, C in ((0, B), (1, A)):
                got = v[2][i]
                a, b = ('ix', field(C, '_ncells'), k), size_of(('ix', field(C, 'index_to_key'), k))
                ctx.check(got in (a, b), 'map', f.loc(e.line), '%s makes a matrix with %s %s' % (k0, show(got), ('rows', 'columns')[i]), k0 + ':size')
            o = unld(e.obj)
            if isinstance(o, tuple) and o[0] == 'ix' and e.k == 'set':
                ctx.check(o[2] == k, 'map', f.loc(e.line), '%s stores the matrix of dimension %s at %s' % (k0, show(k), show(o[2])), k0 + ':place')
            md = maxdims(tr[2])
            if md is not None:
                ctx.check(tr[1] == 0 and md == 1, 'coverage', f.loc(L.line), '%s makes matrices for the dimensions %s..%s' % (k0, show(tr[1]), show(sub(tr[2], 1))), k0 + ':dims')


# -------------------------------------------------------------------------------- light
def light(ctx, u):
    C = NS + 'LightSimplicialComplex::'
    I = C + 'simplex_boundary_iterator::'
    T = lambda n: field(('this',), n)
    OFF = lambda o, i: ('ix', field(o, '_offset'), i)
    P = unld(field(field(('this',), 'p'), ''))[1]
    fs = uniq(u, I + 'next')
    ctx.need(fs, 'anchor vanished: simplex_boundary_iterator::next')

    def offs(t):
        """offset table terms, however the parent is reached"""
        return [x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'ix' and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][2] == '_offset']

    def state(p):
        st = {}
        for it in p.trace:
            if isinstance(it, Ev) and it.k == 'set' and it.name != 'init' and isinstance(unld(it.obj), tuple) and unld(it.obj)[0] == 'f' and unld(it.obj)[1] == ('this',):
                st[unld(it.obj)[2]] = (final(it.args[0], st), it.line)
        return st

    def final(v, st):
        """value in terms of the fields on entry"""
        return resolve(v, st)

    def resolve(v, st):
        return v

    for f in fs + uniq(u, I + 'operator++'):
        ctx.function(f)
        ctx.count("light")
        nm = short(f.name)
        i, c, b, a = T('i'), T('c'), T('before'), T('after')
        for p in Engine(u, vocab=lambda n, x: False).run(f):
            st = state(p)
            ol = None
            for k, (v, l) in list(st.items()):
                for x in offs(unld(v)):
                    ol = ol or x[1]
            if ol is None:
                ctx.count("light not recognised")
                continue
            off = lambda j: ('ix', ol, j)
            digit = ('app', '/', (b, off(i)), 0)
            rest = sub(b, mul(digit, off(i)))
            fa = Facts([x for x in p.trace if isinstance(x, Cond)])
            w = {'before': rest, 'i': sub(i, 1), 'c': neg(c)}
            pos = fa.holds('<', 0, i)
            if pos is not False and fa.holds('==', i, 0) is not True:
                w['after'] = add(a, mul(digit, off(sub(i, 1))))
            for k, t in w.items():
                got, l = st.get(k, (T(k), f.line))
                ctx.check(same(got, t), 'key', f.loc(l), 'boundary iterator %s sets %s to %s instead of %s' % (nm, k, show(unld(got)), show(t)), 'light:' + nm + ':' + k)
            if nm == 'next':
                v = p.val
                parts = [x for _, x in v[1]] if isinstance(v, tuple) and v[0] == 'tup' else list(v[2]) if isinstance(v, tuple) and v[0] == 'app' else []
                if len(parts) == 2:
                    ctx.check(same(parts[0], add(rest, a)), 'key', f.loc(), 'next returns the face %s instead of %s' % (show(unld(parts[0])), show(add(rest, a))), 'light:next:face')
                    ctx.check(unld(parts[1]) == c and coefversion(p, parts[1], c), 'key', f.loc(), 'next returns the coefficient %s of another face' % show(unld(parts[1])), 'light:next:coef')
    for f in uniq(u, I + 'operator*'):
        ctx.function(f)
        ctx.count("light")
        for p in Engine(u, vocab=lambda n, x: False).run(f):
            o = offs(unld(p.val))
            if not o:
                continue
            i, b, a = T('i'), T('before'), T('after')
            off = ('ix', o[0][1], i)
            ctx.check(same(p.val, add(a, sub(b, mul(('app', '/', (b, off), 0), off)))), 'key', f.loc(), 'the boundary iterator points to %s' % show(unld(p.val)), 'light:deref')
    for f in uniq(u, I + 'simplex_boundary_iterator', lambda f: len(f.d['ps']) == 3):
        ctx.function(f)
        ctx.count("light")
        s, d = par(f, 0, u), par(f, 1, u)
        for p in Engine(u, vocab=lambda n, x: False).run(f):
            st = {}
            for it in p.trace:
                if isinstance(it, Ev) and it.k == 'set' and isinstance(unld(it.obj), tuple) and unld(it.obj)[0] == 'f':
                    st[unld(it.obj)[2]] = it
            for k, t in (('before', s), ('after', 0), ('i', d), ('dim', d)):
                if k in st:
                    ctx.check(unld(st[k].args[0]) == t, 'key', f.loc(st[k].line), 'the boundary iterator starts with %s = %s' % (k, show(unld(st[k].args[0]))), 'light:start')
            if 'c' in st:
                v = unld(st['c'].args[0])
                fa = Facts(p.trace)
                if is_num(v) and not any(isinstance(x, Cond) for x in p.trace):
                    ctx.bad('key', f.loc(st['c'].line), 'the boundary iterator starts with coefficient %s in every dimension' % show(v), 'light:start')
                for z, sgn in ((0, 1), (1, -1)):
                    for form in (('app', '&', (d, 1), 0), ('app', '%', (d, 2), 0), ('app', '&', (T('i'), 1), 0)):
                        if fa.holds('==', form, z) is True or z == 1 and fa.holds('==', form, 0) is False or z == 0 and fa.st.facts.get(('truth', form)) is False or z == 1 and fa.st.facts.get(('truth', form)) is True:
                            if is_num(v):
                                ctx.check(v == sgn, 'key', f.loc(st['c'].line), 'the boundary iterator starts with coefficient %s for a simplex of %s dimension' % (show(v), ('even', 'odd')[z]), 'light:start')
    for f in uniq(u, I + 'operator bool'):
        ctx.function(f)
        ctx.count("light")
        for p in Engine(u, vocab=lambda n, x: False).run(f):
            fa = Facts(p.trace)
            r = fa.holds('<', T('i'), 0)
            v = unld(p.val) if isinstance(p.val, tuple) else p.val
            if r is None and isinstance(v, (bool, int)):
                r = fa.holds('==', T('i'), -1)
            if isinstance(v, (bool, int)):
                ctx.check(r is not None and bool(v) == (not r), 'key', f.loc(), 'the boundary iterator ends early or late', 'light:end')
            elif isinstance(v, tuple) and v[0] == 'cmp' or isinstance(v, tuple) and v[0] == 'not':
                t, pol = (v[1], False) if v[0] == 'not' else (v, True)
                ctx.check((t, pol) in ((('cmp', '<', T('i'), 0), False), (('cmp', '<', -1, T('i')), True)), 'key', f.loc(), 'the boundary iterator runs while %s' % show(v), 'light:end')
    for f in uniq(u, C + 'LightSimplicialComplex', lambda f: not (len(f.d['ps']) == 1)):
        ctx.function(f)
        ctx.count("light")
        for p in Engine(u, vocab=lambda n, x: False).run(f):
            done = {unld(it.obj)[2]: it for it in p.trace if isinstance(it, Ev) and it.k == 'set' and isinstance(unld(it.obj), tuple) and unld(it.obj)[0] == 'f'}
            big = {unld(it.obj)[2]: it for it in p.trace if isinstance(it, Ev) and it.k == 'call' and short(it.name) in ('resize', 'assign') and isinstance(unld(it.obj), tuple) and unld(it.obj)[0] == 'f'}
            for x in ('_n', '_k'):
                ctx.check(x in done, 'key', f.loc(), 'a constructor leaves %s uninitialised' % x, 'light:ctor')
            if '_k' in done:
                kk = unld(done['_k'].args[0])
                for x in ('_offset', 'index_to_key', 'key_to_index'):
                    if x in big:
                        t = unld(big[x].args[0])
                        dd = sub(t, kk)
                        ctx.check(not is_num(dd) or dd >= 1, 'key', f.loc(big[x].line), 'a constructor gives %s %s entries' % (x, show(t)), 'light:ctor')
                    elif x in done:
                        v = unld(done[x].args[0])
                        ctx.check(not (isinstance(v, tuple) and v[0] == 'app' and v[1].startswith('new ') and not v[2]), 'key', f.loc(), 'a constructor leaves %s empty' % x, 'light:ctor')
    # table of powers
    for f in uniq(u, C + '_initialze'):
        ctx.function(f)
        ctx.count("light")
        for p in Engine(u, vocab=lambda n, x: False).run(f):
            k = T('_k')
            first = [it for it in p.trace if isinstance(it, Ev) and it.k == 'set' and unld(it.obj) == ('ix', T('_offset'), 0)]
            for e in first:
                ctx.check(unld(e.args[0]) == 1, 'key', f.loc(e.line), 'the table of powers starts with %s' % show(unld(e.args[0])), 'light:offset')
            rs = [it for it in p.trace if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'resize' and unld(it.obj) == T('_offset')]
            for e in rs:
                d = sub(unld(e.args[0]), k)
                if is_num(d):
                    ctx.check(d >= 1, 'key', f.loc(e.line), 'the table of powers has %s entries' % show(unld(e.args[0])), 'light:offset')
            for L in p.trace:
                if not isinstance(L, Loop):
                    continue
                tr = trip(L)
                for q in group(L.paths):
                    for e in q.trace:
                        if isinstance(e, Ev) and e.k == 'set' and unld(e.obj)[0] == 'ix' and unld(e.obj)[1] == T('_offset'):
                            i = unld(e.obj)[2]
                            ctx.check(unld(e.args[0]) == mul(T('_n'), ('ix', T('_offset'), sub(i, 1))), 'key', f.loc(e.line), 'offset(%s) is set to %s' % (show(i), show(unld(e.args[0]))), 'light:offset')
                            v = visits(L, i)
                            if v is not None:
                                ctx.check(v == (1, add(k, 1), 1), 'key', f.loc(L.line), 'the powers %s..%s are tabulated' % (show(v[0]), show(sub(v[1], 1))), 'light:offset')
    # keys of vertex lists
    for f in uniq(u, C + 'simplex_key'):
        ctx.function(f)
        ctx.count("light")
        s = par(f, 0, u)
        for p in Engine(u, vocab=lambda n, x: False).run(f):
            for L in p.trace:
                if not isinstance(L, Loop):
                    continue
                tr = trip(L)
                if tr is None or len(group(L.paths)) != 1:
                    ctx.count("light not recognised")
                    continue
                ctx.check(tr[1] == 0 and tr[2] == size_of(s), 'key', f.loc(L.line), 'simplex_key adds the vertices %s..%s' % (show(tr[1]), show(sub(tr[2], 1))), 'light:simplex_key')
                q = group(L.paths)[0]
                for d, (nm, sy) in L.syms.items():
                    if sy == tr[0]:
                        continue
                    if unld(p.val) != sy and not any(y == sy for y in subterms(p.val)) and False:
                        continue
                    inc = lock(L, sub(unld(q.env.get(d)), sy), tr)
                    if any(y == s for y in subterms(inc)):
                        ctx.check(inc == mul(('ix', s, tr[0]), ('ix', T('_offset'), tr[0])) and L.start.get(d) == 0, 'key', f.loc(L.line), 'simplex_key adds %s for vertex %s' % (show(inc), show(tr[0])), 'light:simplex_key')
    for f in uniq(u, C + 'max_vertex'):
        ctx.function(f)
        for p in Engine(u, vocab=lambda n, x: False).run(f):
            ctx.check(unld(p.val) == ('app', '/', (par(f, 0, u), ('ix', T('_offset'), par(f, 1, u))), 0), 'key', f.loc(), 'max_vertex returns %s' % show(unld(p.val)), 'light:max_vertex')
    for f in uniq(u, C + 'key_to_simplex', lambda f: len(f.d['ps']) == 3):
        ctx.function(f)
        ctx.count("light")
        d, kk, s = (par(f, i, u) for i in range(3))
        for p in Engine(u, vocab=lambda n, x: False).run(f):
            for L in p.trace:
                if not isinstance(L, Loop):
                    continue
                tr = trip(L)
                if tr is None:
                    continue
                ctx.check((tr[1], tr[2], tr[3]) == (1, add(d, 1), -1), 'key', f.loc(L.line), 'key_to_simplex extracts the digits %s..%s' % (show(tr[1]), show(sub(tr[2], 1))), 'light:key_to_simplex')
                for q in group(L.paths):
                    ks = next(((dd, sy) for dd, (nm, sy) in L.syms.items() if sy != tr[0]), None)
                    if ks is None:
                        continue
                    dig = ('app', '/', (ks[1], ('ix', T('_offset'), tr[0])), 0)
                    for e in q.trace:
                        if isinstance(e, Ev) and e.k == 'set' and unld(e.obj) == ('ix', s, tr[0]):
                            ctx.check(unld(e.args[0]) == dig, 'key', f.loc(e.line), 'key_to_simplex sets vertex %s to %s' % (show(tr[0]), show(unld(e.args[0]))), 'light:key_to_simplex')
                    ctx.check(same(q.env.get(ks[0]), sub(ks[1], mul(dig, ('ix', T('_offset'), tr[0])))), 'key', f.loc(L.line), 'key_to_simplex continues with %s' % show(unld(q.env.get(ks[0]))), 'light:key_to_simplex')
    # adding keys
    for n in ('add', 'add_unsafe', 'add_recursive'):
        for f in uniq(u, C + n, lambda f: len(f.d['ps']) == 2):
            ctx.function(f)
            ctx.count("light")
            lightadd(ctx, u, f, n)
    # the boundary: one (index, coefficient) per face
    for n in ('boundary', 'boundary_csc'):
        for f in uniq(u, C + n):
            ctx.function(f)
            ctx.count("light")
            lightbd(ctx, u, f, n)
    for f in uniq(u, C + 'find_idx'):
        ctx.function(f)
        ctx.count("light")
        if len(f.d['ps']) == 1:
            s = par(f, 0, u)
            d, k = sub(size_of(s), 1), ('app', C + 'simplex_key', (('this',), s), 0)
        else:
            d, k = par(f, 0, u), par(f, 1, u)
        for p in Engine(u, vocab=lambda n, x: short(n) == 'simplex_key').run(f):
            v = unld(p.val)
            tb = ('ix', T('key_to_index'), d)
            fa = Facts(p.trace)
            cn = [x for y in fa.st.facts for x in subterms(y) if isinstance(x, tuple) and x and x[0] == 'app' and x[1] == 'count']
            for x in cn:
                if unld(x[2][0])[0] == 'ix' and unld(x[2][0])[1] == T('key_to_index'):
                    ctx.check(x[2] == (tb, k), 'key', f.loc(), 'find_idx looks up %s' % show(x), 'light:find_idx')
                    z = fa.holds('==', x, 0)
                    if z is True and not is_num(v) and isinstance(v, tuple) and v[0] == 'ix':
                        ctx.bad('key', f.loc(), 'find_idx returns %s for a missing simplex' % show(v), 'light:find_idx')
                    if z is False and v == NO_IND:
                        ctx.bad('key', f.loc(), 'find_idx returns NO_IND for a simplex that is there', 'light:find_idx')
            if not cn and v == ('ix', tb, k):
                ctx.bad('key', f.loc(), 'find_idx assumes that the simplex is there', 'light:find_idx')
            if is_num(v):
                ctx.check(v == NO_IND, 'key', f.loc(), 'find_idx returns %s for a missing simplex' % show(v), 'light:find_idx')
            elif isinstance(v, tuple):
                ctx.check(all(x == ('ix', T('key_to_index'), d) for x in subterms(v) if isinstance(x, tuple) and x and x[0] == 'ix' and x[1] == T('key_to_index')), 'key', f.loc(), 'find_idx looks in %s' % show(v), 'light:find_idx')


def lightcells(ctx, u):
    """lists of cells of the light complex"""
    C = NS + 'LightSimplicialComplex::'
    T = lambda n: field(('this',), n)
    for f in uniq(u, C + 'get_simplex'):
        ctx.function(f)
        ctx.count("light")
        d, i = par(f, 0, u), par(f, 1, u)
        for p in Engine(u, vocab=lambda n, x: short(n) == 'key_to_simplex').run(f):
            for e in p.trace:
                if isinstance(e, Ev) and short(e.name) == 'key_to_simplex' and len(e.args) >= 2:
                    ctx.check(unld(e.args[0]) == d and unld(e.args[1]) == ('ix', ('ix', T('index_to_key'), d), i), 'key', f.loc(e.line), 'get_simplex(dim, i) decodes key %s in dimension %s' % (show(unld(e.args[1])), show(unld(e.args[0]))), 'light:get_simplex')
    for f in uniq(u, C + 'get_simplices') + uniq(u, C + 'ncells', lambda f: not f.d['ps']):
        ctx.function(f)
        ctx.count("light")
        n = short(f.name)
        dim = par(f, 0, u) if f.d['ps'] else None
        for p in Engine(u, vocab=lambda m, x: short(m) == 'get_simplex').run(f):
            for L, q0, ctxl in loops_of([p]):
                tr = trip(L)
                if tr is None:
                    continue
                md = maxdims(tr[2])
                if md is not None:
                    ctx.check(tr[1] == 0 and md == 1, 'coverage', f.loc(L.line), '%s visits the dimensions %s..%s' % (n, show(tr[1]), show(sub(tr[2], 1))), 'light:' + n)
                    continue
                d = dim if dim is not None else trip(ctxl[-1])[0] if ctxl and trip(ctxl[-1]) else None
                t = tr[2]
                if d is not None and isinstance(t, tuple) and any(x == T('index_to_key') for x in subterms(t)):
                    ctx.check(tr[1] == 0 and t == size_of(('ix', T('index_to_key'), d)), 'coverage', f.loc(L.line), '%s visits the cells %s..%s of dimension %s' % (n, show(tr[1]), show(sub(t, 1)), show(d)), 'light:' + n)
                for q in group(L.paths):
                    for e in q.trace:
                        if isinstance(e, Ev) and short(e.name) == 'get_simplex' and d is not None:
                            ctx.check((unld(e.args[0]), lock(L, e.args[1], tr)) == (d, tr[0]), 'coverage', f.loc(e.line), '%s lists cell (%s, %s) in iteration (%s, %s)' % (n, show(unld(e.args[0])), show(unld(e.args[1])), show(d), show(tr[0])), 'light:' + n)
                        if isinstance(e, Ev) and e.k == 'set' and e.name != 'init' and isinstance(unld(e.obj), tuple) and unld(e.obj)[0] == 'ix' and e.args and isinstance(unld(e.args[0]), tuple) and unld(e.args[0])[0] == 'app' and unld(e.args[0])[1].endswith('get_simplex'):
                            ctx.check(lock(L, unld(e.obj)[2], tr) == tr[0], 'coverage', f.loc(e.line), '%s stores cell %s at %s' % (n, show(tr[0]), show(unld(e.obj))), 'light:' + n)


def lightstart(ctx, f, p, n, k0, keyok):
    """the boundary iterator is started on the right key, in the right dimension, for every cell"""
    d = par(f, 0, FU[0])
    for q, ctxl in all_paths([p]):
        for e in q.trace:
            if not (isinstance(e, Ev) and e.k == 'set' and e.name == 'init' and e.args):
                continue
            v = unld(e.args[0])
            if isinstance(v, tuple) and v[0] == 'app' and v[1].startswith('new ') and 'LightSimplicialComplex' in v[1] and len(v[2]) == 3:
                ctx.check(v[2][1] == d, 'face', f.loc(e.line), '%s takes the boundary in dimension %s' % (n, show(v[2][1])), k0)
                r = keyok(v[2][0], ctxl)
                if r is not None:
                    ctx.check(r, 'face', f.loc(e.line), '%s takes the boundary of key %s' % (n, show(v[2][0])), k0)


FU = [None]


def coefversion(p, got, c):
    """the coefficient returned is the one before the update"""
    for it in p.trace:
        if isinstance(it, Ev) and it.k == 'set' and unld(it.obj) == c:
            old = poly(it.args[0])
            if len(old) == 1:
                (m, k), = old.items()
                if k == -1 and len(m) == 1:
                    return m[0] == got
    return True


def lightadd(ctx, u, f, n):
    k0 = 'light:' + n
    T = lambda x: field(('this',), x)
    d, k = par(f, 0, u), par(f, 1, u)
    tab, ht = ('ix', T('index_to_key'), d), ('ix', T('key_to_index'), d)
    for p in Engine(u, vocab=lambda m, x: short(m) in ('next', 'add_recursive', 'simplex_key') and not (short(m) == n and False), maxpaths=5000).run(f):
        if p.exit != 'ret':
            continue
        ins = [it for it in p.trace if isinstance(it, Ev) and it.k in ('call', 'set') and it.obj is not None and unld(it.obj) == ht and short(it.name) in ('emplace', 'try_emplace', 'insert')]
        put = [it for it in p.trace if isinstance(it, Ev) and it.k == 'call' and unld(it.obj) == tab and short(it.name) in ('emplace_back', 'push_back')]
        fa = Facts(p.trace)
        new = None
        for e in ins:
            t = unld(e.res)
            for fct, pol in fa.st.facts.items():
                if any(isinstance(y, tuple) and y and (y == ('f', t, 'second')) for y in subterms(fct)):
                    new = pol if fct[0] == 'truth' else None
            if len(e.args) == 2:
                ctx.check(unld(e.args[0]) == k, 'key', f.loc(e.line), '%s enters key %s' % (n, show(unld(e.args[0]))), k0)
                ctx.check(unld(e.args[1]) == size_of(tab), 'index', f.loc(e.line), '%s enters index %s for the next simplex' % (n, show(unld(e.args[1]))), k0)
        if new is None and n == 'add_unsafe':
            new = True
        if n == 'add_recursive':
            FU[0] = u
            lightstart(ctx, f, p, n, k0, lambda t, c: t == k)
        if new is not None and ins:
            ctx.check(len(put) == (1 if new else 0), 'tables', f.loc(), '%s appends a key %d times when it is %s' % (n, len(put), 'new' if new else 'already there'), k0)
        for e in put:
            ctx.check(unld(e.args[0]) == k, 'key', f.loc(e.line), '%s appends key %s' % (n, show(unld(e.args[0]))), k0)
        if n == 'add_recursive' and new:
            pos = fa.holds('<', 0, d)
            if pos:
                rec = [e for L in p.trace if isinstance(L, Loop) for q in group(L.paths) for e in q.trace if isinstance(e, Ev) and short(e.name) == 'add_recursive']
                ctx.check(rec, 'face', f.loc(), 'add_recursive does not add the faces', k0)
                for e in rec:
                    ctx.check(unld(e.args[0]) == sub(d, 1), 'face', f.loc(e.line), 'add_recursive adds faces of dimension %s' % show(unld(e.args[0])), k0)
                    a = unld(e.args[1])
                    if a == k:
                        ctx.bad('face', f.loc(e.line), 'add_recursive adds its own key as a face', k0)
                    if isinstance(a, tuple) and a[0] == 'f' and isinstance(a[1], tuple) and a[1][0] == 'app' and a[1][1].endswith('next'):
                        ctx.check(a[2] in ('first', 'get0'), 'face', f.loc(e.line), 'add_recursive adds %s as a face' % show(a), k0)
            sq = Seqs()
            out = None
            tail = [it for it in p.trace if isinstance(it, Ev) and it.k == 'call' and short(it.name) in PUSH and it.args and cell(it.args[0])]
            for e in tail:
                c = cell(e.args[0])
                ctx.check(unld(c[0]) == d and unld(c[1]) == size_of(tab) and oldsize(c[1], ins), 'index', f.loc(e.line), 'add_recursive reports (%s, %s) for the new simplex' % (show(unld(c[0])), show(unld(c[1]))), k0)
        else:
            c = cell(p.val)
            if c is not None:
                ctx.check(unld(c[0]) == d, 'index', f.loc(), '%s returns dimension %s' % (n, show(unld(c[0]))), k0)
                if new:
                    ctx.check(unld(c[1]) == size_of(tab) and oldsize(c[1], ins), 'index', f.loc(), '%s returns index %s for a new simplex' % (n, show(unld(c[1]))), k0)
                elif new is False:
                    v = unld(c[1])
                    t = unld(ins[0].res)
                    if v == size_of(tab) or is_num(v):
                        ctx.bad('index', f.loc(), '%s returns index %s for a simplex that is already there' % (n, show(v)), k0)


def lightentry(ctx, u):
    """entry points that take a simplex: its key, and one dimension less than it has vertices"""
    C = NS + 'LightSimplicialComplex::'
    for n in ('add', 'add_unsafe', 'add_recursive'):
        for f in uniq(u, C + n, lambda f: len(f.d['ps']) == 1):
            ctx.function(f)
            ctx.count("light")
            s = par(f, 0, u)
            for p in Engine(u, vocab=lambda m, x: short(m) == 'simplex_key' or short(m) in ('add', 'add_unsafe', 'add_recursive') and len(x.get('a', ())) >= 2, maxpaths=2000).run(f):
                for e in p.trace:
                    if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('add', 'add_unsafe', 'add_recursive') and len(e.args) == 2:
                        d, k = unld(e.args[0]), unld(e.args[1])
                        ctx.check(d == sub(size_of(s), 1), 'index', f.loc(e.line), '%s(simplex) adds it in dimension %s' % (n, show(d)), 'light:' + n + '/dim')
                        if isinstance(k, tuple) and k[0] == 'app' and short(str(k[1])) == 'simplex_key':
                            ctx.check(unld(k[2][-1]) == s, 'key', f.loc(e.line), '%s(simplex) adds the key of %s' % (n, show(k[2][-1])), 'light:' + n + '/key')
    for f in u.find('bats::util::is_degenerate')[:1]:
        ctx.function(f)
        s = par(f, 0, u)
        for p in Engine(u).run(f):
            for L in [x for x in p.trace if isinstance(x, Loop)]:
                tr = trip(L)
                if tr is None or len(L.paths) > 4:
                    continue
                i = tr[0]
                for q in L.paths:
                    cs = [c for c in q.trace if isinstance(c, Cond) and isinstance(unld(c.t), tuple) and unld(c.t)[:2] == ('cmp', '==') and all(isinstance(x, tuple) and x[0] == 'ix' and x[1] == s for x in unld(c.t)[2:])]
                    if len(cs) != 1:
                        continue
                    a, b = (x[2] for x in unld(cs[0].t)[2:])
                    d = sub(a, b)
                    if not is_num(d):
                        continue
                    lo = a if sub(a, i) == 0 or is_num(sub(a, i)) else None
                    if lo is None:
                        continue
                    small = a if d < 0 else b
                    ctx.check(abs(d) == 1 and subst(small, i, tr[1]) == 0 and subst(small, i, tr[2]) == sub(size_of(s), 1), 'face', f.loc(L.line), 'is_degenerate compares vertex %s with %s for %s..%s' % (show(a), show(b), show(tr[1]), show(sub(tr[2], 1))), 'is_degenerate')
                    ctx.check((q.exit == 'ret') == cs[0].pol, 'face', f.loc(L.line), 'is_degenerate answers on distinct vertices, or goes on after equal ones', 'is_degenerate')


def oldsize(t, ins):
    """the same reading of the size that was entered in the table"""
    return not ins or len(ins[0].args) < 2 or ins[0].args[1] == t


def lightbd(ctx, u, f, n):
    k0 = 'light:' + n
    T = lambda x: field(('this',), x)
    d = par(f, 0, u)
    for p in Engine(u, vocab=lambda m, x: short(m) in ('next', 'sortperm', 'apply_perm'), maxpaths=5000).run(f):
        if p.exit != 'ret':
            continue
        FU[0] = u
        tab = ('ix', T('index_to_key'), d)

        def keyok(t, ctxl):
            if n == 'boundary':
                return t == ('ix', tab, par(f, 1, u))
            for L in ctxl:
                tr = trip(L)
                if tr and isinstance(lock(L, t, tr), tuple) and lock(L, t, tr)[0] == 'ix':
                    return lock(L, t, tr) == ('ix', tab, tr[0]) and tr[1] == 0 and tr[2] == size_of(tab)
            return None
        lightstart(ctx, f, p, n, k0, keyok)
        for L, q0, ctxl in loops_of([p]):
            for q in group(L.paths):
                nx = [e for e in q.trace if isinstance(e, Ev) and short(e.name) == 'next']
                if not nx:
                    continue
                pu = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) in PUSH]
                t = unld(nx[0].res)
                ctx.check(len(nx) == 1, 'face', f.loc(L.line), '%s advances %d faces per iteration' % (n, len(nx)), k0)
                nf = nc = 0
                for e in pu:
                    a = unld(e.args[0])
                    if a in (('f', t, 'second'), ('f', t, 'get1')):
                        nc += 1
                    elif isinstance(a, tuple) and a[0] in ('ix',) and a[1] == ('ix', T('key_to_index'), sub(d, 1)) and a[2] in (('f', t, 'first'), ('f', t, 'get0')):
                        nf += 1
                    elif isinstance(a, tuple) and a[0] == 'ix' and isinstance(a[1], tuple) and a[1][0] == 'ix' and a[1][1] == T('key_to_index'):
                        ctx.bad('face', f.loc(e.line), '%s looks the face up as %s' % (n, show(a)), k0)
                        nf += 1
                    elif a == neg(('f', t, 'second')):
                        ctx.bad('sign', f.loc(e.line), '%s negates the coefficient' % n, k0)
                        nc += 1
                if nf or nc:
                    ctx.check(nf == 1 and nc == 1, 'tables', f.loc(L.line), '%s stores %d indices and %d coefficients per face' % (n, nf, nc), k0)
        if n == 'boundary':
            sp = [e for e in p.trace if isinstance(e, Ev) and short(e.name) == 'sortperm']
            ap = [e for e in p.trace if isinstance(e, Ev) and short(e.name) == 'apply_perm']
            if sp and isinstance(p.val, tuple) and p.val[0] in ('tup', 'app'):
                parts = [unld(x) for _, x in p.val[1]] if p.val[0] == 'tup' else [unld(x) for x in p.val[2]]
                done = [unld(e.args[0]) for e in ap if unld(e.args[1]) == unld(sp[0].res)]
                if len(parts) == 2 and done:
                    ctx.check(sorted(map(repr, done)) == sorted(map(repr, parts)), 'sort', f.loc(), 'boundary sorts only one of indices and coefficients', k0)
                    ctx.check(unld(sp[0].args[0]) == parts[0], 'sort', f.loc(sp[0].line), 'boundary sorts by %s' % show(unld(sp[0].args[0])), k0)


# --------------------------------------------------------------------------------- trie
def trie(ctx, u):
    U[0] = u
    C = NS + 'SparseTrie::'
    T = lambda x: field(('this',), x)
    E = lambda **kw: Engine(u, vocab=lambda n, x: False, **kw)
    for f in uniq(u, C + 'get', lambda f: len(f.d['ps']) == 3) + uniq(u, C + 'count', lambda f: len(f.d['ps']) == 2):
        ctx.function(f)
        ctx.count("trie")
        n = short(f.name)
        a, b = par(f, 0, u), par(f, 1, u)
        dflt = par(f, 2, u) if n == 'get' else 0
        for p in Engine(u, vocab=lambda m, x: short(m) == n).run(f):
            v = unld(p.val) if isinstance(p.val, tuple) else p.val
            fa = Facts()
            for it in p.trace:
                fa.add(it)
                if isinstance(it, Leave):
                    pass
            missing, ended = None, None
            rec = None
            for it in list(p.trace) + [x for it in p.trace if isinstance(it, Leave) for x in it.path.trace]:
                if isinstance(it, Cond):
                    t = unld(it.t)
                    if t[0] == 'cmp' and t[1] == '==' and 0 in t[2:4]:
                        o = t[2] if t[3] == 0 else t[3]
                        if isinstance(o, tuple) and o[0] == 'f' and o[2] == 'children':
                            missing = True if it.pol else (missing or False)
                        elif isinstance(o, tuple) and o[0] == 'app' and o[1] == 'count':
                            missing = True if it.pol else (missing or False)
                    if t[0] == 'cmp' and t[1] == '<':
                        ended = not it.pol
                if isinstance(it, Ev) and short(it.name) == n and it.k in ('call', 'pure'):
                    rec = it
            if rec is not None:
                known(ctx, f, p.trace, n)
                # one step down: the same query on the child with the iterator advanced
                o = unld(rec.obj)
                ar = [unld(x) for x in rec.args]
                ctx.check(ar[0] == add(a, 1) and ar[1] == b and (n == 'count' or ar[2] == dflt), 'trie', f.loc(rec.line), 'SparseTrie::%s continues with %s' % (n, ', '.join(show(x) for x in ar)), 'trie:' + n)
                ctx.check(v == unld(rec.res), 'trie', f.loc(rec.line), 'SparseTrie::%s returns %s' % (n, show(v)), 'trie:' + n)
                continue
            if missing:
                ctx.check(v == dflt, 'trie', f.loc(), 'SparseTrie::%s returns %s when the key is missing' % (n, show(v)), 'trie:' + n)
            elif missing is False or ended:
                ok = v == 1 if n == 'count' else isinstance(v, tuple) and v[0] == 'f' and v[2] == 'val'
                ctx.check(ok, 'trie', f.loc(), 'SparseTrie::%s returns %s when the key is there' % (n, show(v)), 'trie:' + n)
            # every step moves to the child of the current letter
            for L in p.trace:
                if not isinstance(L, Loop):
                    continue
                for q in group(L.paths):
                    step(ctx, f, L, q, n)
    for f in uniq(u, C + 'insert'):
        ctx.function(f)
        ctx.count("trie")
        val = par(f, 2, u)
        for p in E().run(f):
            sets = [it for it in p.trace if isinstance(it, Ev) and it.k == 'set' and isinstance(unld(it.obj), tuple) and unld(it.obj)[0] == 'f' and unld(it.obj)[2] == 'val']
            if len(sets) == 1 and any(isinstance(it, Loop) for it in p.trace):
                ctx.check(unld(sets[0].obj) != T('val'), 'trie', f.loc(sets[0].line), 'SparseTrie::insert stores the value at the root', 'trie:insert')
            ctx.check(len(sets) == 1 and unld(sets[0].args[0]) == val, 'trie', f.loc(), 'SparseTrie::insert does not store the value at the end of the key', 'trie:insert')
            for L in p.trace:
                if isinstance(L, Loop):
                    for q in group(L.paths):
                        step(ctx, f, L, q, 'insert')
                        fa = Facts(q.trace)
                        for it in q.trace:
                            if isinstance(it, Cond):
                                t = unld(it.t)
                                if t[0] == 'cmp' and t[1] == '==' and 0 in t[2:4] and it.pol:
                                    o = t[2] if t[3] == 0 else t[3]
                                    rest = q.trace[q.trace.index(it) + 1:]
                                    if isinstance(o, tuple) and o[0] == 'f' and o[2] == 'children':
                                        ctx.check(any(isinstance(e, Ev) and e.k == 'set' and unld(e.obj) == o for e in rest), 'trie', f.loc(it.line), 'SparseTrie::insert follows a missing table', 'trie:insert')
                                    elif isinstance(o, tuple) and o[0] == 'app' and o[1] == 'count':
                                        ctx.check(any(isinstance(e, Ev) and e.k in ('call', 'set') and short(e.name) in ('emplace', 'insert', 'operator[]', 'try_emplace') or isinstance(e, Ev) and e.k == 'set' for e in rest), 'trie', f.loc(it.line), 'SparseTrie::insert follows a missing child', 'trie:insert')
    # ownership
    members = uniq(u, C + 'SparseTrie') + uniq(u, C + 'operator=') + uniq(u, C + '~SparseTrie') + uniq(u, C + 'release_children')
    for f in members:
        ctx.function(f)
        ctx.count("trie")
        n = short(f.name)
        own = T('children')
        src = par(f, 0, u) if f.d['ps'] and f.d['ps'][0].get('ref') else None
        for p in E().run(f):
            fa = Facts(p.trace)
            if src is not None and fa.holds('==', ('ptr', ('this',)), ('ptr', src)) is True:
                continue
            if any(isinstance(it, Ev) and short(it.name) in ('swap', 'exchange') for it in p.trace):
                ctx.count("ownership not recognised")
                continue
            state = 'old'
            if n == 'SparseTrie' or fa.holds('==', own, 0) is True:
                state = 'null'
            childdel = False
            valset = None
            for it in p.trace:
                if isinstance(it, Loop):
                    for q in it.paths:
                        for e in q.trace:
                            if isinstance(e, Ev) and e.k == 'delete':
                                if L_over(it, own) and isinstance(unld(e.obj), tuple):
                                    childdel = True
                            if isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('emplace', 'insert', 'try_emplace') and unld(e.obj) == own and len(e.args) == 2:
                                v = unld(e.args[1])
                                fresh = isinstance(v, tuple) and v[0] == 'app' and v[1] == 'new'
                                ctx.check(fresh, 'ownership', f.loc(e.line), 'SparseTrie %s shares the children of the trie it copies' % n, 'trie:copy')
                                if fresh and src is not None:
                                    inner = v[2][0]
                                    ctx.check(not (isinstance(inner, tuple) and inner[0] == 'app' and not inner[2]), 'ownership', f.loc(e.line), 'SparseTrie %s copies children as empty tries' % n, 'trie:copy')
                    continue
                if not isinstance(it, Ev):
                    continue
                if it.k == 'delete' and unld(it.obj) == own:
                    ctx.check(childdel, 'ownership', f.loc(it.line), 'SparseTrie %s frees the table but not the children in it' % n, 'trie:leak')
                    ctx.check(state != 'deleted', 'ownership', f.loc(it.line), 'SparseTrie %s frees the children twice' % n, 'trie:double')
                    state = 'deleted'
                if it.k == 'set' and unld(it.obj) == own:
                    v = unld(it.args[0])
                    if state == 'old':
                        ctx.bad('ownership', f.loc(it.line), 'SparseTrie %s drops its old children without freeing them' % n, 'trie:leak')
                    state = 'null' if v == 0 else 'fresh' if isinstance(v, tuple) and v[0] == 'app' and v[1] == 'new' else 'stolen' if src is not None and v == field(src, 'children') else state
                if it.k == 'set' and src is not None and unld(it.obj) == field(src, 'children') and unld(it.args[0]) == 0 and state == 'stolen':
                    state = 'owned'
                if it.k == 'set' and unld(it.obj) == T('val'):
                    valset = unld(it.args[0])
            ctx.check(n == '~SparseTrie' or state != 'deleted', 'ownership', f.loc(), 'SparseTrie %s leaves a pointer to freed children' % n, 'trie:dangling')
            ctx.check(state != 'stolen', 'ownership', f.loc(), 'after SparseTrie %s two tries own the same children' % n, 'trie:shared')
            if n == '~SparseTrie':
                ctx.check(state in ('deleted', 'null'), 'ownership', f.loc(), 'the destructor of SparseTrie does not free the children', 'trie:leak')
            if src is not None and n in ('SparseTrie', 'operator='):
                has = fa.holds('==', field(src, 'children'), 0)
                if has is False:
                    ctx.check(state in ('fresh', 'owned'), 'ownership', f.loc(), 'SparseTrie %s loses the children' % n, 'trie:copy')
                ctx.check(valset == field(src, 'val'), 'ownership', f.loc(), 'SparseTrie %s does not take over the value' % n, 'trie:copy')


def L_over(L, own):
    r = unld(L.rng) if L.rng is not None else None
    return r is not None and any(x == own for x in subterms(r))


def step(ctx, f, L, q, n):
    """current = current->children[*it], ++it"""
    cur = it_ = None
    for d, (nm, sy) in L.syms.items():
        nx = q.env.get(d)
        s0 = L.start.get(d)
        if nx is None:
            continue
        x = unld(nx)
        if isinstance(s0, tuple) and s0 and s0[0] == 'ptr' or isinstance(x, tuple) and any(isinstance(y, tuple) and y and y[0] == 'f' and y[2] == 'children' for y in subterms(x)):
            cur = (sy, x)
        elif sub(x, sy) == 1 if not (isinstance(x, tuple) and x and x[0] == 'it') else sub(x[2], sy) == 1:
            it_ = sy
        elif x == sy:
            ctx.bad('trie', f.loc(L.line), 'SparseTrie::%s does not advance through the key' % n, 'trie:' + n)
    if cur is not None:
        if cur[1] == cur[0]:
            ctx.bad('trie', f.loc(L.line), 'SparseTrie::%s does not descend' % n, 'trie:' + n)
    end = unld(('sym', f.d['ps'][1]['n'], 0))
    for x in L.paths + L.exit:
        for c in x.trace:
            if isinstance(c, Cond) and it_ is not None:
                t = unld(c.t)
                if t[0] == 'cmp' and len(t) == 4:
                    ab = [sub(y, it_) for y in t[2:4]] + [sub(y, par(f, 1, U[0])) for y in t[2:4]]
                    if is_num(ab[0]) and is_num(ab[3]) or is_num(ab[1]) and is_num(ab[2]):
                        d = [y for y in ab if is_num(y)]
                        ctx.check(d == [0, 0], 'trie', f.loc(c.line), 'SparseTrie::%s stops before the end of the key' % n, 'trie:' + n)
    if n in ('get', 'count') and (n == 'count' or len(f.d['ps']) == 3):
        known(ctx, f, q.trace, n)


U = [None]


def known(ctx, f, trace, n):
    """a step down only to a child that is there"""
    have = set()
    for e in trace:
        if isinstance(e, Cond):
            t = unld(e.t)
            if t[0] == 'cmp' and t[1] == '==' and 0 in t[2:4] and not e.pol:
                o = t[2] if t[3] == 0 else t[3]
                if isinstance(o, tuple) and o[0] == 'app' and o[1] == 'count':
                    have.add(o[2])
        if isinstance(e, Ev) and e.k == 'mapref' and e.args:
            ctx.check((unld(e.obj), unld(e.args[0])) in have, 'trie', f.loc(e.line), 'SparseTrie::%s follows a child that may be missing' % n, 'trie:' + n)


# -------------------------------------------------------------------------------- cells
def cells(ctx, u):
    T = lambda x: field(('this',), x)
    for f in uniq(u, NS + 'CellComplex::reserve', lambda f: len(f.d['ps']) == 1):
        ctx.function(f)
        for p in eng(u, f, drop=('reserve',)).run(f):
            for e in p.trace:
                if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'resize' and unld(e.obj) == T('ptr'):
                    ok = len(e.args) > 1
                    if ok:
                        v = Seqs().value(e.args[1])
                        if v is None:
                            continue
                        ok = norm(v) == [('el', 0)]
                    ctx.check(ok, 'csc', f.loc(e.line), 'the column pointers of a new dimension do not start with 0', 'CellComplex::ptr')
    for f in uniq(u, NS + 'CellComplex::add_unsafe'):
        ctx.function(f)
        ctx.count("adders")
        b, c, k = (par(f, i, u) for i in range(3))
        for p in eng(u, f, drop=('add_unsafe',)).run(f):
            sq = Seqs()
            ptr = None
            bd, cf, pt = (('ix', T(x), sub(k, 1)) for x in ('bdr', 'coeff', 'ptr'))
            for it in p.trace:
                if isinstance(it, Ev) and it.k == 'call' and unld(it.obj) == pt and short(it.name) in PUSH:
                    v = unld(it.args[0])
                    cur = sq.get(bd)
                    done = cur is not None and any(x != ('all', bd) for x in cur)
                    if v == size_of(bd):
                        ctx.check(done, 'tables', f.loc(it.line), 'CellComplex stores the column pointer before the boundary', 'cell:ptr')
                    elif v in (size_of(b), size_of(cf)) or is_num(v):
                        if v != size_of(cf):
                            ctx.bad('tables', f.loc(it.line), 'CellComplex stores the column pointer %s' % show(v), 'cell:ptr')
                    ptr = it
                sq.item(it)
            ctx.check(ptr is not None, 'tables', f.loc(), 'CellComplex stores no column pointer', 'cell:ptr')
            for C, a in ((bd, b), (cf, c)):
                r = eqs(sq.get(C), [('all', C), ('all', a)])
                if r is None:
                    ctx.count("tables not recognised")
                else:
                    ctx.check(r, 'tables', f.loc(), 'CellComplex appends %s to %s' % (shows(sq.get(C)), show(C)), 'cell:copy')
            ns = [it for it in p.trace if isinstance(it, Ev) and it.k == 'set' and tname_(it.obj) == '_ncells']
            if len(ns) == 1:
                ctx.check(sub(unld(ns[0].args[0]), unld(ns[0].obj)) == 1 and unld(ns[0].obj) == ('ix', T('_ncells'), k), 'tables', f.loc(ns[0].line), 'CellComplex sets %s to %s' % (show(unld(ns[0].obj)), show(unld(ns[0].args[0]))), 'cell:count')
                ctx.check(strip(ns[0].args[0], ns[0].obj) == p.val, 'index', f.loc(), 'CellComplex returns %s for the new cell' % show(unld(p.val)), 'cell:index')
            else:
                ctx.bad('tables', f.loc(), 'CellComplex counts the new cell %d times' % len(ns), 'cell:count')
    # vertices
    for n, amount in (('_add_vertex', 1), ('_add_vertices', None)):
        for f in uniq(u, NS + 'CellComplex::' + n):
            ctx.function(f)
            a = amount if amount is not None else par(f, 0, u)
            for p in eng(u, f).run(f):
                ns = [it for it in p.trace if isinstance(it, Ev) and it.k == 'set' and unld(it.obj) == ('ix', T('_ncells'), 0)]
                ctx.check(len(ns) == 1 and sub(unld(ns[0].args[0]), unld(ns[0].obj)) == a, 'tables', f.loc(), 'CellComplex::%s changes the number of vertices wrongly' % n, 'cell:vertex')
                if len(ns) == 1 and n == '_add_vertex':
                    ctx.check(strip(ns[0].args[0], ns[0].obj) == p.val, 'index', f.loc(), 'CellComplex::_add_vertex returns %s' % show(unld(p.val)), 'cell:vertex')
    for f in uniq(u, NS + 'CellComplex::add_safe'):
        ctx.function(f)
        b, c, k = (par(f, i, u) for i in range(3))
        for p in eng(u, f, drop=('reserve',)).run(f):
            if p.exit != 'ret':
                continue
            fa = Facts(p.trace)
            z = fa.holds('==', k, 0)
            calls = [short(it.name) for it in p.trace if isinstance(it, Ev) and it.k == 'call']
            if 'add_unsafe' in calls:
                ctx.check(z is False or fa.holds('<', 0, k) is True, 'entry', f.loc(), 'CellComplex::add_safe treats a vertex like a cell with boundary', 'cell:entry')
                ev = next(it for it in p.trace if isinstance(it, Ev) and short(it.name) == 'add_unsafe')
                ctx.check([unld(x) for x in ev.args] == [b, c, k], 'entry', f.loc(ev.line), 'CellComplex::add_safe passes other arguments on', 'cell:entry')
                ok = tables_ready(p, ev, k)
                if ok is not None:
                    ctx.check(ok, 'entry', f.loc(ev.line), 'CellComplex::add_safe does not make room for the dimension', 'cell:entry')


# ----------------------------------------------------------------------------- products
def products(ctx, u):
    for f in uniq(u, NS + 'product_paths'):
        ctx.function(f)
        ctx.count("products")
        xi, xe, yi, ye, s, n = (par(f, i, u) for i in range(1, 7))
        k0 = 'product_paths'
        for p in eng(u, f).run(f):
            fa = Facts(p.trace)
            ex, ey = fa.holds('==', add(xi, 1), xe), fa.holds('==', add(yi, 1), ye)
            ev = [it for it in p.trace if isinstance(it, Ev) and it.k == 'call']
            pu = [e for e in ev if short(e.name) in PUSH and unld(e.obj) == s]
            po = [e for e in ev if short(e.name) == 'pop_back' and unld(e.obj) == s]
            ctx.check(len(pu) == 1 and len(po) == 1, 'product', f.loc(), 'product_paths leaves its path %s' % ('longer' if len(pu) > len(po) else 'shorter'), k0)
            for e in pu:
                want = add(('deref', xi), mul(n, ('deref', yi)))
                got = unld(e.args[0])
                dx = [t for t in subterms(got) if isinstance(t, tuple) and t and t[0] == 'deref']
                ok = got == want or poly(got) == poly(want)
                if not ok and dx:
                    ctx.bad('product', f.loc(e.line), 'product_paths names the vertex %s' % show(got), k0)
            rec = [[unld(a) for a in e.args] for e in ev if short(e.name) == 'product_paths']
            adds = [e for e in ev if short(e.name).startswith('add')]
            if ex is None or ey is None:
                if ex is None and ey is None:
                    ctx.count("products not recognised")
                    continue
            want = set()
            if not (ex and ey):
                if ex is False:
                    want.add('x')
                if ey is False:
                    want.add('y')
            got = set()
            for a in rec:
                t = (a[1], a[3])
                if t == (add(xi, 1), yi):
                    got.add('x')
                elif t == (xi, add(yi, 1)):
                    got.add('y')
                else:
                    ctx.bad('product', f.loc(), 'product_paths continues at (%s, %s)' % (show(a[1]), show(a[3])), k0)
                ctx.check(a[2] == xe and a[4] == ye and a[5] == s and a[6] == n, 'product', f.loc(), 'product_paths passes other bounds on', k0)
            ctx.check(got == want, 'product', f.loc(), 'product_paths takes the steps {%s} where {%s} are possible' % (', '.join(sorted(got)), ', '.join(sorted(want))), k0)
            ctx.check(bool(adds) == (ex is True and ey is True), 'product', f.loc(), 'product_paths adds a simplex %s' % ('before the path is complete' if adds else 'never at the end of the path'), k0)
    for f in inst(u, NS + 'TriangulatedProduct', lambda f: len(f.d['ps']) == 4):
        ctx.function(f)
        ctx.count("products")
        A, B, md, n = (par(f, i, u) for i in range(4))
        k0 = 'TriangulatedProduct'
        for p in eng(u, f, drop=('ncells',)).run(f):
            for ev, ctxl, q in cellloops(p):
                if short(ev.name) != 'product_paths' or len(ctxl) != 4:
                    continue
                trs = [trip(L) for L in ctxl]
                if any(t is None for t in trs):
                    continue
                dim, dX, iX, iY = trs
                ctx.check(dim[1] == 0 and dim[2] == add(md, 1), 'coverage', f.loc(ctxl[0].line), '%s visits the dimensions %s..%s' % (k0, show(dim[1]), show(sub(dim[2], 1))), k0)
                ctx.check(dX[1] == 0 and dX[2] == add(dim[0], 1), 'coverage', f.loc(ctxl[1].line), '%s splits a dimension into %s..%s' % (k0, show(dX[1]), show(sub(dX[2], 1))), k0)
                dY = sub(dim[0], dX[0])
                for i, (C, dd, ii) in ((1, (A, dX[0], iX[0])), (3, (B, dY, iY[0]))):
                    if len(ev.args) < 5:
                        continue
                    got = [unld(ev.args[i]), unld(ev.args[i + 1])]
                    want = [('it', ('ix', field(C, 'spx'), dd), mul(add(dd, 1), ii)), ('it', ('ix', field(C, 'spx'), dd), mul(add(dd, 1), add(ii, 1)))]
                    if all(isinstance(g, tuple) and g and g[0] == 'it' for g in got):
                        ctx.check(got == want, 'coverage', f.loc(ev.line), '%s runs over [%s, %s)' % (k0, show(got[0]), show(got[1])), k0)
                for q2 in group(ctxl[1].paths):
                    if not any(isinstance(e, Ev) and short(e.name) == 'product_paths' for e in deep(q2.trace)):
                        fa = Facts(q2.trace)
                        out = [fa.holds('<', sub(size_of(field(C, '_ncells')), 1), d) for C, d in ((A, dX[0]), (B, dY))]
                        ctx.check(True in out, 'coverage', f.loc(ctxl[1].line), '%s skips dimensions that both complexes have' % k0, k0)
                ctx.check(iX[1] == 0 and iX[2] == ('ix', field(A, '_ncells'), dX[0]), 'coverage', f.loc(ctxl[2].line), '%s visits the cells below %s' % (k0, show(iX[2])), k0)
                ctx.check(iY[1] == 0 and iY[2] == ('ix', field(B, '_ncells'), dY), 'coverage', f.loc(ctxl[3].line), '%s visits the cells below %s' % (k0, show(iY[2])), k0)


def cube_shape(ctx, u):
    m2 = mul(2, field(('this',), '__maxdim'))
    for f in uniq(u, NS + 'CubicalComplex::is_valid_cube'):
        ctx.function(f)
        ctx.count("readers")
        s = par(f, 0, u)
        for p in eng(u, f, drop=('is_valid_cube',)).run(f):
            sizeok = Facts([c for c in p.trace if isinstance(c, Cond)]).holds('==', size_of(s), m2)
            v = p.val
            if not isinstance(v, (bool, int)):
                continue
            loops = [L for L in p.trace if isinstance(L, Loop)]
            if v:
                ctx.check(sizeok is True, 'cube', f.loc(), 'is_valid_cube accepts a cube of another size', 'is_valid_cube')
                if not loops and sizeok:
                    ctx.bad('cube', f.loc(), 'is_valid_cube does not look at the intervals', 'is_valid_cube')
            for L in loops:
                tr = trip(L)
                if tr is None:
                    continue
                i = tr[0]
                ctx.check(tr[1] == 0 and tr[2] in (m2, size_of(s)) and tr[3] == 2, 'cube', f.loc(L.line), 'is_valid_cube looks at the intervals from %s to %s' % (show(tr[1]), show(tr[2])), 'is_valid_cube')
                lo, hi = ('ix', s, i), ('ix', s, add(i, 1))
                for q in L.paths:
                    fa = Facts(q.trace)
                    if q.exit in ('n', 'c'):
                        a = fa.holds('<', hi, lo) is False or fa.holds('==', hi, lo) is True or fa.holds('==', hi, add(lo, 1)) is True
                        b = fa.holds('<', add(lo, 1), hi) is False or fa.holds('==', hi, lo) is True or fa.holds('==', hi, add(lo, 1)) is True
                        ctx.check(a and b, 'cube', f.loc(L.line), 'is_valid_cube accepts an interval that is %s' % ('longer than one' if a else 'reversed'), 'is_valid_cube')
    for f in uniq(u, NS + 'CubicalComplex::cube_dim'):
        ctx.function(f)
        ctx.count("readers")
        s = par(f, 0, u)
        for p in eng(u, f, drop=('cube_dim',)).run(f):
            for L in p.trace:
                if not isinstance(L, Loop):
                    continue
                tr = trip(L)
                if tr is None:
                    continue
                i = tr[0]
                if tr[3] == 1:
                    hs = tr[1] == 0 and mul(2, tr[2]) in (m2, size_of(s))
                    i = mul(2, i)
                else:
                    hs = tr[1] == 0 and tr[2] in (m2, size_of(s)) and tr[3] == 2
                ctx.check(hs, 'cube', f.loc(L.line), 'cube_dim looks at the intervals from %s to %s' % (show(tr[1]), show(tr[2])), 'cube_dim')
                for q in group(L.paths):
                    for d, (nm, sy) in L.syms.items():
                        if sy != tr[0]:
                            inc = sub(unld(q.env.get(d)), sy)
                            lo, hi = ('ix', s, i), ('ix', s, add(i, 1))
                            if len(group(L.paths)) > 1:
                                fa = Facts(q.trace)
                                r = fa.holds('==', lo, hi)
                                if r is None:
                                    r = fa.holds('<', lo, hi)
                                    r = None if r is None else not r
                                if r is not None:
                                    ctx.check(inc == (0 if r else 1), 'cube', f.loc(L.line), 'cube_dim counts %s for a %s interval' % (show(inc), 'degenerate' if r else 'unit'), 'cube_dim')
                                elif all(unld(x[1]) == s for c in conds(q) if not headcond(c, L) for x in subterms(unld(c.t)) if isinstance(x, tuple) and x and x[0] == 'ix'):
                                    ctx.bad('cube', f.loc(L.line), 'cube_dim does not compare the ends of the interval', 'cube_dim')
                                else:
                                    ctx.count("cube_dim not recognised")
                                continue
                            good = (sub(hi, lo), ('not', ('cmp', '==', lo, hi)), ('not', ('cmp', '==', hi, lo)), ('cmp', '<', lo, hi))
                            if inc not in good and not isinstance(inc, int) and not (isinstance(inc, tuple) and (inc[0] in ('cmp', 'not') or all(unld(x[1]) == s for x in subterms(inc) if isinstance(x, tuple) and x and x[0] == 'ix'))):
                                ctx.count("cube_dim not recognised")
                                continue
                            ctx.check(inc in good and L.start.get(d) == 0, 'cube', f.loc(L.line), 'cube_dim adds %s per interval' % show(inc), 'cube_dim')


def run(ctx):
    u, = prog.load(['topo'])
    SCX, CUB = NS + 'SimplicialComplex::', NS + 'CubicalComplex::'
    conv = []
    for n in ('_add_unsafe', '_add_recursive'):
        fs = uniq(u, SCX + n)
        ctx.need(fs, 'anchor vanished: SimplicialComplex::%s' % n)
        for f in fs:
            simplicial_adder(ctx, u, f, conv)
            s = par(f, 0, u)
            sorted_together(ctx, u, f, sub(size_of(s), 1), size_of(s), n)
    agree(ctx, conv, 'a simplex')
    conv = []
    for n in ('_add_unsafe', '_add_unsafe_recursive'):
        fs = uniq(u, CUB + n)
        ctx.need(fs, 'anchor vanished: CubicalComplex::%s' % n)
        for f in fs:
            cubical_adder(ctx, u, f, conv)
    agree(ctx, conv, 'a cube')
    for n, st in (('add', True), ('add_recursive', True), ('add_directed', False), ('add_directed_recursive', False)):
        for f in uniq(u, SCX + n):
            entry(ctx, u, f, st, True)
    for n in ('add', 'add_recursive'):
        for f in uniq(u, CUB + n):
            entry(ctx, u, f, False, False)
    for c in ('SimplicialComplex', 'CubicalComplex', 'CellComplex'):
        reserved(ctx, u, c)
    cube_shape(ctx, u)
    readers(ctx, u)
    setops(ctx, u)
    maps(ctx, u)
    light(ctx, u)
    lightcells(ctx, u)
    lightentry(ctx, u)
    trie(ctx, u)
    cells(ctx, u)
    products(ctx, u)
