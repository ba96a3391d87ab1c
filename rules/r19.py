"""Zigzag persistence.  A zigzag filtration becomes a chain complex in which every interval of a cell is a column
of its own; the columns are put in removal order, and every entry and removal is one step that factors one map on
homology.  Each piece is read path by path and compared with what the step has to do in that case."""
import itertools
from rules.common import *
from rules.r05 import evalc
from rules.r08 import par, uniq, inst, field
from rules.r16 import TH, rec
from rules.r18 import cn, evs, conds, deepev, cont
from bx.seqs import trip

PROP = dict(
    id="R19", title="Zigzag barcodes follow every entry and removal of every cell copy",
    statement="For every zigzag filtration, ZigzagChainComplex has one column per interval of each cell, with that interval, the index of its cell, a row one dimension up, and each face in its boundary replaced by the copy whose interval contains the column's; prepare_ChainComplex sorts the columns of each dimension by decreasing removal time, and lists one entry and one removal per column, with its position in that order, by increasing time with entries before removals, faces entering before and leaving after their cofaces and columns of one dimension leaving from the last; lex_cmp and rlex_cmp compare simplices from their last vertex and put a prefix before resp. after the longer simplex. zigzag_barcode_reduction takes every event in order: an entering column is reduced with the same operations on R and U and creates a class in its dimension or ends one in the dimension below, a leaving column ends resp. creates one, up to the maximal dimension asked for; the list of homology indices, the induced map, the running change of basis for the two arrow directions, the factorization of that direction and the bars are all those of that dimension; bars start, continue and end where the matched pivots say; and a removed column leaves no pivot behind in any dimension.",
    over=["inputs", "histories"],
    text="all filtrations, all numbers of intervals per cell, all orders of entries and removals, both reduction flags, every dimension",
    why="tests compute a handful of zigzags, mostly with one interval per cell and all dimensions; a wrong copy of a face, a stale pivot of a removed column or a transposed change of basis needs a particular order of removals and re-entries",
    files=["include/zigzag/zigzag_filtration.hpp", "include/zigzag/reduction.hpp"],
    mechanism=[("columns", "ZigzagChainComplex, _correct_indices"), ("order", "prepare_ChainComplex, lex_cmp, rlex_cmp"), ("steps", "zigzag_barcode_reduction, reduce_column, extra_col_reduction"), ("maps and bars", "cycle_insertion_map, boundary_insertion_map, apply_basis, update_bars")],
)
TECHNIQUE = "path-wise case analysis of every zigzag step against the case it is in (term comparison, comparator decision tables, words of matrix factors)"
LEVEL = "proof"
ASSUMPTIONS = ["matrix operations, factorizations and permutations as decided by R13, R12 and R05; preferred representatives by R16", "the intervals of a cell are given in increasing order and a cell's interval lies in one interval of each face"]
MINIMUM = {"functions": 6}
ZZ = 'bats::zigzag::'


def F_(o, n):
    return ('f', o, n)


def X_(a, i):
    return ('ix', a, i)


def SZ(x):
    return ('size', x, 0)


def ap(t, n):
    return isinstance(t, tuple) and t and t[0] == 'app' and t[1] == n


def has(t, pred):
    return any(isinstance(s, tuple) and s and pred(s) for s in subterms(t))


def vag(t):
    """a term whose value is not determined"""
    return has(t, lambda s: s[0] in ('deref', 'ite', 'envvar', 'lv', 'unk', 'opaque'))


class K_:
    def __init__(self, ctx, f, key):
        self.ctx, self.f, self.key = ctx, f, key
        self.w = tname(f)
        ctx.function(f)
        ctx.count("functions")

    def ok(self, c, what, msg, line=None, rule='R19'):
        return self.ctx.check(c, rule, self.f.loc(line), '%s: %s' % (self.w, msg), self.key + '/' + what)

    def eq(self, got, want, what, line=None):
        ws = want if isinstance(want, list) else [want]
        if got in ws:
            return self.ok(True, what, '')
        if vag(got):
            rec(self.ctx, "terms")
            return None
        return self.ok(False, what, '%s is %s, expected %s' % (what, show(got), show(ws[0])), line)


def engine(u, f, names, extra=()):
    r = short(f.name)
    return Engine(u, vocab=lambda n, x: short(n) in names and short(n) != r or n in extra or la_mutator(n, x), maxpaths=20000)


def lvars(L):
    """variables a loop carries: name -> position symbol"""
    out = {}
    for d, (nm, sy) in L.syms.items():
        s = cn(sy)
        out[d] = s[2] if isinstance(s, tuple) and s[0] == 'it' else s
    return out


# --------------------------------------------------------------------------------------------- induced maps
def unitof(t):
    t = cn(t)
    if ap(t, 'new SparseVector') and len(t[2]) in (1, 2) and (len(t[2]) == 1 or t[2][1] == 1):
        return t[2][0]
    return None


def colset(q, col):
    out = {}
    for e in evs(q.trace, 'set'):
        o = cn(e.obj)
        if isinstance(o, tuple) and o[0] == 'ix' and o[1] == col:
            out[o[2]] = (cn(e.args[0]), e)
    return out


def maps(ctx, u):
    for f in uniq(u, ZZ + 'detail::cycle_insertion_map', lambda f: len(f.d['ps']) == 2):
        K = K_(ctx, f, 'cycle_insertion_map')
        I, j = par(f, 0, u), par(f, 1, u)
        for p in engine(u, f, ()).run(f):
            if p.exit != 'ret':
                continue
            m = SZ(I)
            v = cn(p.val)
            if ap(v, 'new ColumnMatrix') and len(v[2]) == 3:
                K.eq(v[2][0], m, 'rows of the map')
                K.eq(v[2][1], sub(m, 1), 'columns of the map')
                col = v[2][2]
            else:
                rec(ctx, 'maps')
                continue
            for L in [x for x in p.trace if isinstance(x, Loop)]:
                t = trip(L)
                if t is None:
                    rec(ctx, 'maps')
                    continue
                K.ok((t[1], cn(t[2]), t[3]) == (0, sub(m, 1), 1), 'range', 'fills columns %s to %s' % (show(t[1]), show(t[2])), L.line)
                k = t[0]
                for q in cont(L):
                    cs = colset(q, col)
                    for rel_, want in ((-1, k), (0, add(k, 1)), (1, add(k, 1))):
                        live = True
                        for c in conds(q.trace):
                            b = order(cn(c.t), X_(I, k), cn(j), rel_)
                            if b is None and not (cn(c.t)[0] == 'cmp' and has(cn(c.t), lambda s: s == sub(m, 1)) or c.t == ('cmp', '<', k, sub(m, 1))):
                                live = None
                            elif b is not None and b != c.pol:
                                live = False
                                break
                        if live is None:
                            rec(ctx, 'maps')
                            continue
                        if not live:
                            continue
                        if set(cs) <= {k}:
                            K.ok(k in cs, 'column', 'leaves a column empty', L.line)
                            if k in cs:
                                x = unitof(cs[k][0])
                                if x is not None:
                                    K.ok(cn(x) == cn(want), 'column', 'sends old class %s %s the new one to class %s' % (show(k), ['before', 'after'][rel_ >= 0], show(x)), cs[k][1].line)
                                else:
                                    rec(ctx, 'maps')
    for f in uniq(u, ZZ + 'detail::boundary_insertion_map', lambda f: len(f.d['ps']) == 3):
        K = K_(ctx, f, 'boundary_insertion_map')
        I, i, v0 = [par(f, x, u) for x in range(3)]
        for p in engine(u, f, ()).run(f):
            if p.exit != 'ret':
                continue
            m = SZ(I)
            v = cn(p.val)
            if not (ap(v, 'new ColumnMatrix') and len(v[2]) == 3):
                rec(ctx, 'maps')
                continue
            K.eq(v[2][0], m, 'rows of the map')
            K.eq(v[2][1], add(m, 1), 'columns of the map')
            col = v[2][2]
            for L in [x for x in p.trace if isinstance(x, Loop)]:
                t = trip(L)
                if t is None:
                    rec(ctx, 'maps')
                    continue
                k = t[0]
                K.ok((t[1], cn(t[2]), t[3]) == (0, m, 1), 'range', 'visits classes %s to %s' % (show(t[1]), show(t[2])), L.line)
                flags = [s for s in lvars(L).values() if s != k]
                if len(flags) != 1:
                    rec(ctx, 'maps')
                    continue
                fl = flags[0]
                nm = [n for n, s in lvars(L).items() if s == fl][0]
                K.eq(cn(L.start.get(nm)), [0, False], 'initial flag', L.line)
                for q in cont(L):
                    cs = {cn(a): b for a, b in colset(q, col).items()}
                    for rel_, seen in itertools.product((-1, 0, 1), (0, 1)):
                        if rel_ < 0 and seen:
                            continue
                        live = True
                        for c in conds(q.trace):
                            t_ = cn(c.t)
                            if t_ == ('truth', fl):
                                b = bool(seen)
                            elif t_ == ('cmp', '<', k, m):
                                continue
                            else:
                                b = order(t_, X_(I, k), cn(i), rel_)
                            if b is None:
                                live = None
                                break
                            if b != c.pol:
                                live = False
                                break
                        if live is None:
                            rec(ctx, 'maps')
                            continue
                        if not live or rel_ == 0 and seen:
                            continue
                        want = {k: k} if rel_ < 0 else {add(k, 1): k} if seen else {k: 'v', add(k, 1): k}
                        got = {a: ('v' if b[0] == v0 else unitof(b[0])) for a, b in cs.items()}
                        if any(x is None for x in got.values()):
                            rec(ctx, 'maps')
                            continue
                        K.ok(got == want, 'columns', 'for a class %s the killed one, %s, the columns set are {%s}' % (['before', 'after'][rel_ >= 0], 'already passed' if seen else 'not passed before', ', '.join('%s: %s' % (show(a), b if b == 'v' else show(b)) for a, b in got.items())), L.line)
                        nx = q.env.get(nm) if isinstance(q.env, dict) else None
                        if nx is not None:
                            nx = 1 if nx in (1, True) else 0 if nx in (0, False) else nx
                            K.ok(nx in ((0, fl) if rel_ < 0 and not seen else (1, fl) if seen else (1,)), 'flag', 'the flag is %s after a class %s the killed one' % (show(nx), ['before', 'after'][rel_ >= 0]), L.line)
            after = p.trace[[n for n, x in enumerate(p.trace) if isinstance(x, Leave)][-1] + 1:] if any(isinstance(x, Leave) for x in p.trace) else []
            tail = {cn(e.obj)[2]: cn(e.args[0]) for e in evs(after, 'set') if isinstance(cn(e.obj), tuple) and cn(e.obj)[0] == 'ix' and cn(e.obj)[1] == col}
            fl = [c for c in after if isinstance(c, Cond) and c.t[0] == 'truth']
            if len(fl) == 1:
                want = {} if fl[0].pol else {m: v0}
                K.ok(tail == want, 'last', 'when the killed class was %s all others, the columns set at the end are {%s}' % ('not after' if fl[0].pol else 'after', ', '.join(map(show, tail))), fl[0].line if hasattr(fl[0], 'line') else None)
            else:
                K.ok(bool(fl) or not any(isinstance(x, Loop) for x in p.trace), 'last', 'never sets the column of a killed class after all others')


def order(t, a, b, r):
    """value of a comparison of a and b when a is below (-1), equal (0) or above (1) b"""
    if t[0] != 'cmp':
        return None
    return evcmp(t, {a: 5 + r, b: 5})


def evcmp(t, env):
    x, y = evalc(t[2], env), evalc(t[3], env)
    if x is None or y is None:
        return None
    return {'<': x < y, '==': x == y, '<=': x <= y}.get(t[1])


# ---------------------------------------------------------------------------------------- change of basis
def basis(ctx, u):
    for f in uniq(u, ZZ + 'detail::apply_basis', lambda f: len(f.d['ps']) == 5):
        K = K_(ctx, f, 'apply_basis')
        A, L, P, pd, d = [par(f, x, u) for x in range(5)]

        def wd(t, inv=False):
            t = cn(t)
            if ap(t, 'operator*') and len(t[2]) == 2:
                a, b = wd(t[2][0], inv), wd(t[2][1], inv)
                return None if a is None or b is None else (b + a if inv else a + b)
            if ap(t, 'T') and t[2] == (P,) or isinstance(t, tuple) and t and t[0] == 'app' and t[1] in ('l_inv', 'inv') and len(t[2]) == 1:
                return wd(t[2][0], not inv)
            if t in (A, L, P):
                return ((t, -1 if inv else 1),)
            return None
        want = {(0, 0): ((L, 1), (P, 1), (A, 1)), (1, 1): ((A, 1), (P, 1), (L, 1)), (0, 1): ((A, 1), (P, -1), (L, -1)), (1, 0): ((L, -1), (P, -1), (A, 1))}
        for p in engine(u, f, ('T', 'l_inv', 'inv', 'operator*')).run(f):
            if p.exit not in ('ret', 'n', 'exit'):
                continue
            val = {A: ((A, 1),)}
            bad = False
            for e in evs(p.trace):
                if e.k == 'set' and cn(e.obj) == A:
                    w = wd(e.args[0])
                    if w is None:
                        bad = True
                    else:
                        r = ()
                        for l in w:
                            r += val[A] if l == (A, 1) else (l,)
                        val[A] = r
            for a, b in itertools.product((0, 1), (0, 1)):
                live = True
                for c in conds(p.trace):
                    x = truth(cn(c.t), {pd: a, d: b})
                    if x is None:
                        bad = True
                    elif x != c.pol:
                        live = False
                if not live:
                    continue
                if bad:
                    rec(ctx, 'bases')
                    continue
                K.ok(val[A] == want[a, b], 'dir%d%d' % (a, b), 'previous arrow %s, new arrow %s: the map becomes %s' % (['<-', '->'][a], ['<-', '->'][b], ' '.join(show(x) + ('^-1' if s < 0 else '') for x, s in val[A])))


def truth(t, env):
    if t[0] == 'truth':
        x = evalc(t[1], env)
        return None if x is None else bool(x)
    if t[0] == 'cmp':
        return evcmp(t, env)
    return None


# ------------------------------------------------------------------------------------------------- bars
def bars(ctx, u):
    for f in uniq(u, ZZ + 'detail::update_bars', lambda f: len(f.d['ps']) == 6):
        K = K_(ctx, f, 'update_bars')
        B, fv, hd, E, p1, p2 = [par(f, x, u) for x in range(6)]
        for p in engine(u, f, ('T',)).run(f):
            if p.exit == 'throw':
                continue
            en = [c.pol for c in p.trace if isinstance(c, Cond) and cn(c.t) == ('truth', F_(fv, 'entry'))]
            if len(en) < 1:
                rec(ctx, 'bars')
                continue
            en = en[0]
            # orientation, loops and the final exchange
            tr, cleared, nloops = 0, False, 0
            swapped = False
            for it in p.trace:
                if isinstance(it, Ev):
                    if it.k == 'set' and cn(it.obj) == E:
                        v = cn(it.args[0])
                        if v == ('app', 'T', (E,)):
                            tr ^= 1
                        else:
                            tr = None
                    elif short(it.name) == 'clear' and cn(it.obj) == p2:
                        cleared = True
                    elif short(it.name) == 'swap':
                        a = [cn(x) for x in ([it.obj] if it.obj is not None else []) + list(it.args)]
                        swapped = swapped or set(a) >= {p1, p2}
                    elif it.k == 'set' and cn(it.obj) == p1 and has(cn(it.args[0]), lambda s: s == p2):
                        swapped = True
                if not isinstance(it, Loop):
                    continue
                t = trip(it)
                body = [e for q in cont(it) for e in deepev(q.trace)]
                if any(e.k == 'set' and isinstance(cn(e.obj), tuple) and cn(e.obj)[0] == 'f' and cn(e.obj)[2] in ('death', 'death_ind', 'death_is_entry') for e in body):
                    kills(ctx, K, it, B, fv, p1)
                    nloops |= 2
                    continue
                if t is None:
                    rec(ctx, 'bars')
                    continue
                j = t[0]
                n = cn(t[2])
                if n != F_(E, 'n') and not (ap(n, 'ncol') and n[2] == (E,)):
                    if n == F_(E, 'm') or ap(n, 'nrow') and n[2] == (E,):
                        K.ok(False, 'range', 'matches rows of E instead of columns', it.line)
                    else:
                        rec(ctx, 'bars')
                    continue
                nloops |= 1
                if tr is not None:
                    K.ok(tr == int(en), 'orientation', '%s is matched by the %s of E' % ('an entry' if en else 'a removal', 'rows' if tr else 'columns'), it.line)
                K.ok(t[1] == 0 and t[3] == 1, 'range', 'matches columns %s to %s of E' % (show(t[1]), show(n)), it.line)
                K.ok(cleared, 'fresh', 'the new table of bars starts with old contents', it.line)
                for q in cont(it):
                    column(ctx, K, q, j, B, fv, hd, E, p1, p2, it.line)
            K.ok(nloops & 2 or not nloops, 'kill', 'never ends the bars left over')
            K.ok(swapped, 'exchange', 'the new table of bars does not become the current one')


def column(ctx, K, q, j, B, fv, hd, E, p1, p2, line):
    col = F_(X_(F_(E, 'col'), j), 'indval')
    empty = None
    for c in conds(q.trace):
        t = cn(c.t)
        if t == ('cmp', '==', SZ(col), 0):
            empty = c.pol
        elif t == ('cmp', '<', 0, SZ(col)):
            empty = not c.pol
    ent = [e for e in evs(q.trace, 'set') if isinstance(cn(e.obj), tuple) and cn(e.obj)[0] == 'ix' and cn(e.obj)[1] == p2]
    new = [e for e in evs(q.trace) if short(e.name) in ('emplace_back', 'push_back') and cn(e.obj) == B]
    if empty is None:
        rec(ctx, 'bars')
        return
    K.ok(len(ent) == 1, 'table', '%s column of E makes %d entries in the new table' % ('an empty' if empty else 'a matched', len(ent)), line)
    K.ok(len(new) == int(empty), 'start', '%s column of E starts %d bars' % ('an empty' if empty else 'a matched', len(new)), line)
    if len(ent) != 1:
        return
    e = ent[0]
    K.eq(cn(e.obj)[2], j, 'class in the new table', e.line)
    v = cn(e.args[0])
    if empty:
        if len(new) == 1:
            first = q.trace.index(e) < q.trace.index(new[0])
            K.eq(v, SZ(B) if first else sub(SZ(B), 1), 'bar in the new table', e.line)
            a = cn(new[0].args[0])
            if ap(a, 'new ZigzagPair') and len(a[2]) == 1:
                a = a[2][0]
            if ap(a, 'new ZigzagPair') and len(a[2]) == 7:
                for n, w in ((0, hd), (1, F_(fv, 'cind')), (2, NO_IND), (3, F_(fv, 'val'))):
                    K.eq(a[2][n], w, ('dimension', 'birth index', 'death index', 'birth')[n] + ' of a new bar', new[0].line)
                K.eq(a[2][5], F_(fv, 'entry'), 'direction of a new bar', new[0].line)
            else:
                rec(ctx, 'bars')
        return
    rows = [F_(X_(col, 0), 'ind'), F_(X_(col, sub(SZ(col), 1)), 'ind')]
    K.eq(v, [X_(p1, r) for r in rows], 'bar of a matched class', e.line)
    er = [x for x in evs(q.trace) if short(x.name) == 'erase' and cn(x.obj) == p1]
    K.ok(len(er) == 1, 'erase', 'a matched bar is not taken out of the old table', line)
    for x in er:
        g = cn(x.args[0])
        if not (isinstance(g, tuple) and g[0] == 'it') and not ap(g, 'find'):
            K.eq(g, rows, 'class taken out of the old table', x.line)


def kills(ctx, K, L, B, fv, p1):
    for q in cont(L):
        got = {}
        for e in evs(q.trace, 'set'):
            o = cn(e.obj)
            if isinstance(o, tuple) and o[0] == 'f' and isinstance(o[1], tuple) and o[1][0] == 'ix' and o[1][1] == B:
                got[o[2]] = cn(e.args[0])
                i = o[1][2]
                if isinstance(i, tuple) and i[0] == 'f':
                    K.ok(i[2] in ('second', 'get1') and isinstance(i[1], tuple) and i[1][0] == 'ix' and i[1][1] == p1, 'killed', 'ends bar %s' % show(i), e.line)
        for n, w in (('death_ind', 'cind'), ('death', 'val'), ('death_is_entry', 'entry')):
            K.ok(n in got, n, 'a bar left over keeps its %s' % n, L.line)
            if n in got:
                K.eq(got[n], F_(fv, w), n + ' of an ended bar', L.line)
    if L.kind != 'rfor':
        K.ok(all(cn(s) == ('it', p1, 0) for s in L.start.values()), 'first', 'does not end the bars from the first one on', L.line)


# ------------------------------------------------------------------------------------------------- steps
def steps(ctx, u):
    for f in inst(u, ZZ + 'zigzag_barcode_reduction'):
        K = K_(ctx, f, 'zigzag_barcode_reduction')
        C, fo, mdp = [par(f, x, u) for x in range(3)]
        e = engine(u, f, ('reduce_column', 'find_preferred_representative', 'boundary_insertion_map', 'cycle_insertion_map', 'apply_basis', 'PLEU', 'UELP', 'LEUP', 'PUEL', 'LQU', 'UQL',
                          'update_bars', 'initialize', 'upper_bound', 'lower_bound', 'lastnz', 'nnz', 'maxdim'), ('SparseVector::operator[]',))
        seen = set()
        for p in e.run(f):
            if p.exit != 'ret':
                continue
            md = None
            for c in conds(p.trace):
                if cn(c.t) in (('cmp', '==', mdp, -1), ('cmp', '==', -1, mdp)):
                    md = sub(('app', 'maxdim', (C,)), 1) if c.pol else mdp
            if md is None:
                rec(ctx, 'steps')
                continue
            R = cn(p.val)
            init = {cn(x.obj): cn(x.args[0]) for x in evs(p.trace, 'set') if x.name == 'init' and x.args}
            red = [o for o, v in init.items() if ap(v, 'new ReducedChainComplex')]
            ini = [x for x in evs(p.trace, 'call', ('initialize',))]
            if R in init:
                v = init[R]
                if ap(v, 'new vector') and v[2]:
                    K.eq(v[2][0], add(md, 1), 'number of dimensions with bars')
            loops = [x for x in p.trace if isinstance(x, Loop) and any(short(y.name) in ('reduce_column', 'update_bars', 'clear_dealloc') for q in x.paths for y in deepev(q.trace))]
            if len(loops) != 1 or len(red) != 1:
                rec(ctx, 'steps')
                continue
            L = loops[0]
            FC = red[0]
            if ini:
                K.ok(cn(ini[0].obj) == FC and cn(ini[0].args[0]) == C, 'initialize', 'the reduced complex is not started from the given one')
            if L.kind == 'rfor':
                K.eq(cn(L.rng), fo, 'events visited', L.line)
                iv = None
            else:
                t = trip(L)
                if t is None:
                    rec(ctx, 'steps')
                    continue
                K.ok((t[1], cn(t[2]), t[3]) == (0, SZ(fo), 1), 'events', 'visits events %s to %s' % (show(t[1]), show(t[2])), L.line)
            for q in cont(L):
                step(ctx, K, q, md, mdp, fo, FC, R, seen, C)
        for cs in itertools.product((0, 1), ('here', 'down')):
            K.ok(not seen or cs in seen, 'case %s %s' % cs, '%s never %s' % (['a removal', 'an entry'][cs[0]], {(1, 'here'): 'creates a class', (1, 'down'): 'ends a class', (0, 'here'): 'ends a class', (0, 'down'): 'creates a class'}[cs]))


def step(ctx, K, q, md, mdp, fo, FC, B, seen, C):
    # the event
    fv = None
    for c in conds(q.trace):
        t = cn(c.t)
        if t[0] == 'truth' and isinstance(t[1], tuple) and t[1][0] == 'f' and t[1][2] == 'entry':
            if isinstance(t[1][1], tuple) and t[1][1][0] == 'ix' and t[1][1][1] == fo:
                fv, en = t[1][1], c.pol
    if fv is None:
        rec(ctx, 'steps')
        return
    k, ind = F_(fv, 'dim'), F_(fv, 'ind')
    RM, UM, P2 = [X_(F_(FC, n), k) for n in ('R', 'U', 'p2c')]
    rc = list(evs(q.trace, 'call', ('reduce_column',)))
    if en:
        K.ok(len(rc) == 1, 'reduce', 'an entering column is reduced %d times' % len(rc))
        if len(rc) != 1:
            return
        a = [cn(x) for x in rc[0].args]
        for n, w in enumerate((ind, RM, UM, P2)):
            K.eq(a[n], w, ('column', 'matrix', 'basis', 'pivot table')[n] + ' of the reduction', rc[0].line)
            js = {s for e in flatterms(q) for s in subterms(e) if ap(s, 'reduce_column')}
        if len(js) > 1:
            rec(ctx, 'steps')
            return
        J = js.pop() if js else None
    else:
        K.ok(not rc, 'reduce', 'a leaving column is reduced')
        J = ind
    # cases
    feasible = set()
    un = False
    for kk, mm, nz in itertools.product(range(5), range(3), (0, 1)):
        if nz and kk == 0:
            continue
        env = {k: kk, mdp: mm, ('app', 'maxdim', (C,)): mm + 1 if md != mdp else 3, F_(fv, 'entry'): int(en)}
        live = True
        for c in conds(q.trace):
            t = nzterm(cn(c.t), RM, J, nz)
            if t == 'other':
                continue
            if t is None:
                continue
            x = truth(t, env)
            if x is None:
                if t[0] == 'cmp' and has(t, lambda s: s == k) and not has(t, lambda s: ap(s, 'lower_bound') or ap(s, 'upper_bound') or ap(s, 'lastnz')) and not has(t, lambda s: s[0] in ('ix',) and s[1] != fo):
                    un = True
                continue
            if x != c.pol:
                live = False
                break
        if live:
            feasible.add((min(kk - mm, 2), nz))
    if un:
        rec(ctx, 'steps')
        return
    wrong = [t for c in conds(q.trace) for t in subterms(cn(c.t)) if ap(t, 'nnz') and not (t[2][0] == X_(F_(RM, 'col'), J))]
    for t in wrong[:1]:
        if J is not None and isinstance(t[2][0], tuple) and has(t[2][0], lambda s: s == FC):
            K.ok(False, 'nonzero', 'decides by column %s' % show(t[2][0]))
    ub = list(evs(q.trace, None, ('update_bars',)))
    if not feasible:
        return
    want = {('down' if nz and d <= 1 else 'here' if not nz and d <= 0 else 'none') for d, nz in feasible}
    if len(ub) > 1:
        rec(ctx, 'steps')
        return
    if ub:
        off = sub(cn(ub[0].args[2]), k)
        act = {0: 'here', -1: 'down'}.get(off) if is_num(off) else None
        if act is None:
            K.ok(not is_num(off), 'dimension', 'updates the bars of dimension %s' % show(cn(ub[0].args[2])), ub[0].line)
            return
    else:
        act = 'none'
    if act != 'none':
        seen.add((int(en), act))
    K.ok(want == {act} if not ub else act in want and want == {act}, 'case', '%s with a column that is %s updates the bars of %s' % ('an entry' if en else 'a removal', ' or '.join(sorted(('nonzero' if nz else 'zero') + ' %s' % {2: 'above the dimension over the last one', 1: 'one dimension above the last', 0: 'in the last dimension'}.get(d, 'below the last dimension') for d, nz in feasible)), {'here': 'its dimension', 'down': 'the dimension below', 'none': 'no dimension'}[act]), ub[0].line if ub else None)
    if len(want) != 1 or want != {act}:
        return
    tr = q.trace

    def at(e):
        return next(n for n, x in enumerate(tr) if x is e)
    # cleanup after a removal
    nz = {n for d, n in feasible}
    piv = F_(('app', 'lastnz', (X_(F_(RM, 'col'), J),)), 'ind') if J is not None else None
    env = {}
    for e in evs(tr, 'set'):
        if e.name == 'init' and e.args:
            env[cn(e.obj)] = cn(e.args[0])
    resets = [e for e in evs(tr, 'set') if isinstance(cn(e.obj), tuple) and cn(e.obj)[0] == 'ix' and isinstance(cn(e.obj)[1], tuple) and cn(e.obj)[1][0] == 'ix' and cn(e.obj)[1][1] == F_(FC, 'p2c')]
    clears = [e for e in evs(tr) if short(e.name) in ('clear_dealloc', 'clear') and e.obj is not None and has(cn(e.obj), lambda s: s == FC)]
    frees = {}
    for n, e in enumerate(tr):
        if isinstance(e, Ev):
            if e in clears:
                frees.setdefault(cn(e.obj), n)
            elif e.k == 'set' and e.obj is not None:
                o = cn(e.obj)
                if isinstance(o, tuple) and o[0] == 'f' and o[2] == 'indval' and has(o, lambda s: s == FC):
                    frees.setdefault(o[1], n)
    rcol, ucol = X_(F_(RM, 'col'), ind), X_(F_(UM, 'col'), ind)
    if en:
        K.ok(not resets, 'pivots', 'an entry changes the pivot table after the reduction')
        K.ok(not frees, 'columns', 'an entry clears columns')
    else:
        fr = {o if o[0] != 'f' else o[1]: n for o, n in frees.items() if isinstance(o, tuple)}
        if fr or not any(isinstance(x, Ev) and x.k not in ('pure', 'set', 'call', 'mapref') for x in tr):
            for o, nm in ((rcol, 'column of R'), (ucol, 'column of U')):
                K.ok(o in fr, 'clear', 'the %s of a removed cell is kept' % nm)
            for o in fr:
                K.ok(o in (rcol, ucol), 'clear', 'a removal clears %s' % show(o))
        if 1 in nz:
            K.ok(any(cn(e.obj)[1] == P2 and cn(e.obj)[2] in (piv, pivlocal(env, piv)) and cn(e.args[0]) == NO_IND for e in resets) or any(has(cn(e.obj)[2], lambda s: s[0] in ('deref', 'opaque')) for e in resets), 'pivots', 'a removed column with a pivot stays in the pivot table')
        for e in resets:
            K.eq(cn(e.obj)[1], P2, 'pivot table of a removal', e.line)
            K.eq(cn(e.args[0]), NO_IND, 'owner after a removal', e.line)
            K.ok(nz != {0}, 'pivots', 'a removed zero column changes the pivot table', e.line)
    if act == 'none':
        return
    d = k if act == 'here' else sub(k, 1)
    ID = X_(F_(FC, 'I'), d)
    # list of homology indices
    x = J if act == 'here' else piv
    iop = [e for e in evs(tr, 'call') if short(e.name) in ('erase', 'insert', 'pop_back', 'push_back', 'emplace_back') and e.obj is not None and has(cn(e.obj), lambda s: s == F_(FC, 'I'))]
    grow = (act == 'here') == bool(en)
    mp = [(cn(e.obj), cn(e.args[0]), e) for e in evs(tr, 'set') if e.name == 'init' and e.args and isinstance(cn(e.args[0]), tuple) and cn(e.args[0])[0] == 'app' and cn(e.args[0])[1] in ('cycle_insertion_map', 'boundary_insertion_map')]
    if len(mp) != 1:
        rec(ctx, 'steps')
        return
    mv, mt, me = mp[0]
    K.ok(mt[1] == ('cycle_insertion_map' if act == 'here' else 'boundary_insertion_map'), 'map', '%s %s dimension uses %s' % ('an entry' if en else 'a removal', 'in its' if act == 'here' else 'one', mt[1]), me.line)
    K.eq(mt[2][0], ID, 'homology indices of the map', me.line)
    if x is not None:
        K.eq(env.get(mt[2][1], mt[2][1]), [x], 'class of the map', me.line)
    if len(iop) == 1:
        o = iop[0]
        s = short(o.name)
        K.eq(cn(o.obj), ID, 'homology indices changed', o.line)
        if s in ('erase', 'insert', 'pop_back'):
            K.ok((s == 'insert') == grow, 'indices', '%s the indices when a class is %s' % ('adds to' if s == 'insert' else 'removes from', 'created' if grow else 'ended'), o.line)
        if s in ('erase', 'insert') and cn(o.obj) == ID:
            pos = cn(o.args[0])
            if isinstance(pos, tuple) and pos[0] == 'it':
                pos = pos[2]
            if isinstance(pos, tuple) and pos[0] == 'app' and pos[1] in ('lower_bound', 'upper_bound') and len(pos[2]) >= 2:
                K.ok(s == 'insert' or pos[1] == 'lower_bound', 'position', 'removes the index after the class', o.line)
                if x is not None:
                    K.eq(pos[2][-1], x, 'class looked up', o.line)
                K.ok(any(has(y, lambda z: z == ID) for y in pos[2][:-1]), 'position', 'looks the class up in %s' % show(pos[2][0]), o.line)
            elif s == 'erase' and is_num(pos) and act == 'here':
                K.ok(False, 'position', 'removes index %s of the list, not the one of the class' % pos, o.line)
            if s == 'insert' and x is not None:
                K.eq(cn(o.args[1]), x, 'class inserted', o.line)
        if s == 'pop_back':
            K.ok(not en, 'indices', 'an entry removes the last index', o.line)
        K.ok((at(o) < at(me)) == bool(en), 'time', 'the indices are changed %s the map of %s' % ('before' if at(o) < at(me) else 'after', 'an entry' if en else 'a removal'), o.line)
    elif not iop:
        other = [e for e in deepev(tr) if e.k == 'set' and has(cn(e.obj), lambda s: s == F_(FC, 'I'))]
        K.ok(bool(other), 'indices', 'the homology indices are not changed')
    else:
        rec(ctx, 'steps')
    if act == 'down' and len(mt[2]) == 3:
        rep(ctx, K, tr, at, mt[2][2], piv, d, ID, FC, me, iop, en, resets, frees)
    # change of basis and factorization
    ab = list(evs(tr, None, ('apply_basis',)))
    K.ok(len(ab) == 1, 'basis', 'the running change of basis is applied %d times' % len(ab))
    facs = [(cn(e.obj), cn(e.args[0]), e) for e in evs(tr, 'set') if e.name == 'init' and e.args and isinstance(cn(e.args[0]), tuple) and cn(e.args[0])[0] == 'app' and cn(e.args[0])[1] in ('PLEU', 'UELP', 'LEUP', 'PUEL', 'LQU', 'UQL')]
    if len(facs) != 1 or len(ab) != 1:
        rec(ctx, 'steps')
        return
    fo_, ft, fe = facs[0]
    K.ok(ft[1] == ('PLEU' if en else 'UELP'), 'factorization', 'the map of %s is factored by %s' % ('an entry' if en else 'a removal', ft[1]), fe.line)
    K.eq(ft[2][0], mv, 'matrix factored', fe.line)
    K.ok(at(me) < at(ab[0]) < at(fe), 'sequence', 'the change of basis is not applied between making and factoring the map', ab[0].line)
    a = [cn(z) for z in ab[0].args]
    K.eq(a[0], mv, 'matrix the basis is applied to', ab[0].line)
    K.eq(a[4], [int(en), bool(en), F_(fv, 'entry')], 'direction of the arrow', ab[0].line)
    dd = a[3]
    if ap(dd, 'operator bool'):
        dd = dd[2][0]
    stores = {cn(e.obj): (cn(e.args[0]), e) for e in evs(tr, 'set') if e.name != 'init' and e.args}
    if all(isinstance(z, tuple) and z and z[0] == 'ix' for z in (a[1], a[2], dd)):
        for z, nm, want_ in ((a[1], 'L', [F_(fo_, 'L')]), (a[2], 'P', [F_(fo_, 'P')]), (dd, 'direction', [int(en), bool(en), F_(fv, 'entry')])):
            K.eq(z[2], d, 'dimension of the last ' + nm, ab[0].line)
            got = [(o, v, e) for o, (v, e) in stores.items() if isinstance(o, tuple) and o[0] == 'ix' and o[1] == z[1]]
            K.ok(len(got) == 1, 'store', 'the %s for the next step is stored %d times' % (nm, len(got)), fe.line)
            for o, v, e in got:
                K.eq(o[2], d, 'dimension the %s is stored for' % nm, e.line)
                K.eq(v, want_, nm + ' stored', e.line)
                K.ok(at(e) > at(ab[0]), 'store', 'the %s is replaced before it is used' % nm, e.line)
    else:
        rec(ctx, 'steps')
    b = [cn(z) for z in ub[0].args]
    K.eq(b[0], X_(B, d), 'bars updated', ub[0].line)
    K.eq(b[1], fv, 'event of the bars', ub[0].line)
    K.eq(b[3], F_(fo_, 'E'), 'matched matrix', ub[0].line)
    for z in b[4:6]:
        if isinstance(z, tuple) and z[0] == 'ix':
            K.eq(z[2], d, 'dimension of the table of bars', ub[0].line)
    K.ok(b[4] != b[5], 'tables', 'the old and the new table of bars are the same', ub[0].line)


def pivlocal(env, piv):
    for o, v in env.items():
        if v == piv:
            return o
        if isinstance(piv, tuple) and v == piv[1]:
            return F_(o, 'ind')
    return piv


def flatterms(q):
    for it in q.trace:
        if isinstance(it, Cond):
            yield cn(it.t)
        elif isinstance(it, Ev):
            for a in ([it.obj] if it.obj is not None else []) + [x for x in it.args]:
                if isinstance(a, tuple):
                    yield cn(a)


def nzterm(t, RM, J, nz):
    """replace the number of entries of the column by its case"""
    if t[0] == 'cmp':
        def r(x):
            if ap(x, 'nnz') and J is not None and x[2][0] == X_(F_(RM, 'col'), J):
                return nz
            if isinstance(x, tuple) and x and x[0] == 'size' and J is not None and x[1] == F_(X_(F_(RM, 'col'), J), 'indval'):
                return nz
            return x
        return (t[0], t[1], r(t[2]), r(t[3]))
    return t


def rep(ctx, K, tr, at, v, piv, d, ID, FC, me, iop, en, resets, frees):
    if not (isinstance(v, tuple) and v[0] == 'v'):
        rec(ctx, 'representatives')
        return
    ini = [e for e in evs(tr, 'set') if e.name == 'init' and cn(e.obj) == v]
    fp = [e for e in evs(tr, 'call', ('find_preferred_representative',)) if cn(e.obj) == FC]
    sel = [e for e in evs(tr, 'set') if e.name != 'init' and cn(e.obj) == v]
    K.ok(len(fp) == 1, 'representative', 'the image of the killed class is not reduced to preferred representatives', me.line)
    if len(ini) == 1 and len(fp) == 1:
        x = unitof(ini[0].args[0])
        if x is not None:
            K.eq(cn(x), piv, 'class whose image is computed', ini[0].line)
        K.eq(cn(fp[0].args[0]), v, 'chain reduced', fp[0].line)
        K.eq(cn(fp[0].args[1]), d, 'dimension of the representative', fp[0].line)
        for e in resets:
            K.ok(at(e) > at(fp[0]), 'order', 'the pivot is forgotten before the representative is computed', e.line)
        for o, n in frees.items():
            K.ok(n > at(fp[0]), 'order', 'the column is cleared before the representative is computed', fp[0].line)
    if len(sel) == 1 and ap(cn(sel[0].args[0]), 'operator[]'):
        s = cn(sel[0].args[0])
        K.eq(s[2][0], v, 'chain selected from', sel[0].line)
        K.eq(s[2][1], ID, 'classes selected', sel[0].line)
        if len(fp) == 1:
            K.ok(at(fp[0]) < at(sel[0]) < at(me), 'order', 'the coordinates are not taken between reducing the chain and making the map', sel[0].line)
        for o in iop:
            K.ok((at(o) < at(sel[0])) == bool(en), 'order', 'the coordinates are taken with the indices %s the change' % ('before' if en else 'after'), sel[0].line)
    elif not sel:
        K.ok(False, 'representative', 'the map takes a chain on cells instead of coordinates on classes', me.line)
    else:
        rec(ctx, 'representatives')


# --------------------------------------------------------------------------------------------- reductions
def sweep(q):
    """events with the locals they read replaced by what these hold at that point"""
    env = {}

    def val(t):
        t = cn(t)
        return rw(t, env)
    for e in q.trace:
        if not isinstance(e, Ev):
            continue
        if e.k == 'set' and e.args:
            o = cn(e.obj)
            v = val(e.args[0])
            yield e, o if not (isinstance(o, tuple) and o[0] == 'ix') else (o[0], o[1], rw(o[2], env)), [v]
            if isinstance(o, tuple) and o[0] == 'v':
                for z in [z for z in env if has(z, lambda s: s == o)]:
                    del env[z]
                env[o] = v
            elif isinstance(o, tuple) and o[0] == 'f' and has(o, lambda s: s[0] == 'v'):
                if o[2] == 'val' and isinstance(o[1], tuple) and o[1][0] == 'f' and isinstance(v, tuple) and v[0] == 'f' and v[2] == 'val':
                    env[o[1]] = v[1]
                env[o] = v
            continue
        yield e, (rw(cn(e.obj), env) if e.obj is not None else None), [rw(cn(a), env) for a in e.args]


def rw(t, env):
    if not isinstance(t, tuple) or not t:
        return t
    if t in env:
        return env[t]
    if t[0] == 'poly':
        r = 0
        for m, c in t[1]:
            x = c
            for a in m:
                x = mul(x, rw(a, env))
            r = add(r, x)
        return r
    return tuple(rw(x, env) if isinstance(x, tuple) else x for x in t)


def lastof(M, j):
    return ('app', 'lastnz', (X_(F_(M, 'col'), j),))


def valuesof(M, j):
    c = F_(X_(F_(M, 'col'), j), 'indval')
    return [F_(lastof(M, j), 'val'), F_(X_(c, sub(SZ(c), 1)), 'val')]


def colidx(t, M):
    t = cn(t) if isinstance(t, tuple) else t
    if isinstance(t, tuple) and t[0] == 'ix' and t[1] == F_(M, 'col'):
        return t[2]
    return None


def neg_quot(t, num, den):
    for n in num:
        for d in den:
            for w in (mul(-1, mul(n, ('inv', d))),):
                pass
            if isinstance(t, tuple) and t[0] == 'poly' and len(t[1]) == 1 and t[1][0][1] == -1:
                at = list(t[1][0][0])
                if len(at) == 2 and n in at:
                    at.remove(n)
                    x = at[0]
                    if isinstance(x, tuple) and d in x[1:]:
                        return True
    return False


def locals_of(q):
    env = {}
    for e in evs(q.trace, 'set'):
        if e.name == 'init' and e.args and isinstance(cn(e.obj), tuple) and cn(e.obj)[0] == 'v':
            env.setdefault(cn(e.obj), cn(e.args[0]))
    return env


def elim(ctx, K, q, M, U, key):
    """the axpy pairs of a path: [(target, source, coefficient, event)] or None"""
    out = []
    for e, o, a in sweep(q):
        if short(e.name) == 'axpy' and len(a) >= 2:
            for m in (M, U):
                t, s = colidx(o, m), colidx(a[1], m)
                if t is not None:
                    out.append((m, t, s, a[0], e))
    if not out:
        return []
    if [x[0] for x in out] not in ([M, U], [U, M]):
        K.ok(False, key + 'lockstep', 'the operations on the columns are on %s' % ', '.join(show(x[0]) for x in out), out[0][4].line)
        return None
    (m1, t1, s1, c1, e1), (m2, t2, s2, c2, e2) = out
    if m1 == U:
        (m1, t1, s1, c1, e1), (m2, t2, s2, c2, e2) = out[::-1]
    K.ok((t1, s1) == (t2, s2), key + 'lockstep', 'adds column %s to %s of R but %s to %s of U' % tuple(show(z) for z in (s1, t1, s2, t2)), e2.line)
    K.ok(c1 == c2, key + 'lockstep', 'different coefficients for R and U', e2.line)
    return [(t1, s1, c1, e1)]


def reductions(ctx, u):
    for f in inst(u, ZZ + 'reduce_column'):
        K = K_(ctx, f, 'reduce_column')
        j0, M, U, P2 = [par(f, x, u) for x in range(4)]
        for p in engine(u, f, ('axpy', 'lastnz', 'nnz', 'extra_col_reduction')).run(f):
            if p.exit != 'ret':
                continue
            Ls = [x for x in p.trace if isinstance(x, Loop)]
            if len(Ls) != 1:
                rec(ctx, 'reductions')
                continue
            L = Ls[0]
            syms = {s: n for n, s in lvars(L).items()}
            jn = [n for n, s in lvars(L).items() if cn(L.start.get(n)) == j0]
            if len(jn) != 1:
                rec(ctx, 'reductions')
                continue
            j = lvars(L)[jn[0]]
            lv = [x.path for x in p.trace if isinstance(x, Leave)]
            if has(cn(p.val), lambda s: s == j) or cn(p.val) == j0:
                K.ok(cn(p.val) != j0, 'result', 'returns the column it was given, not the one it ended with')
            nnz = ('app', 'nnz', (X_(F_(M, 'col'), j),))
            for q in L.paths:
                if q.exit == 'throw':
                    continue
                extra = list(evs(q.trace, 'call', ('extra_col_reduction',)))
                for e in extra:
                    a = [cn(z) for z in e.args]
                    for n, w in enumerate((j, M, U, P2)):
                        K.eq(a[n], w, ('column', 'matrix', 'basis', 'pivot table')[n] + ' of the further reduction', e.line)
                el = elim(ctx, K, q, M, U, '')
                if el is None:
                    continue
                piv = F_(lastof(M, j), 'ind')
                own = X_(P2, piv)
                env = locals_of(q)
                cl = [(rw(cn(c.t), env), c.pol) for c in conds(q.trace)]
                taken = None
                below = None
                for t, pol in cl:
                    if t[0] == 'cmp' and t[1] == '==' and set(t[2:4]) == {own, NO_IND}:
                        taken = not pol
                    if t == ('cmp', '<', j, own):
                        below = pol       # the owner is to the right
                    if t == ('cmp', '<', own, j):
                        below = not pol
                sets = [(rw(o, env), v[0], e) for e, o, v in sweep(q) if e.k == 'set' and isinstance(o, tuple) and o[0] == 'ix' and o[1] == P2]
                nxt = q.env.get(jn[0]) if isinstance(q.env, dict) else None
                nxt = rw(cn(nxt), env) if nxt is not None else None
                for o, v, e in sets:
                    K.eq(o[2], piv, 'row claimed', e.line)
                    K.eq(v, j, 'column claiming', e.line)
                if el:
                    same = {F_(lastof(M, own), 'ind'): piv}     # both columns end in the same row
                    t, s, c, e = el[0]
                    t, s, c = [rw(rw(z, same), same) for z in (t, s, c)]
                    K.ok({t, s} == {j, own}, 'pair', 'adds column %s to column %s' % (show(s), show(t)), e.line)
                    if {t, s} != {j, own}:
                        continue
                    K.ok(taken is True, 'owner', 'eliminates with a column that need not exist', e.line)
                    K.ok(below is (t == own), 'left', 'the column added may be to the right of the one reduced', e.line)
                    K.ok(neg_quot(c, valuesof(M, t), valuesof(M, s)), 'coefficient', 'adds column %s with coefficient %s' % (show(s), show(c)), e.line)
                    K.ok(bool(sets) == (t == own), 'table', 'the pivot table is %schanged when %s is reduced' % ('' if sets else 'not ', 'the owner' if t == own else 'the column'), e.line)
                    if nxt is not None:
                        K.eq(nxt, t, 'column reduced next', e.line)
                    K.ok(q.exit in ('n', 'c'), 'continue', 'stops after an elimination', e.line)
                elif q.exit in ('n', 'c'):
                    if extra and nxt is not None and nxt != j:
                        K.eq(nxt, own, 'column reduced next')
                        K.ok(taken is True and below is True, 'left', 'goes on with a column to the left')
                        K.ok(bool(sets), 'table', 'the row is not handed to the left column')
                    elif not extra:
                        rec(ctx, 'reductions')
                elif q.exit == 'b':
                    zero = any(t == ('cmp', '==', nnz, 0) and pol or t == ('cmp', '<', 0, nnz) and not pol for t, pol in cl)
                    nzs = [pol for t, pol in cl if t == ('cmp', '==', nnz, 0)]
                    if zero and (nzs and nzs[-1]):
                        K.ok(not sets, 'table', 'a zero column claims a row')
                    else:
                        K.ok(bool(sets), 'table', 'stops without claiming the row')
                        K.ok(taken is False or extra and below is False, 'stop', 'stops while another column owns the row')
    for f in inst(u, ZZ + 'extra_col_reduction'):
        K = K_(ctx, f, 'extra_col_reduction')
        j, M, U, P2 = [par(f, x, u) for x in range(4)]
        col = F_(X_(F_(M, 'col'), j), 'indval')
        for p in engine(u, f, ('axpy', 'lastnz', 'nnz')).run(f):
            for L in [x for x in p.trace if isinstance(x, Loop)]:
                pn = [n for n in lvars(L) if isinstance(cn(L.start.get(n)), tuple) and cn(L.start[n])[0] == 'it']
                on = [n for n in lvars(L) if n not in pn]
                if len(pn) != 1 or len(on) != 1:
                    rec(ctx, 'reductions')
                    continue
                pv, off = lvars(L)[pn[0]], lvars(L)[on[0]]
                o0 = cn(L.start[on[0]])
                K.eq(cn(L.start[pn[0]]), ('it', col, sub(SZ(col), o0)), 'first entry visited', L.line)
                for x in (z.path for z in p.trace if isinstance(z, Leave)):
                    for c in conds(x.trace):
                        t = cn(c.t)
                        if t[0] == 'cmp' and has(t, lambda s: s == pv) and t[1] == '<':
                            K.ok(t in (('cmp', '<', pv, 0),) and c.pol or t == ('cmp', '<', -1, pv) and not c.pol, 'last', 'stops before the first entry of the column', L.line)
                for q in cont(L):
                    el = elim(ctx, K, q, M, U, '')
                    if el is None:
                        continue
                    ent = X_(col, pv)
                    own = X_(P2, F_(ent, 'ind'))
                    env = locals_of(q)
                    fa = [(rw(cn(c.t), env), c.pol) for c in conds(q.trace)]
                    nx = {n: cn(q.env.get(n)) for n in (pn[0], on[0])} if isinstance(q.env, dict) else {}
                    if el:
                        t, s, c, e = el[0]
                        K.eq(t, j, 'column reduced', e.line)
                        K.eq(s, own, 'column added', e.line)
                        K.ok(neg_quot(c, [F_(ent, 'val')], valuesof(M, s)), 'coefficient', 'adds column %s with coefficient %s' % (show(s), show(c)), e.line)
                        K.ok(any(t_[0] == 'cmp' and t_[1] == '==' and set(t_[2:4]) == {own, NO_IND} and not pol for t_, pol in fa), 'owner', 'eliminates with a column that need not exist', e.line)
                        K.ok((('cmp', '<', own, j), True) in fa, 'left', 'the column added may be to the right of the one reduced', e.line)
                        if nx:
                            K.eq(nx[pn[0]], ('it', col, sub(SZ(col), nx[on[0]])), 'entry visited after an elimination', e.line)
                            K.eq(nx[on[0]], off, 'offset after an elimination', e.line)
                    elif nx:
                        K.ok(any(t_[0] == 'cmp' and t_[1] == '==' and set(t_[2:4]) == {own, NO_IND} and pol for t_, pol in fa) or (('cmp', '<', own, j), False) in fa or (('cmp', '<', j, own), True) in fa, 'skip', 'skips an entry a column to the left can eliminate', L.line)
                        K.eq(nx[pn[0]], ('it', col, sub(pv, 1)), 'next entry visited', L.line)
                        K.eq(nx[on[0]], add(off, 1), 'offset after a skipped entry', L.line)


# ------------------------------------------------------------------------------------------- comparisons
def lex(ctx, u):
    for nm, less in (('lex_cmp', True), ('rlex_cmp', False)):
        for f in uniq(u, ZZ + 'detail::' + nm, lambda f: len(f.d['ps']) == 5):
            K = K_(ctx, f, nm)
            X, di, i, dj, j = [par(f, x, u) for x in range(5)]
            ends = {('app', 'simplex_end', (X, di, i)): 0, ('app', 'simplex_end', (X, dj, j)): 1}
            begs = {('app', 'simplex_begin', (X, di, i)): 0, ('app', 'simplex_begin', (X, dj, j)): 1}
            for p in engine(u, f, ('simplex_end', 'simplex_begin')).run(f):
                if p.exit != 'ret':
                    continue
                for s in {s for c in conds(p.trace) for s in subterms(cn(c.t)) if isinstance(s, tuple) and s and s[0] == 'app' and s[1] in ('simplex_end', 'simplex_begin')}:
                    K.ok(s in ends or s in begs, 'simplex', 'compares with %s' % show(s))
                Ls = [x for x in p.trace if isinstance(x, Loop)]
                side = {}
                for L in Ls:
                    for n, s in lvars(L).items():
                        for b, k in ends.items():
                            if has(cn(L.start[n]), lambda z: z == b):
                                side[s] = k
                                K.eq(cn(L.start[n]), sub(b, 1), 'vertex the walk starts from', L.line)
                    for q in L.paths:
                        if not isinstance(q.env, dict):
                            continue
                        for n, s in lvars(L).items():
                            if s in side:
                                K.eq(cn(q.env.get(n)), sub(s, 1), 'next vertex', L.line)

                def sideof(t, need=-1):
                    if not (isinstance(t, tuple) and t[0] == 'deref'):
                        return None
                    x = cn(t[1])
                    for b, k in list(ends.items()) + list(side.items()):
                        if x == add(b, need):
                            return k
                        if x == b and b in side:
                            return None
                    return None
                cs = conds(p.trace)
                last = None
                neq = False
                for c in cs:
                    t = cn(c.t)
                    if t[0] == 'cmp' and isinstance(t[2], tuple) and t[2][0] == 'deref':
                        a, b = sideof(t[2]), sideof(t[3])
                        if a is None or b is None:
                            last = 'unknown'
                        elif t[1] == '==':
                            neq = not c.pol
                        elif t[1] == '<':
                            last = (a, c.pol)
                v = cn(p.val)
                if isinstance(v, tuple) and v[0] == 'cmp' and isinstance(v[2], tuple) and v[2][0] == 'deref' and v[1] == '<':
                    a = sideof(v[2])
                    if a is None or not neq:
                        rec(ctx, 'comparisons')
                        continue
                    K.ok((a == 0) == less, 'direction', 'is true when the %s simplex has the smaller vertex' % ['first', 'second'][a])
                    continue
                if last == 'unknown':
                    rec(ctx, 'comparisons')
                    continue
                if v not in (0, 1, True, False):
                    if isinstance(v, tuple) and v[0] == 'cmp' and v[1] == '<' and not neq:
                        K.eq(v, ('cmp', '<', di, dj) if less else ('cmp', '<', dj, di), 'comparison of a prefix with the longer simplex')
                    else:
                        rec(ctx, 'comparisons')
                    continue
                v = bool(v)
                if neq and last:
                    first_smaller = (last[0] == 0) == last[1]
                    K.ok(v == (first_smaller == less), 'direction', 'is %s when the first simplex has the %s vertex' % (v, 'smaller' if first_smaller else 'larger'))
                elif not neq:
                    out = set()
                    for a, b in ((0, 1), (1, 1), (1, 0)):
                        live = True
                        for c in cs:
                            t = cn(c.t)
                            if t[0] == 'cmp' and not has(t, lambda s: s[0] in ('deref', 'app')) and has(t, lambda s: s in (di, dj)):
                                x = evcmp(t, {di: a, dj: b})
                                if x is None or x != c.pol:
                                    live = x is None and live
                        if live:
                            out.add(((a < b) if less else (b < a)))
                    if out:
                        K.ok(out == {v}, 'prefix', 'is %s for simplices one of which is the end of the other' % v)


def lamval(u, t, names):
    t = unld(t)
    if not (isinstance(t, tuple) and t and t[0] == 'lam'):
        return None, None
    g = next((u.byid[x] for x in t[1:2] if x in u.byid), None)
    if g is None:
        return None, None
    try:
        return g, [p for p in engine(u, g, names).run(g) if p.exit == 'ret']
    except Broken:
        return None, None


def evterm(t, env, apps):
    """number of a term under an assignment; comparisons of simplices through apps"""
    if isinstance(t, (int, float, bool)):
        return int(t)
    if t in env:
        return env[t]
    if isinstance(t, tuple) and t:
        if t[0] == 'app' and t[1] in ('lex_cmp', 'rlex_cmp'):
            return apps(t, env)
        if t[0] == 'app' and t[1] in ('^', '&', '|') and len(t[2]) == 2:
            a, b = evterm(t[2][0], env, apps), evterm(t[2][1], env, apps)
            return None if a is None or b is None else {'^': a ^ b, '&': a & b, '|': a | b}[t[1]]
        if t[0] == 'cmp':
            a, b = evterm(t[2], env, apps), evterm(t[3], env, apps)
            return None if a is None or b is None else int({'<': a < b, '==': a == b, '<=': a <= b}[t[1]]) if t[1] in ('<', '==', '<=') else None
        if t[0] == 'truth':
            a = evterm(t[1], env, apps)
            return None if a is None else int(bool(a))
        if t[0] == 'poly':
            return evalc(t, env)
        if t[0] == 'bool' or t[0] == 'not':
            return None
    return None


def outcome(ps, env, apps):
    """value of a comparison function under an assignment, None when not determined"""
    got = set()
    for p in ps:
        live = True
        for c in conds(p.trace):
            x = evterm(cn(c.t), env, apps)
            if x is None:
                live = None
                break
            if bool(x) != c.pol:
                live = False
                break
        if live is None:
            return None
        if live:
            x = evterm(cn(p.val), env, apps)
            if x is None:
                return None
            got.add(bool(x))
    return got.pop() if len(got) == 1 else None


NAMES = ('sortperm', 'ipermute_basis', 'permute_basis', 'inv_perm', 'sort', 'maxdim', 'dim', 'vals', 'lex_cmp', 'rlex_cmp', 'ZigzagChainComplex', 'complex')


def prepare(ctx, u):
    for f in inst(u, ZZ + 'prepare_ChainComplex'):
        K = K_(ctx, f, 'prepare_ChainComplex')
        Fp = par(f, 0, u)
        simp = 'SimplicialComplex' in u.type(f.d['ps'][0]['t'])
        for p in engine(u, f, NAMES).run(f):
            if p.exit != 'ret':
                continue
            init = {cn(x.obj): cn(x.args[0]) for x in evs(p.trace, 'set') if x.name == 'init' and x.args}
            zc = [o for o, v in init.items() if ap(v, 'new ZigzagChainComplex')]
            if len(zc) != 1:
                rec(ctx, 'orders')
                continue
            Z = zc[0]
            K.eq(init[Z][2][0], Fp, 'filtration')
            md1 = [add(('app', 'maxdim', (Z,)), 1), SZ(F_(Z, 'val')), SZ(F_(F_(Z, 'C'), 'boundary'))]
            rv = cn(p.val)
            order_ = None
            if isinstance(rv, tuple) and rv[0] == 'tup':
                m = dict(rv[1]) if isinstance(rv[1], tuple) and all(len(x) == 2 for x in rv[1]) else {}
                K.eq(m.get('get0'), F_(Z, 'C'), 'complex returned')
                order_ = m.get('get1')
            ip = list(evs(p.trace, 'call', ('ipermute_basis', 'permute_basis')))
            K.ok(len(ip) == 1, 'permute', 'the complex is permuted %d times' % len(ip))
            perm = None
            for e in ip:
                K.ok(short(e.name) == 'ipermute_basis', 'permute', 'applies %s to the order' % short(e.name), e.line)
                K.eq(cn(e.obj), F_(Z, 'C'), 'complex permuted', e.line)
                perm = cn(e.args[0])
            stage = 0
            for it in p.trace:
                if isinstance(it, Ev) and it in ip:
                    stage = 1
                if isinstance(it, Ev) and short(it.name) in ('sort', 'stable_sort'):
                    final(ctx, K, u, it, order_, simp, Z)
                    stage = 2
                if not isinstance(it, Loop):
                    continue
                t = trip(it)
                if t is None:
                    rec(ctx, 'orders')
                    continue
                k = t[0]
                for q in cont(it):
                    ps_ = [e for e in evs(q.trace, 'set') if isinstance(cn(e.obj), tuple) and cn(e.obj)[0] == 'ix' and cn(e.obj)[1] == perm]
                    inner = [x for x in q.trace if isinstance(x, Loop)]
                    if not ps_ and not inner:
                        continue
                    K.ok(t[1] == 0 and t[3] == 1 and (cn(t[2]) in md1), 'dimensions', '%s dimensions %s to %s' % ('orders' if ps_ else 'lists', show(t[1]), show(t[2])), it.line)
                    for e in ps_:
                        K.ok(stage == 0, 'order', 'the order is found after the complex is permuted', e.line)
                        K.eq(cn(e.obj)[2], k, 'dimension of the order', e.line)
                        byremoval(ctx, K, u, e, k, Z, simp)
                    for x in inner:
                        listed(ctx, K, x, k, perm, Z, order_, stage)
            K.ok(stage == 2, 'sort', 'the events are not sorted after they are listed')


def listed(ctx, K, L, k, perm, Z, fo, stage):
    t = trip(L)
    if t is None:
        rec(ctx, 'orders')
        return
    i = t[0]
    vals = ('app', 'vals', (Z, k))
    n = cn(t[2])
    K.ok(t[1] == 0 and t[3] == 1 and n in (('app', 'dim', (Z, k)), SZ(vals), F_(X_(F_(F_(Z, 'C'), 'boundary'), k), 'n')), 'columns', 'lists columns %s to %s of a dimension' % (show(t[1]), show(n)), L.line)
    for q in cont(L):
        seen = []
        for e in evs(q.trace):
            if short(e.name) not in ('emplace_back', 'push_back') or cn(e.obj) != fo:
                continue
            a = [cn(x) for x in e.args]
            while len(a) == 1 and ap(a[0], 'new rfilt_val'):
                a = list(a[0][2])
            if len(a) != 5:
                rec(ctx, 'orders')
                continue
            K.eq(a[0], k, 'dimension of an event', e.line)
            K.eq(a[1], X_(('app', 'inv_perm', (X_(perm, k),)), i), 'position of an event', e.line)
            K.eq(a[2], i, 'column of an event', e.line)
            en = a[4] if a[4] in (0, 1) else None
            if en is None:
                rec(ctx, 'orders')
                continue
            seen.append(int(en))
            pair = X_(vals, i)
            K.eq(a[3], F_(pair, 'first' if en else 'second'), 'time of ' + ('an entry' if en else 'a removal'), e.line)
        if seen or not conds(q.trace):
            K.ok(sorted(seen) == [0, 1], 'events', 'lists %d entries and %d removals of a column' % (seen.count(1), seen.count(0)), L.line)


def byremoval(ctx, K, u, e, k, Z, simp):
    v = cn(e.args[0])
    if not ap(v, 'sortperm'):
        rec(ctx, 'orders')
        return
    vals = ('app', 'vals', (Z, k))
    g, ps = lamval(u, v[2][-1], ('lex_cmp', 'rlex_cmp', 'vals'))
    if len(v[2]) == 3:
        lo, hi = v[2][0], v[2][1]
        K.ok((lo, hi) in ((('it', vals, 0), ('it', vals, SZ(vals))), (0, SZ(vals))), 'sorted', 'orders %s to %s' % (show(lo), show(hi)), e.line)
    if not ps:
        rec(ctx, 'orders')
        return
    a, b = par(g, 0, u), par(g, 1, u)
    terms = {s for p in ps for t in [cn(c.t) for c in conds(p.trace)] + [cn(p.val)] if isinstance(t, tuple) for s in subterms(t) if isinstance(s, tuple) and s and s[0] == 'f' and s[2] in ('second', 'first')}
    A, B = {}, {}
    for s in terms:
        x, y = has(s, lambda z: z == a), has(s, lambda z: z == b)
        if x == y:
            rec(ctx, 'orders')
            return
        (A if x else B)[s] = s[2]
    for n in list(A.values()) + list(B.values()):
        K.ok(n == 'second', 'removal', 'orders the columns by their entry time', e.line)
    for x, y in ((0, 1), (1, 0), (1, 1)):
        for la in ((0, 1) if x == y else (0,)):
            env = {s: x for s in A}
            env.update({s: y for s in B})
            r = outcome(ps, env, lambda t, en: cmpapp(t, a, b, la, 1 - la))
            if r is None:
                rec(ctx, 'orders')
                continue
            if x != y:
                K.ok(r == (x > y), 'removal', 'puts the column removed %s first' % ('earlier' if r == (x < y) else 'later'), e.line)
            elif any(has(t, lambda z: ap(z, 'rlex_cmp') or ap(z, 'lex_cmp')) for p in ps for t in [cn(c.t) for c in conds(p.trace)] + [cn(p.val)] if isinstance(t, tuple)):
                K.ok(r == (la < 1 - la), 'ties', 'columns removed at the same time are in descending order', e.line)


def cmpapp(t, a, b, la, lb):
    """comparison of the simplices of a and b, ranked la and lb"""
    n, (X, d1, i1, d2, i2) = t[1], t[2][:5]
    r = []
    for x in (i1, i2):
        p, q = has(x, lambda z: z == a), has(x, lambda z: z == b)
        if p == q:
            return None
        r.append(la if p else lb)
    for d, x in ((d1, r[0]), (d2, r[1])):
        pass
    return int(r[0] < r[1]) if n == 'lex_cmp' else int(r[0] > r[1])


def final(ctx, K, u, e, fo, simp, Z):
    a_ = [cn(x) for x in e.args]
    K.ok(a_[:2] == [('it', fo, 0), ('it', fo, SZ(fo))], 'sorted', 'sorts %s to %s of the events' % (show(a_[0]), show(a_[1])), e.line)
    g, ps = lamval(u, e.args[-1], ('lex_cmp', 'rlex_cmp', 'vals'))
    if not ps:
        rec(ctx, 'orders')
        return
    a, b = par(g, 0, u), par(g, 1, u)
    for s in {s for p in ps for t in [cn(c.t) for c in conds(p.trace)] + [cn(p.val)] if isinstance(t, tuple) for s in subterms(t) if isinstance(s, tuple) and s and s[0] == 'app' and s[1] in ('lex_cmp', 'rlex_cmp') and len(s[2]) == 5}:
        for d, i in ((s[2][1], s[2][2]), (s[2][3], s[2][4])):
            x = a if has(i, lambda z: z == a) else b
            K.eq(d, F_(x, 'dim'), 'dimension of a simplex compared', e.line)
            if isinstance(i, tuple) and i[0] == 'ix':
                K.eq(i[2], F_(x, 'cind'), 'column of a simplex compared', e.line)
                if isinstance(i[1], tuple) and i[1][0] == 'ix':
                    K.eq(i[1][2], F_(x, 'dim'), 'dimension of the cells compared', e.line)
            elif i == F_(x, 'cind') or i == F_(x, 'ind'):
                K.ok(False, 'simplex', 'compares simplex %s, the number of a column' % show(i), e.line)
    for vals in itertools.product(range(2), repeat=8):
        va, vb, ea, eb, da, db, ia, ib = vals
        env = {}
        for x, v in ((a, (va, ea, da, ia)), (b, (vb, eb, db, ib))):
            for n, y in zip(('val', 'entry', 'dim', 'ind'), v):
                env[F_(x, n)] = y
            env[F_(x, 'cind')] = 1 - v[3]
        # a face comes before its coface in the order of simplices, other pairs either way
        for la in ((0, 1) if da == db else (da,)):
            r = outcome(ps, env, lambda t, en: cmpapp(t, a, b, la, 1 - la))
            if r is None:
                rec(ctx, 'orders')
                return
            if va != vb:
                K.ok(r == (va < vb), 'time', 'an event at a later time comes first', e.line)
            elif ea != eb:
                K.ok(r == bool(ea), 'entries', 'a removal comes before an entry at the same time', e.line)
            elif ea and da != db:
                K.ok(r == (da < db), 'faces', 'a coface enters before its face', e.line)
            elif not ea and da != db:
                K.ok(r == (da > db), 'cofaces', 'a face leaves before its coface', e.line)
            elif not ea and ia != ib:
                K.ok(r == (ia > ib), 'stack', 'a column leaves before a later one of its dimension', e.line)


# ------------------------------------------------------------------------------------------------ columns
def columns(ctx, u):
    for f in inst(u, ZZ + 'ZigzagChainComplex::_correct_indices'):
        K = K_(ctx, f, '_correct_indices')
        k, j, EC = [par(f, x, u) for x in range(3)]
        C = F_(F_(TH, 'C'), 'boundary')
        colt = X_(F_(X_(C, k), 'col'), j)
        col = F_(colt, 'indval')
        me = X_(X_(F_(TH, 'val'), k), j)

        def inside(q, cell, upto=None):
            """what the path knows about the interval of the cell containing that of column j"""
            x = X_(X_(F_(TH, 'val'), sub(k, 1)), cell)
            r = {}
            for c in conds(q):
                t = cn(c.t)
                for n, lo, hi in (('first', F_(me, 'first'), F_(x, 'first')), ('second', F_(x, 'second'), F_(me, 'second'))):
                    if t == ('cmp', '<', lo, hi):
                        r[n] = not c.pol
                    elif t == ('cmp', '<=', hi, lo):
                        r[n] = c.pol
                    elif t == ('cmp', '<', hi, lo) and c.pol:
                        r[n] = True
            return r
        for p in engine(u, f, ('sort',)).run(f):
            if p.exit == 'throw':
                continue
            Ls = [x for x in p.trace if isinstance(x, Loop)]
            K.ok(any(short(e.name) == 'sort' and (cn(e.obj) == colt or has(cn(e.args[0]) if e.args else 0, lambda s: s == col)) for e in evs(p.trace)), 'sort', 'the column is not sorted after its entries are moved')
            for L in Ls:
                if L.kind != 'rfor':
                    if not all(isinstance(cn(s), tuple) and cn(s)[0] == 'it' for s in L.start.values()) or len(L.syms) != 1:
                        rec(ctx, 'columns')
                        continue
                    K.ok(all(cn(s) == ('it', col, 0) for s in L.start.values()), 'entries', 'does not start from the first entry', L.line)
                    it = list(lvars(L).values())[0]
                    ent = X_(col, it)
                    nm = list(lvars(L))[0]
                    for q in cont(L):
                        if isinstance(q.env, dict) and nm in q.env:
                            K.eq(cn(q.env[nm]), ('it', col, add(it, 1)), 'next entry', L.line)
                else:
                    K.eq(cn(L.rng), col, 'entries visited', L.line)
                    rec(ctx, 'columns')
                    continue
                face = F_(ent, 'ind')
                for q in cont(L):
                    inn = [x for x in q.trace if isinstance(x, Loop)]
                    if not inn:
                        r = inside(q.trace, face)
                        K.ok(r.get('first') is True and r.get('second') is True, 'kept', 'keeps a copy of a face whose interval need not contain the column\'s%s' % (' (%s not compared)' % ', '.join(n for n in ('first', 'second') if n not in r) if len(r) < 2 else ''), L.line)
                        for e in evs(q.trace, 'set'):
                            if cn(e.obj) == face:
                                K.ok(False, 'kept', 'moves an entry without looking for its copy', e.line)
                        continue
                    for S in inn:
                        t = trip(S)
                        if t is None:
                            rec(ctx, 'columns')
                            continue
                        row = X_(EC, sub(k, 1))
                        K.eq(cn(t[1]), X_(row, face), 'first copy tried', S.line)
                        K.eq(cn(t[2]), X_(row, add(face, 1)), 'end of the copies tried', S.line)
                        K.ok(t[3] == 1, 'copies', 'skips copies', S.line)
                        for z in S.paths:
                            r = inside(z.trace, t[0])
                            st = [e for e in evs(z.trace, 'set') if cn(e.obj) == face]
                            for e in st:
                                K.eq(cn(e.args[0]), t[0], 'copy taken', e.line)
                                K.ok(r.get('first') is True and r.get('second') is True, 'copy', 'takes a copy whose interval need not contain the column\'s', e.line)
                                K.ok(z.exit == 'b', 'first', 'goes on after a copy is found', e.line)
                            if not st:
                                K.ok(False in r.values(), 'passed', 'passes a copy that contains the column', S.line)
    for f in inst(u, ZZ + 'ZigzagChainComplex::ZigzagChainComplex'):
        if len(f.d['ps']) != 1:
            continue
        K = K_(ctx, f, 'ZigzagChainComplex')
        X = par(f, 0, u)
        C = F_(TH, 'C')
        for p in engine(u, f, ('append_column', 'append_row', 'maxdim', 'vals', 'ncells', 'complex', '_correct_indices')).run(f):
            if p.exit == 'throw':
                continue
            ini = {cn(e.obj): cn(e.args[0]) for e in evs(p.trace, 'set') if e.name == 'init' and e.args}
            if C in ini and isinstance(ini[C], tuple) and ini[C][0] == 'app' and ini[C][2]:
                K.eq(ini[C][2][0], [('app', 'complex', (X,)), F_(X, 'X')], 'complex of the chains')
            corr = False
            for L in [x for x in p.trace if isinstance(x, Loop)]:
                t = trip(L)
                if t is None:
                    rec(ctx, 'columns')
                    continue
                k = t[0]
                if t[1] == 0 or any(short(e.name) == 'append_column' for q in L.paths for e in deepev(q.trace)):
                    K.ok(t[1] == 0 and t[3] == 1 and cn(t[2]) in (add(('app', 'maxdim', (X,)), 1), add(('app', 'maxdim', (C,)), 1), SZ(F_(TH, 'val'))), 'dimensions', 'visits dimensions %s to %s' % (show(t[1]), show(cn(t[2]))), L.line)
                for q in cont(L):
                    corr |= dimension(ctx, K, q, k, X, C, L)
            K.ok(corr or not any(isinstance(x, Loop) for x in p.trace), 'corrected', 'no boundary is corrected')


def dimension(ctx, K, q, k, X, C, L0):
    V, CI = X_(F_(TH, 'val'), k), X_(F_(TH, 'cind'), k)
    B = X_(F_(C, 'boundary'), k)
    vals = ('app', 'vals', (X, k))
    n = [('app', 'ncells', (X, k)), SZ(vals)]
    done, app = False, False
    k0 = None
    for c in q.trace:
        if isinstance(c, Cond):
            t = cn(c.t)
            if t in (('cmp', '<', 0, k), ('cmp', '==', k, 0), ('cmp', '==', 0, k)):
                k0 = not c.pol if t[1] == '<' else c.pol
    EC = None
    for it in q.trace:
        if isinstance(it, Ev) and it.k == 'set':
            o = cn(it.obj)
            if isinstance(o, tuple) and o[0] == 'ix' and isinstance(o[1], tuple) and o[1][0] == 'ix' and o[1][2] == k and o[1][1] == EC:
                K.eq(o[2], n, 'end of the copies', it.line)
                K.eq(cn(it.args[0]), SZ(V), 'number of columns', it.line)
                K.ok(app, 'time', 'the end of the copies is taken before they are made', it.line)
                done = 'end'
        if isinstance(it, Ev) and short(it.name) == '_correct_indices':
            K.ok(False, 'corrected', 'corrects one column of a dimension', it.line)
        if isinstance(it, Loop):
            names = {short(e.name) for z in it.paths for e in deepev(z.trace)}
            t = trip(it)
            if t is None:
                rec(ctx, 'columns')
                continue
            if 'append_column' in names:
                app = True
                K.ok(t[1] == 0 and t[3] == 1 and cn(t[2]) in n, 'cells', 'visits cells %s to %s' % (show(t[1]), show(cn(t[2]))), it.line)
                for z in cont(it):
                    EC = cell(ctx, K, z, k, t[0], X, C, V, CI, B, vals, it) or EC
            if '_correct_indices' in names and 'append_column' not in names:
                K.ok(app, 'time', 'the boundaries are corrected before all copies exist', it.line)
                K.ok(t[1] == 0 and t[3] == 1 and cn(t[2]) in (F_(B, 'n'), SZ(V), SZ(CI), ('app', 'ncol', (B,)), SZ(F_(B, 'col'))), 'corrected', 'corrects columns %s to %s of a dimension' % (show(t[1]), show(cn(t[2]))), it.line)
                for z in cont(it):
                    c = list(evs(z.trace, None, ('_correct_indices',)))
                    K.ok(len(c) == 1, 'corrected', 'corrects a column %d times' % len(c), it.line)
                    for e in c:
                        K.eq(cn(e.args[0]), k, 'dimension corrected', e.line)
                        K.eq(cn(e.args[1]), t[0], 'column corrected', e.line)
                        if EC is not None:
                            K.eq(cn(e.args[2]), EC, 'table of copies', e.line)
                done2 = True
                K.ok(done == 'end', 'time', 'the boundaries are corrected before the end of the copies is known', it.line)
                return True
    if app and k0 is not True:
        K.ok(False, 'corrected', 'the boundaries of a dimension are not corrected', L0.line)
    return False


def cell(ctx, K, z, k, i, X, C, V, CI, B, vals, L):
    got = {}
    EC = None
    for e in evs(z.trace, 'set'):
        o = cn(e.obj)
        if isinstance(o, tuple) and o[0] == 'ix' and isinstance(o[1], tuple) and o[1][0] == 'ix':
            got[o[1]] = (o, cn(e.args[0]), e)
            if o[1] not in (V, CI):
                EC = o[1][1]
                K.eq(o[1][2], k, 'dimension of the table of copies', e.line)
                K.eq(o[2], i, 'cell in the table of copies', e.line)
                K.eq(cn(e.args[0]), SZ(V), 'first copy', e.line)
    for r, w, nm in ((V, X_(X_(vals, i), 0), 'first interval'), (CI, i, 'index of the cell')):
        K.ok(r in got, nm, 'the %s is not stored' % nm, L.line)
        if r in got:
            K.eq(got[r][0][2], i, 'column of the ' + nm, got[r][2].line)
            K.eq(got[r][1], w, nm, got[r][2].line)
    K.ok(EC is not None, 'copies', 'the copies of a cell are not recorded', L.line)
    for S in [x for x in z.trace if isinstance(x, Loop)]:
        t = trip(S)
        iv = X_(vals, i)
        if t is not None:
            s, lo, hi = t[0], cn(t[1]), cn(t[2])
            K.ok(lo == 1 and hi == SZ(iv) and t[3] == 1, 'intervals', 'makes copies for intervals %s to %s' % (show(lo), show(hi)), S.line)
        elif len(S.syms) == 1:
            s = list(lvars(S).values())[0]
            K.eq(cn(list(S.start.values())[0]), ('it', iv, 1), 'first interval copied', S.line)
        else:
            rec(ctx, 'columns')
            continue
        for q in cont(S):
            top = None
            for c in conds(q.trace):
                tt = cn(c.t)
                if tt[0] == 'cmp' and tt[1] == '<' and tt[2] == k:
                    top = not c.pol
                    K.ok(tt[3] in (('app', 'maxdim', (X,)), ('app', 'maxdim', (C,))), 'rows', 'adds rows up to dimension %s' % show(tt[3]), S.line)
            cs = [e for e in evs(q.trace) if short(e.name) == 'append_column']
            K.ok(len(cs) == 1, 'copy', 'an interval makes %d columns' % len(cs), S.line)
            for e in cs:
                K.eq(cn(e.obj), B, 'matrix of a copy', e.line)
                K.eq(cn(e.args[0]), X_(F_(B, 'col'), i), 'column copied', e.line)
            rs = [e for e in evs(q.trace) if short(e.name) == 'append_row']
            K.ok(len(rs) == (0 if top else 1), 'rows', 'a copy %s adds %d rows' % ('in the top dimension' if top else 'below the top dimension', len(rs)), S.line)
            for e in rs:
                K.eq(cn(e.obj), X_(F_(C, 'boundary'), add(k, 1)), 'matrix with a new row', e.line)
            for r, w, nm in ((V, X_(iv, s), 'interval of a copy'), (CI, i, 'cell of a copy')):
                ps = [e for e in evs(q.trace) if short(e.name) in ('emplace_back', 'push_back') and cn(e.obj) == r]
                K.ok(len(ps) == 1, nm, 'the %s is stored %d times' % (nm, len(ps)), S.line)
                for e in ps:
                    K.eq(cn(e.args[0]), w, nm, e.line)
    return EC


# -------------------------------------------------------------------------------------------------- pairs
def pairs(ctx, u):
    for cls in ('ZigzagPair', 'rfilt_val'):
        for f in inst(u, ZZ + cls + '::' + cls):
            if len(f.d['ps']) < 5:
                continue
            K = K_(ctx, f, cls)
            for p in Engine(u).run(f):
                got = {cn(e.obj)[2]: cn(e.args[0]) for e in evs(p.trace, 'set') if isinstance(cn(e.obj), tuple) and cn(e.obj)[0] == 'f' and cn(e.obj)[1] == TH and e.args}
                for n, q in enumerate(f.d['ps']):
                    x = par(f, n, u)
                    if x[1] in got:
                        K.eq(got[x[1]], x, x[1])
    for n in ('dim', 'birth_ind', 'death_ind', 'birth', 'death'):
        for f in inst(u, ZZ + 'ZigzagPair::get_' + n):
            K = K_(ctx, f, 'get_' + n)
            for p in Engine(u).run(f):
                if p.exit == 'ret':
                    K.eq(cn(p.val), F_(TH, n), 'result')
    for nm, eq in (('operator==', 1), ('operator!=', 0)):
        for f in inst(u, ZZ + 'ZigzagPair::' + nm):
            K = K_(ctx, f, nm)
            o = par(f, 0, u)
            ps = [p for p in Engine(u).run(f) if p.exit == 'ret']
            for v in itertools.product((0, 1), repeat=3):
                env = {}
                for n, x in zip(('birth', 'death', 'dim'), v):
                    env[F_(TH, n)], env[F_(o, n)] = 1, x
                r = outcome(ps, env, lambda *a: None)
                if r is None:
                    rec(ctx, 'pairs')
                else:
                    K.ok(r == ((v == (1, 1, 1)) == bool(eq)), 'fields', 'is %s for bars that %s' % (r, 'agree' if v == (1, 1, 1) else 'differ in ' + ', '.join(n for n, x in zip(('birth', 'death', 'dimension'), v) if not x)))


def run(ctx):
    u, a = prog.load(['topo', 'algebra'])
    maps(ctx, u)
    basis(ctx, u)
    bars(ctx, u)
    steps(ctx, u)
    reductions(ctx, u)
    lex(ctx, u)
    prepare(ctx, u)
    columns(ctx, u)
    pairs(ctx, a)
