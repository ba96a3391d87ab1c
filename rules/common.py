"""Shared helpers of the rule modules."""
import sys
sys.setrecursionlimit(20000)
from bx import prog
from bx.engine import *
from bx.engine import Engine, Ev, Cond, Loop, Leave, Path
from bx.prog import Broken, NoParse, walk, children

ACCESS = {'operator[]', 'nzbegin', 'nzend', 'begin', 'end', 'get_col', 'getval', 'lower_bound', 'upper_bound', 'find', 'lastnz',
          'firstnz', 'nnz', 'size', 'ncol', 'nrow', 'dims', 'operator*', 'operator->'}
LA = {'SparseVector', 'ColumnMatrix', 'CSCMatrix', 'SetVector'}


def cls_of(name):
    p = name.split('::')
    return p[-2] if len(p) > 1 else ''


def short(name):
    return name.split('::')[-1]


def la_mutator(name, n):
    """mutating members of the sparse containers stay events, const accessors are inlined"""
    return cls_of(name) in LA and not n.get('cm') and short(name) not in ACCESS and not n['k'] == 'ctor'


def all_paths(paths, ctx=()):
    """(path, enclosing loops) for every path at every loop level"""
    for p in paths:
        yield p, ctx
        for it in p.trace:
            if isinstance(it, Loop):
                yield from all_paths(it.paths, ctx + (it,))


def all_events(paths):
    for p, ctx in all_paths(paths):
        for it in p.trace:
            if isinstance(it, Ev):
                yield it, p, ctx


def flat(p):
    """events of a path with nested loops included (each loop body path once)"""
    for it in p.trace:
        if isinstance(it, Loop):
            for q in it.paths:
                yield from flat(q)
        else:
            yield it


def col_of(t):
    """M.col[j](.indval...) -> (M, j)"""
    t = strip_ld(t)
    while isinstance(t, tuple) and t and t[0] in ('f', 'ix', 'ld'):
        if t[0] == 'ix' and isinstance(t[1], tuple) and strip_ld(t[1])[0] == 'f' and strip_ld(t[1])[2] == 'col':
            return unld(strip_ld(t[1])[1]), t[2]
        t = strip_ld(t[1])
    return None


def mat_of(t):
    t = strip_ld(t)
    return unld(t)


def tname(f):
    return '%s[%s]' % (f.name, f.loc())


def params_of_type(f, u, sub, mutable=True):
    out = []
    for p in f.d['ps']:
        t = u.type(p['t'])
        if sub in t.split('<')[0] and p.get('ref') == 1 and (not mutable or not p.get('cref')):
            out.append(p)
    return out


class Facts:
    """what the conditions of a path establish (snapshots removed)"""

    def __init__(self, items=()):
        self.st = State()
        for it in items:
            self.add(it)

    def add(self, it):
        if isinstance(it, Cond):
            t = it.t
            if t[0] == 'cmp':
                a, b = unld(t[2]), unld(t[3])
                if t[1] == '==' and key(a) > key(b):
                    a, b = b, a
                t = ('cmp', t[1], a, b)
            else:
                t = unld(t)
            self.st.facts[t] = it.pol
        elif isinstance(it, Leave):
            for x in it.path.trace:
                self.add(x)

    def holds(self, op, a, b):
        """True / False / None"""
        a, b = unld(a), unld(b)
        t = Engine.cmp_term(None, op, a, b)
        if isinstance(t, bool):
            return t
        term, pol = t
        r = Engine.lookup(None, self.st, term)
        if r is None:
            return None
        return r == pol

    def empty(self, cont):
        """is the container known to be empty (True) / non-empty (False)"""
        s = ('size', unld(cont), 0)
        for op, b, v in (('==', 0, True), ('<', 1, True), ('>', 0, False)):
            r = self.holds(op, s, b)
            if r is not None:
                return v if r else (not v)
        return None


def upto(p, ev, ctx=()):
    """trace items before ev on p"""
    out = []
    for it in p.trace:
        if it is ev:
            break
        out.append(it)
    return out


def leaves(L):
    """paths on which the loop is left (condition false at the head, or break/return inside)"""
    return list(L.exit) + [q for q in L.paths if q.exit in ('b', 'ret')]


def loops_of(paths, pred=None, ctx=()):
    for p in paths:
        for it in p.trace:
            if isinstance(it, Loop):
                if pred is None or pred(it):
                    yield it, p, ctx
                yield from loops_of(it.paths, pred, ctx + (it,))


def colterm(M, j):
    return ('f', ('ix', ('f', M, 'col'), j), 'indval')


def entry(M, j, x, what):
    return ('f', ('ix', colterm(M, j), x), what)


def last(M, j, what):
    c = colterm(M, j)
    return entry(M, j, sub(('size', c, 0), 1), what)


def entry_of(t):
    """M.col[j].indval[x].what -> (M, j, x, what)"""
    t = strip_ld(t)
    if isinstance(t, tuple) and t[0] == 'f' and t[2] in ('ind', 'val'):
        e = strip_ld(t[1])
        if isinstance(e, tuple) and e[0] == 'ix':
            c = strip_ld(e[1])
            if isinstance(c, tuple) and c[0] == 'f' and c[2] == 'indval':
                m = strip_ld(c[1])
                if isinstance(m, tuple) and m[0] == 'ix' and isinstance(strip_ld(m[1]), tuple) and strip_ld(m[1])[0] == 'f' and strip_ld(m[1])[2] == 'col':
                    return unld(strip_ld(m[1])[1]), unld(m[2]), unld(e[2]), t[2]
    return None


def quotient(c):
    """c == s * a / b with s = +-1 -> (s, a, b)"""
    p = poly(unld(c))
    if len(p) != 1:
        return None
    (m, k), = p.items()
    if k not in (1, -1):
        return None
    num = [x for x in m if not (isinstance(x, tuple) and x[0] == 'inv')]
    den = [x[1] for x in m if isinstance(x, tuple) and x[0] == 'inv']
    if len(num) == 1 and len(den) == 1:
        return k, num[0], den[0]
    return None


def idx_of(v):
    """index carried by an iterator or plain index value"""
    v = unld(v) if isinstance(v, tuple) else v
    if isinstance(v, tuple) and v and v[0] == 'it':
        return v[2]
    return v


def cursors(L):
    """loop variables with their symbol, start and container (None for plain indices)"""
    out = {}
    for d, (nm, sy) in L.syms.items():
        s0 = L.start.get(d)
        cont = None
        if isinstance(s0, tuple) and s0 and s0[0] == 'it':
            cont = unld(s0[1])
        out[d] = (nm, sy, idx_of(s0), cont)
    return out


def size_of(C):
    return ('size', unld(C), 0)


def iterates(L, C=None, lo=0, hi=None):
    """index symbol if the loop visits every position of C (or [lo,hi)) once in order, else None.
    Early exits by break/return are the caller's business."""
    if L.kind == 'rfor':
        return L.var if C is not None and unld(L.rng) == unld(C) and lo == 0 else None
    if hi is None:
        hi = size_of(C)
    for d, (nm, sy, s0, cont) in cursors(L).items():
        if s0 != lo and unld(s0) != unld(lo):
            continue
        ok = bool(L.paths)
        for q in L.paths:
            if q.exit in ('n', 'c') and idx_of(q.env.get(d)) != add(sy, 1):
                ok = False
        for q in L.exit:
            fa = Facts(q.trace)
            if not (fa.holds('==', sy, hi) is True or fa.holds('<', sy, hi) is False):
                ok = False
        for q in L.paths:
            fa = Facts(q.trace)
            if not (fa.holds('==', sy, hi) is False or fa.holds('<', sy, hi) is True):
                ok = False
        if ok and L.exit:
            return sy
    return None


def rel(fa, x, y):
    """-1 / 0 / 1 / None: what the facts say about the order of x and y"""
    e, l, g = fa.holds('==', x, y), fa.holds('<', x, y), fa.holds('<', y, x)
    if e is True:
        return 0
    if l is True:
        return -1
    if g is True:
        return 1
    if l is False and g is False:
        return 0
    if e is False and l is False:
        return 1
    if e is False and g is False:
        return -1
    return None


def fld(t, *names):
    """field of a value term, through tuples"""
    for n in names:
        if isinstance(t, tuple) and t and t[0] == 'tup':
            t = dict(t[1]).get(n)
        else:
            t = ('f', t, n)
    return t


PUSH = ('emplace_back', 'push_back', 'emplace_hint', 'emplace', 'insert', 'push', 'push_front', 'emplace_front')


def pushes(p, cont=None):
    """growth events of a path (not of nested loops)"""
    out = []
    for it in p.trace:
        if isinstance(it, Ev) and it.k == 'call' and short(it.name) in PUSH and it.name.startswith('std::'):
            if cont is None or unld(it.obj) == unld(cont):
                out.append(it)
    return out


def conds(p):
    return [it for it in p.trace if isinstance(it, Cond)]


def showconds(p):
    return ', '.join(repr(c) for c in conds(p))


def guarded(q, R, sy):
    """no condition of the path reads R[sy] before sy is known to be inside R"""
    fa = Facts()
    x, n = ('ix', unld(R), sy), size_of(R)
    for it in q.trace:
        if isinstance(it, Cond):
            if any(s == x for s in subterms(unld(it.t))) and not (fa.holds('==', sy, n) is False or fa.holds('<', sy, n) is True):
                return False
        elif isinstance(it, Loop):
            return True
        fa.add(it)
    return True
