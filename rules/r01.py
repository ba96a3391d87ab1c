"""Lock-step rule.  For every reduction and basis-update routine, every abstract path
(including one arbitrary iteration of every loop) is summarised by the sequence of
elementary column operations applied to a reduced matrix R and to its companion basis U.
The two sequences must be equal operation by operation: same kind, same column, same
coefficient (by value numbering), same source column."""
from rules.common import *

PROP = dict(
    id="R01", title="Reduced boundaries and basis matrices are transformed in lock step (B U = R)",
    statement="For every chain, cochain or DG complex, every column operation a reduction, sparsification or basis-update routine applies to the reduced boundary matrix R it also applies, with the same columns and coefficient, to the basis matrix U, so that boundary * U = R holds after construction, reduction, permutation, insertion, deletion and update. The only exceptions are clearing (zeroing a column of R and taking the boundary that kills it as basis column) and adding basis columns whose reduced boundary is zero.",
    over=["inputs", "histories"],
    text="every path of every routine that takes or owns a pair (R, U), any number of iterations",
    why="tests check B U = R for one reduction of small random matrices; a missing or mismatched companion operation shows only on inputs that take that path, and never in the barcode, only in the returned representatives",
    files=["include/homology/reduction.hpp", "include/homology/parallel.hpp", "include/homology/basis.hpp", "include/homology/cohom_basis.hpp", "include/homology/dgbasis.hpp"],
    mechanism=[("paired column operations", "M[j].axpy / U[j].axpy in reduction loops"), ("basis updates", "ReducedChainComplex::update_*, ReducedDGVectorSpace::update_*")],
)
TECHNIQUE = "path-sensitive dataflow: operation sequences on R and U compared by value numbering"
LEVEL = "other"
ASSUMPTIONS = ["distinct reference parameters of a routine do not alias each other",
               "std containers behave as modelled in bx/engine.py"]
MINIMUM = {"routines": 12, "paths with column operations": 15}

COOPS = {'reduce_matrix', 'reduce_matrix_standard', 'reduce_matrix_extra', 'reduce_matrix_compression', 'reduce_matrix_clearing',
         'reduce_column_standard', 'reduce_block_sequential', 'reduce_block_dq', 'sparsify_basis', 'remove_extra_cycles',
         'partial_reduce_parallel', 'reduce_column', 'extra_col_reduction'}
# entry routines with a (matrix, basis) parameter pair
FREE = ['reduce_matrix_standard', 'reduce_matrix_extra', 'reduce_matrix', 'reduce_column_standard', 'reduce_block_sequential',
        'reduce_block_dq', 'partial_reduce_parallel', 'sparsify_basis', 'remove_extra_cycles', 'reduce_matrix_clearing',
        'reduce_matrix_compression']
COLOPS = {'axpy', 'clear', 'scale_inplace', 'operator='}
MATCOL = {'swap_cols', 'permute_cols', 'ipermute_cols', 'erase_column', 'insert_columns', 'append_column', 'insert_column', 'add_cols',
          'mix_cols', 'scale_col', 'add_column', 'erase_final_columns', 'erase_initial_cols'}


def vocab(entry):
    def v(name, n):
        if la_mutator(name, n):
            return True
        return False
    return v


def norm(t):
    return unld(t)


def ops_of(items, side):
    """side(matrix)-> None or (group, 'R'|'U'); returns [(group, side, op tuple, line, fn)]"""
    out = []
    for e in items:
        if not isinstance(e, Ev):
            continue
        if e.k == 'call' and cls_of(e.name) in ('SparseVector', 'ColumnMatrix'):
            m = short(e.name)
            c = col_of(e.obj) if e.obj is not None else None
            if c is not None:
                s = side(c[0])
                if s is None:
                    continue
                args = []
                for a in e.args:
                    ca = col_of(a)
                    if ca is not None and side(ca[0]) is not None:
                        g2, s2 = side(ca[0])
                        args.append(('col', g2, 'same' if s2 == s[1] else 'other', norm(ca[1])))
                    elif isinstance(a, tuple) and a and (a[0] == 'v' or a[0] == 'ld' and a[1][0] == 'v'):
                        continue      # scratch buffers
                    else:
                        args.append(norm(a))
                out.append((s[0], s[1], (m, norm(c[1])) + tuple(args), e.line, e.fn))
                continue
            if e.obj is not None:
                s = side(mat_of(e.obj))
                if s is not None and m in MATCOL:
                    # column operations on the whole matrix; inserted contents differ by design
                    args = tuple(norm(a) for a in e.args)
                    if m in ('insert_columns', 'append_column', 'insert_column'):
                        args = args[:1] if m != 'append_column' else ()
                    if m == 'swap_cols':
                        args = tuple(sorted(args, key=key))
                    out.append((s[0], s[1], (m,) + args, e.line, e.fn))
        elif e.k == 'call' and e.name == 'std::swap':
            cs = [col_of(a) for a in e.args]
            if all(cs):
                s = side(cs[0][0])
                if s is not None and side(cs[1][0]) == s:
                    out.append((s[0], s[1], ('swap_cols',) + tuple(sorted((norm(c[1]) for c in cs), key=key)), e.line, e.fn))
        elif e.k == 'set' and e.name == '=':
            c = col_of(e.obj)
            o = strip_ld(e.obj)
            if c is not None and isinstance(o, tuple) and o[0] == 'ix':
                s = side(c[0])
                if s is not None:
                    out.append((s[0], s[1], ('assign', norm(c[1]), norm(e.args[0])), e.line, e.fn))
    return out


def zero_guard(path, mat, k):
    """is 'column k of mat is empty' on this path"""
    for it in path.trace:
        if isinstance(it, Cond) and it.pol and it.t[0] == 'cmp' and it.t[1] == '==':
            for a, b in ((it.t[2], it.t[3]), (it.t[3], it.t[2])):
                if a == 0 and isinstance(b, tuple) and b[0] == 'size':
                    c = col_of(b[1])
                    if c is not None and c[0] == mat and norm(c[1]) == norm(k):
                        return True
    return False


def check_path(ctx, f, p, side, mats):
    ops = ops_of(p.trace, side)
    groups = {}
    for g, s, op, line, fn in ops:
        groups.setdefault(g, {'R': [], 'U': []})[s].append((op, line, fn))
    for g, d in groups.items():
        r = list(d['R'])
        uu = list(d['U'])
        # clearing: a column of R is zeroed and the basis column replaced by the
        # reduced boundary that has this row as pivot
        rc = [x for x in r if x[0][0] == 'clear' or x[0][0] == 'assign']
        ua = [x for x in uu if x[0][0] == 'assign']
        if rc and ua and len(rc) == len(ua) == 1 and rc[0][0][0] == 'clear':
            ok = rc[0][0][1] == ua[0][0][1]
            ctx.check(ok, 'clearing', f.loc(rc[0][1]), '%s clears column %s of R but replaces column %s of U' % (
                f.name, show(rc[0][0][1]), show(ua[0][0][1])), '%s:clearing' % f.name)
            r.remove(rc[0])
            uu.remove(ua[0])
        # U-only operations with a source column that is zero in R
        R = mats.get((g, 'R'))
        uu2 = []
        for op, line, fn in uu:
            if op[0] == 'axpy' and R is not None and not any(x[0] == op for x in r):
                src = [a for a in op[2:] if isinstance(a, tuple) and a and a[0] == 'col']
                if src and src[0][2] == 'same' and zero_guard(p, R, src[0][3]):
                    ctx.check(True, 'zero-source', f.loc(line), '')
                    continue
            uu2.append((op, line, fn))
        a = [x[0] for x in r]
        b = [x[0] for x in uu2]
        ok = a == b
        if not ok and sorted(a, key=key) == sorted(b, key=key) and len(set(x[1] if len(x) > 1 else None for x in a)) == len(a):
            ok = True      # independent target columns: order irrelevant
        line = (r + uu2)[0][1] if (r or uu2) else f.line
        if r or uu2:
            ctx.count("paths with column operations")

            def sh(o):
                return '; '.join('%s(%s)' % (x[0], ', '.join(show(y) if not (isinstance(y, tuple) and y and y[0] == 'col') else 'col %s' % show(y[3]) for y in x[1:])) for x in o) or 'nothing'
            ctx.check(ok, 'lock-step', f.loc(line), '%s: on one path R gets [%s] but U gets [%s]' % (f.name, sh(a), sh(b)),
                      '%s:lockstep:%s:%s' % (f.name, g if isinstance(g, str) else show(g), '+'.join(sorted({x[0] for x in set(a) ^ set(b)}))))


def free_functions(ctx, u):
    done = set()
    for name in FREE:
        fs = [f for f in u.find('bats::' + name) if len(params_of_type(f, u, 'ColumnMatrix', False)) >= 2 and f.d['ps'][1].get('ref') == 1]
        ctx.need(fs, 'anchor vanished: no (matrix, basis) instance of bats::%s' % name)
        for f in fs:
            if (f.file, f.line) in done:
                continue
            done.add((f.file, f.line))
            ps = params_of_type(f, u, 'ColumnMatrix', False)[:2]
            m, b = [('v', p['n'], 0) for p in ps]

            def side(x, m=m, b=b):
                if x == m:
                    return ('g', 'R')
                if x == b:
                    return ('g', 'U')
                return None
            e = Engine(u, vocab=lambda n, x: la_mutator(n, x))
            paths = e.run(f)
            ctx.function(f)
            ctx.count("routines")
            for g in e.inlined:
                ctx.function(g)
            for p, lp in all_paths(paths):
                check_path(ctx, f, p, side, {('g', 'R'): m, ('g', 'U'): b})
            # co-operations that were kept as events because of recursion
            for ev, p, lp in all_events(paths):
                if ev.k == 'call' and short(ev.name) in COOPS:
                    sides = [side(mat_of(a)) for a in ev.args[:2]]
                    ctx.check(sides[0] is not None and sides[1] is not None and sides[0][1] != sides[1][1], 'paired-call', f.loc(ev.line),
                              '%s calls %s on one of the two matrices only' % (f.name, ev.name), '%s:paired' % f.name)


CLASSES = ['bats::ReducedChainComplex', 'bats::ReducedCochainComplex', 'bats::ReducedDGVectorSpace']
# methods that must exist and transform R and U together
ANCHORS = {('bats::ReducedChainComplex', 'update_reduction2'), ('bats::ReducedDGVectorSpace', 'update_reduction2'),
           ('bats::ReducedChainComplex', 'update_basis_general'), ('bats::ReducedDGVectorSpace', 'update_basis')}


def member_side(x):
    if isinstance(x, tuple) and x[0] == 'ix' and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][1] == ('this',) and x[1][2] in ('R', 'U'):
        return (norm(x[2]), x[1][2])
    return None


def class_methods(ctx, u):
    seen = set()
    for f in u.funcs:
        if f.dep or f.d.get('cls') not in CLASSES or f.d.get('cm') or f.d.get('imp') or f.d.get('dfd'):
            continue
        mid = (f.d['cls'], f.name.split('::')[-1])
        e = Engine(u, vocab=lambda n, x: la_mutator(n, x) or (short(n) in COOPS and x.get('r') and cls_of(n) == 'bats'), maxpaths=20000)
        paths = e.run(f)
        ctx.function(f)
        touched = False
        for p, lp in all_paths(paths):
            for ev in p.trace:
                if not isinstance(ev, Ev) or ev.k != 'call' or short(ev.name) not in COOPS:
                    continue
                sides = [member_side(mat_of(a)) for a in ev.args[:2]]
                if sides[0] is None:
                    continue
                touched = True
                if sides[1] is not None:
                    ctx.check(sides[0][0] == sides[1][0] and sides[0][1] != sides[1][1], 'paired-call', f.loc(ev.line),
                              '%s: %s is given %s and %s' % (f.name, ev.name, show(ev.args[0]), show(ev.args[1])), '%s:paired' % f.name)
            n0 = len(ctx.obl)
            check_path(ctx, f, p, member_side, {(g, s): ('ix', ('f', ('this',), s), g) for g in () for s in 'RU'})
            touched = touched or len(ctx.obl) > n0
        if touched:
            ctx.count('routines')
            seen.add(mid)
    for a in ANCHORS:
        ctx.need(a in seen, 'anchor vanished: %s::%s no longer transforms R and U' % a)


def run(ctx):
    u, = prog.load(['core'])
    free_functions(ctx, u)
    class_methods(ctx, u)
