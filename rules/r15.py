"""Extended Euclid, Smith normal forms, univariate polynomials and the rational canonical form.

Euclid's loop is a linear recurrence: the pairs of coefficients that stay attached to the two
remainders are found among the loop variables and the identities x a + y b = g, s a + t b = r and
x t - y s = D (D changes sign each round) are verified as polynomial identities over one arbitrary
round; the returned cofactors follow by substitution, once per parity.  The Smith functions are read
as sequences of row and column operations between loops: each operation on S must be undone by the
paired operation on R or C (2x2 products reduced modulo x w + y z = 1), must act on the rows and
columns whose entries were handed to Euclid, and must put g and 0 where it claims to.  Operations of
a single column are accepted only where the pivot divides the entry and no row has been mixed in that
sweep.  Polynomial operations are compared per coefficient, with both operands' lengths taken from
the path conditions."""
from rules.common import *
from rules.r04 import M
from rules.r08 import par
from bx.seqs import subst, trip, visits, coef

PROP = dict(
    id="R15", title="Euclid, Smith forms, polynomials and rational canonical form are exact",
    statement="For all ring elements, extended_euclidean returns x, y, g, w, z with x a + y b = g, w g = a and z g = b, and (1, 0, a, 1, b/a) when a divides b. For every integer or polynomial matrix, smith_factorization, smith_rows and smith_normal_form change the matrix only by invertible row and column operations that put the gcd of the two combined entries into the pivot and zero into the other, each recorded by its inverse in R or C so that A = R S C, and end with each diagonal entry dividing the later ones. Polynomial arithmetic (negation, sum, difference, product, quotient, remainder, gcd, comparison, evaluation at numbers and at matrices) is exact, and no polynomial stores a leading zero. companion_matrix and characteristic_matrix have the documented entries; generating_basis and RCF_basis list the vectors R_ij(A) e_i summed over i and v, Av, ..., A^(d-1) v per block of degree d.",
    over=["inputs"],
    text="all coefficients, degrees and matrix shapes; Euclid and the sweeps are decided for an arbitrary round",
    why="the tests have no Smith or RCF case and few polynomials: a lost sign in the parity correction, an unmatched row operation or a sweep that mixes one column only shows up on particular gcd chains",
    files=["include/linalg/pid.hpp", "include/linalg/polynomial.hpp", "include/linalg/rcf.hpp"],
    mechanism=[("Euclid recurrence", "extended_euclidean"), ("paired operations", "smith_factorization, smith_rows"), ("dense coefficients", "UnivariatePolynomial::c")],
)
TECHNIQUE = "inductive polynomial identities over one round, paired inverse operations per path, per-coefficient comparison of polynomial loops"
LEVEL = "proof"
ASSUMPTIONS = ["ring operations are exact; / is the Euclidean quotient of the ring", "the divisor of divrem is not zero",
               "row and column operations are as decided by R13", "termination of the sweeps is not decided", "arguments of companion_matrix are nonzero polynomials"]
MINIMUM = {"functions": 14}
THIS = ('this',)
NOT = ('n', 'c')


def rec(ctx, what):
    ctx.count(what + " not recognised")


def params(f):
    return {('sym', p['n'], 0) for p in f.d['ps']} | {('v', p['n'], 0) for p in f.d['ps']}


def pick(u, name, *types, cls=None):
    for f in u.funcs:
        if f.dep or f.d.get('b') is None or short(f.name) != name:
            continue
        if cls is not None and (f.d.get('ct') is None or u.type(f.d['ct']) != cls):
            continue
        ts = [u.type(p['t']) for p in f.d['ps']]
        if types and (len(ts) < len(types) or not all(x in t for x, t in zip(types, ts))):
            continue
        yield f


# ------------------------------------------------------------------------ Euclid
def divs(t, out):
    """/(p,q) and %(p,q) applications inside t"""
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] == 'app' and s[1] in ('/', '%', '%u', '/u') and len(s[2]) == 2:
            out.add(s)
    return out


def norm(t):
    """remainders written with quotients"""
    t = unld(t)
    for s in sorted(divs(t, set()), key=lambda s: -len(repr(s))):
        if s[1] in ('%', '%u'):
            p, q = s[2]
            t = subst(t, s, sub(p, mul(('app', '/', (p, q), 0), q)))
    return t


def polynomial_in(t, atoms):
    """only +, -, * over the given atoms and quotient applications"""
    for m in poly(t):
        for a in m:
            if isinstance(a, tuple) and a and a[0] == 'inv':
                return False
            if a not in atoms and not (isinstance(a, tuple) and a[0] == 'app' and a[1] == '/'):
                return False
    return True


def resolve(v, p):
    """component values of a returned tuple (references to locals resolved)"""
    v = unld(v)
    out = None
    while isinstance(v, tuple) and v and (v[0] in ('tie', 'list') or v[0] == 'app' and ('tuple' in str(v[1]) or 'tie' in str(v[1]))):
        args = list(v[1] if v[0] in ('tie', 'list') else v[2])
        if len(args) == 1 and isinstance(args[0], tuple) and args[0] and (args[0][0] in ('tie', 'list') or args[0][0] == 'app' and ('tie' in str(args[0][1]) or 'tuple' in str(args[0][1]))):
            v = args[0]
            continue
        out = args
        break
    if out is None:
        return None
    r = []
    for a in out:
        if isinstance(a, tuple) and a and a[0] == 'envvar':
            a = p.env.get(a[1])
            if isinstance(a, tuple) and a and a[0] == 'lv':
                a = p.st.store.get(a[1], a[1])
        r.append(norm(a))
    return r


def euclid(ctx, u):
    fs = list(pick(u, 'extended_euclidean', 'int'))
    ctx.need(fs, 'anchor vanished: extended_euclidean over int')
    f = fs[0]
    ctx.function(f)
    ctx.count("functions")
    w, k0 = f.loc(), 'extended_euclidean'
    a, b = par(f, 0, u), par(f, 1, u)
    for p in Engine(u).run(f):
        if p.exit != 'ret':
            continue
        r = resolve(p.val, p)
        if r is None or len(r) != 5:
            rec(ctx, "Euclid results")
            continue
        loops = [it for it in p.trace if isinstance(it, Loop)]
        fa = Facts([it for it in p.trace if not isinstance(it, Leave)])
        x, y, g, ww, z = r
        if not loops:
            # identities under the equations of the path
            sys_ = []
            for it in conds(p):
                t = unld(it.t)
                if it.pol and t[0] == 'cmp' and t[1] == '==':
                    l, rr = norm(t[2]), norm(t[3])
                    for s, o in ((l, rr), (rr, l)):
                        if s in (a, b) and not any(q == s for q in subterms(o) if not (isinstance(q, tuple) and q and q[0] == 'app')) or s in (a, b):
                            sys_.append((s, o))
            ctx.count("Euclid results")

            def closed(t):
                """t with quotients as atoms and b (or a) eliminated by an equation of the path"""
                if t == 0:
                    return True
                qs = {}
                for s in sorted(divs(t, set()), key=lambda s: -len(repr(s))):
                    qs[s] = ('sym', 'q%d' % len(qs), 0)
                for s, o in sys_:
                    for d in sorted(divs(o, set()), key=lambda s: -len(repr(s))):
                        qs.setdefault(d, ('sym', 'q%d' % len(qs), 0))

                def q(t):
                    for s, n in qs.items():
                        t = subst(t, s, n)
                    return t
                t = q(t)
                for s, o in sys_:
                    if q(o) != s and subst(t, s, q(o)) == 0:
                        return True
                return False
            for what, t in (('x a + y b is not g', sub(add(mul(x, a), mul(y, b)), g)), ('w g is not a', sub(mul(ww, g), a)), ('z g is not b', sub(mul(z, g), b))):
                if all(polynomial_in(norm(s), {a, b}) for s in r):
                    ctx.check(closed(norm(t)), 'euclid', w, '%s: %s on the path [%s] returning (%s)' % (k0, what, showconds(p), ', '.join(map(show, r))), k0)
                else:
                    rec(ctx, "Euclid results")
            continue
        if len(loops) != 1:
            rec(ctx, "Euclid results")
            continue
        # a divides b must have been excluded before the loop, or the coefficients are not (1, 0, a, 1, b/a)
        qa = ('app', '/', (b, a), 0)
        no = fa.holds('==', a, 0) is True or any(fa.holds('==', l, rr) is False for l, rr in ((mul(qa, a), b), (('app', '%', (b, a), 0), 0)))
        ctx.check(no, 'euclid', w, '%s: when a divides b the result is not known to be (1, 0, a, 1, b/a), on which the single-column operations of the Smith forms rely' % k0, k0)
        L = loops[0]
        syms = {sy: d for d, (nm, sy) in L.syms.items()}
        atoms = set(syms) | {a, b}
        nexts = [q for q in L.paths if q.exit in NOT]
        if len(nexts) != 1:
            rec(ctx, "Euclid results")
            continue
        q = nexts[0]
        st = {sy: norm(L.start[d]) for sy, d in syms.items() if L.start.get(d) is not None}
        nx = {sy: norm(q.env[d]) for sy, d in syms.items() if q.env.get(d) is not None}
        if not all(polynomial_in(t, atoms) for t in list(st.values()) + list(nx.values())) or len(st) != len(syms) or len(nx) != len(syms):
            rec(ctx, "Euclid results")
            continue
        # the remainder that is zero when the loop is left
        lv = [it.path for it in p.trace if isinstance(it, Leave)]
        R = [sy for sy in syms if lv and Facts(lv[0].trace).holds('==', sy, 0) is True]
        if len(R) != 1 or x not in syms or y not in syms or g not in syms:
            rec(ctx, "Euclid results")
            continue
        R = R[0]
        ctx.count("Euclid results")

        def at(t, m):
            for s, n in m.items():
                t = subst(t, s, ('sym', '@' + repr(s), 0))
            for s, n in m.items():
                t = subst(t, ('sym', '@' + repr(s), 0), n)
            return t
        # quotients as atoms, so that every identity is polynomial
        qs = set()
        for t in nx.values():
            divs(t, qs)
        qs = {s: ('sym', 'Q%d' % i, 0) for i, s in enumerate(sorted(qs, key=repr))}

        def qq(t):
            for s, n in qs.items():
                t = subst(t, s, n)
            return t
        nx = {s: qq(t) for s, t in nx.items()}
        cand = [s for s in syms if s not in (R, g)]
        inv1 = lambda X, Y, G: sub(add(mul(X, a), mul(Y, b)), G)
        # candidates for the cofactors of the remainder: start right and keep s a + t b = r given x a + y b = g
        found = None
        for S in cand:
            for T in cand:
                if S == T or S in (x, y) or T in (x, y):
                    continue
                base = at(inv1(x, y, g), st) == 0 and at(inv1(S, T, R), st) == 0
                # hypotheses: g = x a + y b, R = S a + T b
                hyp = {g: add(mul(x, a), mul(y, b)), R: add(mul(S, a), mul(T, b))}
                h = lambda t: at(t, hyp)
                step = h(at(inv1(x, y, g), nx)) == 0 and h(at(inv1(S, T, R), nx)) == 0
                if base and step:
                    found = (S, T)
        if not ctx.check(found is not None, 'euclid', w, '%s: x a + y b = g with the matching identity for the remainder is not kept by a round of the loop' % k0, k0):
            continue
        S, T = found
        D = sub(mul(x, T), mul(y, S))
        d0, d1 = at(D, st), at(D, nx)
        if not is_num(d0) or add(d1, D) != 0 or d0 not in (1, -1):
            rec(ctx, "Euclid cofactors")
            continue
        # sign on this path
        signs = {1, -1}
        for it in p.trace:
            if isinstance(it, Cond):
                t = unld(it.t)
                par_ = None
                for s in syms:
                    if st[s] in (0, 1) and sub(nx[s], s) == 1:
                        for o in (('truth', ('app', '&', (s, 1), 0)), ('truth', ('app', '%', (s, 2), 0)), ('truth', ('app', '%u', (s, 2), 0))):
                            if t == o:
                                par_ = it.pol
                        for o in (('app', '&', (s, 1), 0), ('app', '%', (s, 2), 0), ('app', '%u', (s, 2), 0)):
                            if t[0] == 'cmp' and t[1] == '==' and {t[2], t[3]} in ({o, 0}, {o, 1}):
                                par_ = it.pol if 1 in (t[2], t[3]) else not it.pol
                        if par_ is not None:
                            par_ = par_ if st[s] == 0 else not par_
                            signs = {-d0 if par_ else d0}
                            break
        # a = D T g, b = -D S g when the remainder is zero
        flips = {s: ('flip', st[s]) for s in syms if st[s] in (1, -1) and add(nx[s], s) == 0}
        for D1 in sorted(signs):
            m = {s: (v[1] * d0 * D1) for s, v in flips.items()}
            wv, zv = at(ww, m), at(z, m)
            for nm, t, want, other in (('w', wv, mul(D1, T), a), ('z', zv, mul(-D1, S), b)):
                t = norm(t)
                if t == ('app', '/', (other, g), 0):
                    continue
                if not polynomial_in(t, set(syms)):
                    rec(ctx, "Euclid cofactors")
                    continue
                ctx.check(t == want, 'euclid', w, '%s: after an %s number of rounds %s is returned as %s instead of %s' % (
                    k0, 'even' if D1 == d0 else 'odd', nm, show(t), show(want)), k0)


# ------------------------------------------------------------------------ Smith
OPS = {'mix_cols', 'mix_rows', 'swap_cols', 'swap_rows', 'scale_inplace', 'add_row', 'add_col', 'axpy'}
KEEP = {'extended_euclidean', 'identity', 'operator()', 'leading_coeff', 'inv'} | OPS
FIELDS = ('first', 'second', 'get2', 'get3', 'get4')


def smith(ctx, u):
    for name in ('smith_factorization', 'smith_rows', 'smith_normal_form'):
        fs = list(pick(u, name, 'SparseVector<int'))
        ctx.need(fs, 'anchor vanished: %s' % name)
        for f in fs[:1]:
            smith1(ctx, u, f, name, False)
        for f in list(pick(u, name, 'UnivariatePolynomial'))[:1]:
            smith1(ctx, u, f, name, True)


class Alg:
    """polynomials over the results of Euclid calls, modulo x w + y z = 1 for each call"""

    def __init__(self):
        self.calls = {}

    def tr(self, t):
        t = unld(t)
        for s in list(subterms(t)):
            if isinstance(s, tuple) and s and s[0] == 'f' and s[2] in FIELDS and isinstance(s[1], tuple) and s[1][0] == 'app' and short(s[1][1]) == 'extended_euclidean':
                k = self.calls.setdefault(s[1], len(self.calls))
                t = subst(t, s, ('sym', 'xygwz'[FIELDS.index(s[2])], k + 1))
        return t

    def red(self, t):
        for _ in range(20):
            done = True
            r = 0
            for m, c in poly(t).items():
                hit = None
                for at in m:
                    if at[0] == 'sym' and at[1] == 'x' and ('sym', 'w', at[2]) in m:
                        hit = at
                if hit is None:
                    x = c
                    for at in m:
                        x = mul(x, at)
                    r = add(r, x)
                    continue
                done = False
                k = hit[2]
                x = c
                ms = list(m)
                ms.remove(hit)
                ms.remove(('sym', 'w', k))
                for at in ms:
                    x = mul(x, at)
                r = add(r, mul(x, sub(1, mul(('sym', 'y', k), ('sym', 'z', k)))))
            t = r
            if done:
                return t
        return t

    def known(self, t):
        return all(isinstance(a, tuple) and a[0] == 'sym' and a[1] in 'xygwz' and a[2] for m in poly(t) for a in m)


def mat2(A, B):
    return tuple(tuple(add(mul(A[i][0], B[0][j]), mul(A[i][1], B[1][j])) for j in (0, 1)) for i in (0, 1))


def segments(p):
    """mutating events of a path between its loops"""
    cur = []
    for it in p.trace:
        if isinstance(it, Loop):
            yield cur
            cur = []
        elif isinstance(it, Ev) and it.k == 'call':
            cur.append(it)
    yield cur


def holder(t):
    """(matrix, column or None) an operation acts on"""
    t = strip_ld(t)
    if isinstance(t, tuple) and t[0] == 'ix' and strip_ld(t[1])[0] == 'f' and strip_ld(t[1])[2] == 'col':
        return unld(strip_ld(t[1])[1]), unld(t[2])
    return unld(t), None


def smith1(ctx, u, f, name, polys):
    w, k0 = f.loc(), name
    ctx.function(f)
    ctx.count("functions")

    def voc(n, x):
        s = short(n)
        return s in KEEP or (polys and s in ('operator+', 'operator-', 'operator*')) or la_mutator(n, x)
    paths = Engine(u, vocab=voc, maxpaths=20000).run(f)
    A = ('v', f.d['ps'][0]['n'], 0)
    # roles
    S = R = C = None
    for p in paths:
        for it in p.trace:
            if isinstance(it, Ev) and it.k == 'set' and it.name == 'init' and it.obj and it.obj[0] == 'v':
                v = unld(it.args[0])
                if v == A:
                    S = it.obj
                elif isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == 'identity' and len(v[2]) == 1:
                    if v[2][0] == ('f', A, 'm') and R is None:
                        R = it.obj
                    elif v[2][0] == ('f', A, 'n') and (name == 'smith_factorization'):
                        C = it.obj
                    else:
                        if it.obj[1] not in ('R', 'C') or it.obj in (R, C):
                            continue
                        ctx.bad('smith', w, '%s: %s starts as an identity of size %s' % (k0, it.obj[1], show(v[2][0])), k0)
    if name == 'smith_normal_form':
        S = A
    want = {'smith_factorization': ('R', 'S', 'C'), 'smith_rows': ('R', 'S'), 'smith_normal_form': ()}[name]
    if S is None or ('R' in want and R is None) or ('C' in want and C is None):
        ctx.need(False, '%s: matrices not recognised' % name)
    roles = {'R': R, 'S': S, 'C': C}
    if want:
        for p in paths:
            v = unld(p.val)
            got = None
            if isinstance(v, tuple) and v[0] == 'list':
                got = list(v[1])
            elif isinstance(v, tuple) and v[0] == 'app':
                got = resolve(p.val, p)
                if got is None:
                    s = [x for x in subterms(v) if isinstance(x, tuple) and x and x[0] == 'v' and x in (R, S, C)]
                    got = list(dict.fromkeys(s)) or None
            if got is not None and all(g in (R, S, C) for g in got) and len(got) == len(want):
                ctx.check(got == [roles[x] for x in want], 'smith', w, '%s: returns %s' % (k0, [show(x) for x in got]), k0)
            else:
                rec(ctx, "Smith results")
    # dimensions written through S or A
    def dim(t):
        t = unld(t)
        for X in (S,):
            t = subst(subst(t, ('f', X, 'n'), ('f', A, 'n')), ('f', X, 'm'), ('f', A, 'm'))
            t = subst(t, ('size', ('f', X, 'col'), 0), ('f', A, 'n'))
        return t
    alg = Alg()
    seen = set()
    for p, outer in all_paths(paths):
        for n, seg in enumerate(segments(p)):
            ops = []
            for e in seg:
                X, col = holder(e.obj) if e.obj is not None else (None, None)
                if X in (R, S, C) and X is not None and short(e.name) in OPS:
                    ops.append((e, short(e.name), X, col))
                elif X in (R, S, C) and X is not None:
                    rec(ctx, "Smith operations")
            if not ops:
                continue
            sig = tuple((e.line, nm, X, col, unld(e.args), p.exit) for e, nm, X, col in ops)
            if polys:
                ops = [o for o in ops if o[1] == 'scale_inplace']
                if ops:
                    monic(ctx, u, p, ops, S, R, w, k0)
                continue
            if sig in seen and n == 0:
                pass
            seen.add(sig)
            smith_ops(ctx, alg, p, outer, ops, S, R, C, w, k0)
    if polys:
        return
    ranges(ctx, paths, S, A, dim, w, k0)


def monic(ctx, u, p, ops, S, R, w, k0):
    """S[j] and R[j] scaled by inverse constants, the first being 1 over the leading coefficient"""
    def c(t):
        t = unld(t)
        while isinstance(t, tuple) and t[0] == 'app' and 'UnivariatePolynomial' in str(t[1]) and str(t[1]).startswith('new') and len(t[2]) == 1:
            t = t[2][0]
        return t
    s = [(e, col) for e, nm, X, col in ops if X == S]
    r = [(e, col) for e, nm, X, col in ops if X == R and R is not None]
    ctx.count("Smith operations")
    for e, col in s:
        v = c(e.args[0])
        lead = [x for x in subterms(v) if isinstance(x, tuple) and x and x[0] == 'app' and short(str(x[1])) == 'leading_coeff']
        if len(lead) == 1:
            t = lead[0][2][0]
            if isinstance(t, tuple) and t[0] == 'app' and short(t[1]) == 'operator()':
                ctx.check(tuple(t[2]) == (S, col, col), 'monic', w, '%s: column %s is scaled by the leading coefficient of entry %s' % (k0, show(col), show(t)), k0)
            ctx.check(mul(v, lead[0]) == 1 or v == ('app', 'inv', (lead[0],), 0), 'monic', w, '%s: the diagonal entry is scaled by %s, which does not make it monic' % (k0, show(v)), k0)
        else:
            rec(ctx, "Smith operations")
    if R is not None:
        if not ctx.check(len(s) == len(r), 'monic', w, '%s: scaling of a diagonal entry is not recorded in R' % k0, k0):
            return
        for (e1, c1), (e2, c2) in zip(s, r):
            v1, v2 = c(e1.args[0]), c(e2.args[0])
            ctx.check(c1 == c2 and mul(v1, v2) == 1, 'monic', w, '%s: column %s of S is scaled by %s and column %s of R by %s' % (k0, show(c1), show(v1), show(c2), show(v2)), k0)


def euclid_args(alg, k):
    for c, n in alg.calls.items():
        if n + 1 == k:
            return c[2]
    return None


def smith_ops(ctx, alg, p, outer, ops, S, R, C, w, k0):
    """operations of one segment: pairing, inverse products and effect"""
    def rows(X):
        return [(e, nm, col) for e, nm, x, col in ops if x == X and nm in ('mix_rows', 'swap_rows', 'add_row')]

    def cols(X):
        return [(e, nm, col) for e, nm, x, col in ops if x == X and nm in ('mix_cols', 'swap_cols', 'add_col')]
    known = {'mix_rows', 'mix_cols', 'swap_rows', 'swap_cols'}
    if any(nm not in known for e, nm, X, col in ops):
        rec(ctx, "Smith operations")
        return
    where = 'lines %s' % sorted({e.line for e, _, _, _ in ops})
    fa = Facts()
    for q in list(outer):
        pass
    for it in p.trace:
        if isinstance(it, Cond):
            fa.add(it)
    flag = {}
    pairs = [('row', rows(S), R and cols(R), 'R')] if R else []
    if C:
        pairs.append(('column', cols(S), rows(C), 'C'))
    for kind, a, b, nm in pairs:
        if not ctx.check(len(a) == len(b), 'pairing', w, '%s (%s): %d %s operations on S but %d recorded in %s' % (k0, where, len(a), kind, len(b), nm), k0):
            continue
        for (e1, n1, c1), (e2, n2, c2) in zip(a, b):
            ctx.count("Smith operations")
            i1, i2 = [e1.args[0], e1.args[1]], [e2.args[0], e2.args[1]]
            same = [x == y or unld(x) == unld(y) for x, y in zip(i1, i2)]
            if n1.startswith('swap'):
                same = [set(map(unld, i1)) == set(map(unld, i2))]
            ctx.check(all(same) and n2.split('_')[0] == n1.split('_')[0], 'pairing', w, '%s (%s): %s on S at (%s) is recorded in %s by %s at (%s)' % (
                k0, where, n1, ', '.join(map(show, i1)), nm, n2, ', '.join(map(show, i2))), k0)
            # the second index read again from a position whose entry was erased meanwhile
            before = ops.index(next(o for o in ops if o[0] is e1)) < ops.index(next(o for o in ops if o[0] is e2))
            late = e2 if before else e1
            for x, y in zip(i1, i2):
                if unld(x) == unld(y) and x != y:
                    pos = unld(x)
                    if pos[0] == 'f' and pos[1][0] == 'ix' and pos[1][2] != 0:
                        ctx.bad('pairing', w, '%s (%s): the index %s is read again after the first operation erased that entry' % (k0, where, show(pos)), k0)
            if n1.startswith('mix') and len(e1.args) >= 6 and len(e2.args) >= 6:
                E = [alg.red(alg.tr(x)) for x in e1.args[2:6]]
                F = [alg.red(alg.tr(x)) for x in e2.args[2:6]]
                if not all(alg.known(x) for x in E + F):
                    rec(ctx, "Smith operations")
                    continue
                E, F = ((E[0], E[1]), (E[2], E[3])), ((F[0], F[1]), (F[2], F[3]))
                P = mat2(F, E) if kind == 'row' else mat2(E, F)
                P = tuple(tuple(alg.red(x) for x in r) for r in P)
                ctx.check(P == ((1, 0), (0, 1)), 'pairing', w, '%s (%s): the %s operation %s is recorded in %s as %s, which is not its inverse' % (
                    k0, where, kind, [[show(x) for x in r] for r in E], nm, [[show(x) for x in r] for r in F]), k0)
    # effect on S
    ms = [(e, nm, col) for e, nm, X, col in ops if X == S and nm.startswith('mix')]
    if not ms or not all(len(e.args) >= 6 for e, _, _ in ms):
        return
    Es = []
    ks = set()
    for e, nm, col in ms:
        E = [alg.red(alg.tr(x)) for x in e.args[2:6]]
        if not all(alg.known(x) for x in E):
            rec(ctx, "Smith operations")
            return
        Es.append(((E[0], E[1]), (E[2], E[3])))
        ks |= {at[2] for x in E for m in poly(x) for at in m}
    if len(ks) != 1:
        rec(ctx, "Smith operations")
        return
    k = ks.pop()
    ag = euclid_args(alg, k)
    x, y, g, ww, z = [('sym', c, k) for c in 'xygwz']
    for (e, nm, col), E in zip(ms, Es):
        det = alg.red(sub(mul(E[0][0], E[1][1]), mul(E[0][1], E[1][0])))
        ctx.check(det in (1, -1), 'unimodular', w, '%s (%s): the operation on S has determinant %s' % (k0, where, show(det)), k0)
    a, b = unld(ag[0]), unld(ag[1])
    def entry(t):
        """entry of S: ('nz', column, position) or ('at', row, column)"""
        if isinstance(t, tuple) and t[0] == 'app' and short(str(t[1])) == 'operator()' and len(t[2]) == 3 and t[2][0] == S:
            return ('at', t[2][1], t[2][2])
        if isinstance(t, tuple) and t[0] == 'f' and t[2] == 'val' and t[1][0] == 'ix':
            c = col_of(t)
            if c and c[0] == S:
                return ('nz', unld(c[1]), t[1])
        return None
    ea, eb = entry(a), entry(b)
    if ea is None or eb is None:
        rec(ctx, "Smith operations")
        return
    ctx.count("Smith combinations")
    mulE = lambda E, v: (alg.red(add(mul(E[0][0], v[0]), mul(E[0][1], v[1]))), alg.red(add(mul(E[1][0], v[0]), mul(E[1][1], v[1]))))
    if len(ms) == 1:
        (e, nm, col), E = ms[0], Es[0]
        i, j = unld(e.args[0]), unld(e.args[1])
        wg = (mul(ww, g), mul(z, g))
        if nm == 'mix_rows':
            got = mulE(E, wg)
            # rows of the two entries
            if ea[0] == 'nz' and eb[0] == 'nz':
                ctx.check(ea[1] == eb[1], 'combine', w, '%s (%s): rows are combined with entries of two columns' % (k0, where), k0)
                ra, rb = ('f', ea[2], 'ind'), ('f', eb[2], 'ind')
                ctx.check((i, j) == (ra, rb) or fa.holds('==', i, ra) is True and j == rb, 'combine', w, '%s (%s): rows (%s, %s) are combined with the coefficients of the entries in rows (%s, %s)' % (k0, where, show(i), show(j), show(ra), show(rb)), k0)
        else:
            got = mulE(((E[0][0], E[1][0]), (E[0][1], E[1][1])), wg)
            if ea[0] == 'nz' and eb[0] == 'nz':
                ctx.check((i, j) == (ea[1], eb[1]), 'combine', w, '%s (%s): columns (%s, %s) are combined with the coefficients of the entries in columns (%s, %s)' % (k0, where, show(i), show(j), show(ea[1]), show(eb[1])), k0)
                rb, ra = ('f', eb[2], 'ind'), ('f', ea[2], 'ind')
                ctx.check(fa.holds('==', rb, ea[1]) is True or fa.holds('==', rb, ra) is True, 'combine', w, '%s (%s): columns are combined although the entry of column %s need not lie in the pivot row' % (k0, where, show(eb[1])), k0)
        if ea[0] == 'nz':
            ctx.check(got in ((g, 0), (neg(g), 0)), 'combine', w, '%s (%s): the two entries become (%s, %s) instead of (g, 0)' % (k0, where, show(got[0]), show(got[1])), k0)
        else:
            ctx.bad('combine', w, '%s (%s): only %s is applied to the two diagonal entries' % (k0, where, nm), k0)
        if nm == 'mix_rows' and col is not None:
            # other columns are untouched only if the pivot divides and no row was mixed before
            div = fa.holds('==', a, ('f', unld(list(alg.calls)[k - 1]), 'get2')) is True
            fx = unld(list(alg.calls)[k - 1])
            div = div or fa.holds('==', ('f', fx, 'second'), 0) is True and fa.holds('==', ('f', fx, 'get3'), 1) is True
            ctx.check(div, 'combine', w, '%s (%s): rows are mixed in one column only although the pivot need not divide the entry' % (k0, where), k0)
            mixed = fullmix_flag(outer, p, S)
            if mixed is not None:
                ctx.check(mixed, 'combine', w, '%s (%s): rows are mixed in one column only although an earlier mix of this sweep may have refilled the pivot row' % (k0, where), k0)
    elif len(ms) == 2:
        G = [E for (e, nm, col), E in zip(ms, Es) if nm == 'mix_cols']
        H = [E for (e, nm, col), E in zip(ms, Es) if nm == 'mix_rows']
        idx = {tuple(map(unld, e.args[:2])) for e, nm, col in ms}
        if len(G) != 1 or len(H) != 1:
            rec(ctx, "Smith operations")
            return
        ctx.check(len(idx) == 1 and all(col is None for _, _, col in ms), 'diagonal', w, '%s (%s): row and column operation act on different pairs' % (k0, where), k0)
        if ea[0] == 'at' and eb[0] == 'at':
            ij = next(iter(idx))
            ctx.check(ea[1:] == (ij[0], ij[0]) and eb[1:] == (ij[1], ij[1]), 'diagonal', w, '%s (%s): entries %s and %s are combined by operations on (%s, %s)' % (k0, where, show(a), show(b), show(ij[0]), show(ij[1])), k0)
        P = mat2(mat2(H[0], ((mul(ww, g), 0), (0, mul(z, g)))), G[0])
        P = tuple(tuple(alg.red(x_) for x_ in r) for r in P)
        wzg = mul(mul(ww, z), g)
        ctx.check(P[0][0] in (g, neg(g)) and P[0][1] == 0 and P[1][0] == 0 and P[1][1] in (wzg, neg(wzg)), 'diagonal', w,
                  '%s (%s): diag(a, b) becomes %s instead of diag(gcd, lcm)' % (k0, where, [[show(x_) for x_ in r] for r in P]), k0)


def fullmix_flag(outer, p, S):
    """on this path no row of S was mixed in all columns earlier in the loop: True / False / None.
    The loop keeps a flag that full mixes set; the path must know it to be unset."""
    L = None
    for o in outer:
        if isinstance(o, Loop) and any(q is p for q in o.paths):
            L = o
    if L is None:
        return None
    full = [q for q in L.paths if q.exit in NOT and any(isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'mix_rows' and holder(e.obj) == (S, None) for e in q.trace)]
    if not full:
        return True
    for d, (nm, sy) in L.syms.items():
        if all(q.env.get(d) in (1, True) for q in full) and L.start.get(d) in (0, False):
            fa = {}
            for it in p.trace:
                if isinstance(it, Cond):
                    fa[unld(it.t)] = it.pol
            if fa.get(('truth', sy)) is False or Facts(p.trace).holds('==', sy, 0) is True:
                return True
    return False


def ranges(ctx, paths, S, A, dim, w, k0):
    n = ('f', A, 'n')
    loops = [(L, p, c) for L, p, c in loops_of(paths)]
    top = {id(it): it for p in paths for it in p.trace if isinstance(it, Loop)}
    seen = set()
    rank = None
    tops = []
    for p in paths[:1]:
        tops = [it for it in p.trace if isinstance(it, Loop)]
    if len(tops) != 2:
        rec(ctx, "Smith loops")
        return
    main, fin = tops
    # rank: counted once for every column that receives a pivot
    rk = None
    ft = trip(fin)
    for d, (nm, sy) in main.syms.items():
        if ft is not None and unld(ft[2]) == sy:
            rk = (d, sy)
    if rk is None:
        # a bound derived from the counter by a constant
        for d, (nm, sy) in main.syms.items():
            if ft is not None and is_num(sub(unld(ft[2]), sy)):
                ctx.bad('loops', w, '%s: the divisibility pass covers %s of the diagonal entries' % (k0, show(ft[2])), k0)
        rec(ctx, "Smith loops")
    else:
        ctx.check(unld(main.start.get(rk[0])) == 0, 'loops', w, '%s: the rank is counted from %s' % (k0, show(main.start.get(rk[0]))), k0)
        for q in main.paths:
            work = any(isinstance(e, Loop) and any(isinstance(x, Ev) and x.k == 'call' and short(x.name) in ('mix_rows', 'mix_cols') for r in e.paths for x in flat(r)) for e in q.trace)
            d = sub(q.env[rk[0]], rk[1])
            ctx.check(d == (1 if work else 0), 'loops', w, '%s: the rank changes by %s on a path that %s [%s]' % (k0, show(d), 'eliminates with a pivot' if work else 'finds no pivot', q.exit), k0)
            ctx.check(work == (q.exit in NOT), 'loops', w, '%s: column sweep ends with exit %s on a path that %s' % (k0, q.exit, 'eliminates with a pivot' if work else 'finds no pivot'), k0)

    def check(L, lo, hi, what, wider):
        t = trip(L)
        if t is None or t[3] != 1:
            rec(ctx, "Smith loops")
            return None
        ctx.count("Smith loops")
        for q in L.exit:
            fa = Facts(q.trace)
            used = {x for c in conds(q) for x in subterms(unld(c.t)) if isinstance(x, tuple) and x and x[0] in ('sym', 'v', 'app')}
            if used <= {t[0]} | {x for e in (t[1], t[2]) for x in subterms(unld(e)) if isinstance(x, tuple)}:
                ctx.check(fa.holds('<', t[0], t[2]) is not True, 'loops', w, '%s: %s may stop before %s [%s]' % (k0, what, show(t[2]), showconds(q)), k0)
        d0, d1 = sub(dim(t[1]), lo), sub(dim(t[2]), hi)
        ctx.check(not is_num(d0) or d0 == 0 or wider and d0 < 0, 'loops', w, '%s: %s starts at %s instead of %s' % (k0, what, show(t[1]), show(lo)), k0)
        ctx.check(not is_num(d1) or d1 == 0, 'loops', w, '%s: %s ends at %s instead of %s' % (k0, what, show(t[2]), show(hi)), k0)
        if hi == n and dim(t[2]) in (('f', A, 'm'),):
            ctx.bad('loops', w, '%s: %s runs over the number of rows' % (k0, what), k0)
        return t[0]
    j = check(main, 0, n, 'the column sweep', False)
    if j is not None:
        for L, p, c in loops_of(main.paths):
            if L.kind == 'rfor' or id(L) in seen:
                continue
            t = trip(L)
            if t is None:
                continue
            sw = any(isinstance(e, Ev) and e.k == 'call' and short(e.name) in ('swap_cols', 'mix_cols') for q in L.paths for e in q.trace)
            if sw:
                check(L, add(j, 1), n, 'the loop over later columns', False)
        # the pivot is brought to the diagonal: rows swapped unless it is there
        for q in main.paths:
            if q.exit not in NOT:
                continue
            piv = ('f', ('ix', ('f', ('ix', ('f', S, 'col'), j), 'indval'), 0), 'ind')
            eq = None
            fa = Facts()
            for it in q.trace:
                if isinstance(it, Loop) and any(isinstance(e, Ev) and e.k == 'call' and short(e.name).startswith('mix') for r in it.paths for e in flat(r)):
                    break
                fa.add(it)
                if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'swap_rows' and unld(it.obj) == S:
                    if {unld(it.args[0]), unld(it.args[1])} == {j, piv}:
                        eq = True
                    else:
                        eq = False
                        ctx.bad('pivot', w, '%s: rows %s and %s are swapped to place the pivot of column %s' % (k0, show(it.args[0]), show(it.args[1]), show(j)), k0)
            if eq is None:
                ctx.check(fa.holds('==', piv, j) is True, 'pivot', w, '%s: eliminates with a pivot that need not be on the diagonal [%s]' % (k0, showconds(q)), k0)
        # the row loop looks at the last entry until only the pivot is left
        for L, p, c in loops_of(main.paths):
            ev = [e for q in L.paths for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'mix_rows' and holder(e.obj)[0] == S]
            if not ev or any(isinstance(x, Loop) for q in L.paths for x in q.trace):
                continue
            C = ('f', ('ix', ('f', S, 'col'), j), 'indval')
            lastpos = sub(size_of(C), 1)
            for d, (nm, sy) in L.syms.items():
                s0 = L.start.get(d)
                if isinstance(s0, tuple) and s0 and s0[0] == 'it' and unld(s0[1]) == C:
                    ctx.check(unld(s0[2]) == lastpos, 'loops', w, '%s: the row loop starts at entry %s' % (k0, show(s0[2])), k0)
                    for q in L.paths:
                        if q.exit in NOT:
                            v = q.env.get(d)
                            if isinstance(v, tuple) and v and v[0] == 'it':
                                ctx.check(unld(v[2]) == lastpos, 'loops', w, '%s: after an elimination the row loop looks at entry %s instead of the last one' % (k0, show(v[2])), k0)
                    for q in L.exit:
                        ctx.check(Facts(q.trace).holds('==', sy, 0) is True, 'loops', w, '%s: the row loop is left although the column may have more entries [%s]' % (k0, showconds(q)), k0)
            # a sweep that mixed rows in all columns is repeated
            full = [q for q in L.paths if q.exit in NOT and any(isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'mix_rows' and holder(e.obj) == (S, None) for e in q.trace)]
            if full and c:
                O = c[-1]
                flags = [d for d, (nm, sy) in L.syms.items() if d in O.syms]
                if len(flags) == 1:
                    d = flags[0]
                    for q in full:
                        ctx.check(q.env.get(d) in (1, True), 'loops', w, '%s: rows are mixed in all columns without asking for another sweep' % k0, k0)
                    for q in L.paths:
                        if q.exit in NOT and q not in full:
                            ctx.check(q.env.get(d) not in (0, False), 'loops', w, '%s: an elimination in one column cancels the request for another sweep' % k0, k0)
                    for q in O.exit:
                        fx = {unld(it.t): it.pol for it in q.trace if isinstance(it, Cond)}
                        r = fx.get(('truth', O.syms[d][1]))
                        if r is not None:
                            ctx.check(r is False, 'loops', w, '%s: the sweep ends exactly when another one was asked for' % k0, k0)
                else:
                    rec(ctx, "Smith loops")
    if rk is not None:
        j = check(fin, 0, rk[1], 'the divisibility pass', False)
        inner = [L for q in fin.paths for L in q.trace if isinstance(L, Loop)]
        if j is not None:
            for L in inner:
                check(L, add(j, 1), rk[1], 'the divisibility pass over later entries', False)
                for q in L.paths:
                    if q.exit in NOT and not any(isinstance(e, Ev) and e.k == 'call' and short(e.name).startswith('mix') for e in q.trace):
                        eu = [e for e in q.trace if isinstance(e, Ev) and short(e.name) == 'extended_euclidean']
                        fa = Facts(q.trace)
                        ok = any(fa.holds('==', e.args[0], ('f', unld(e.res), 'get2')) is True for e in eu) if eu else None
                        if ok is None:
                            t = [c for c in conds(q) if c.t[0] == 'cmp' and c.t[1] == '==' and any(isinstance(s, tuple) and s and s[0] == 'app' and s[1] in ('%', '/') for s in subterms(unld(c.t)))]
                            if t:
                                rec(ctx, "Smith loops")
                                continue
                            ok = not conds(q) or trip(L) is None
                        ctx.check(ok, 'loops', w, '%s: a later diagonal entry is passed over although the pivot need not divide it [%s]' % (k0, showconds(q)), k0)
        if not inner:
            rec(ctx, "Smith loops")


# ------------------------------------------------------------------------ polynomials
CLS = 'UnivariatePolynomial<double>'
CV = ('f', THIS, 'c')


def pm(u, name, nps=None):
    seen = set()
    for f in u.funcs:
        if f.dep or f.d.get('b') is None or short(f.name) != name or f.d.get('ct') is None or u.type(f.d['ct']) != CLS or f.d.get('imp') or f.d.get('dfd'):
            continue
        if not f.file.endswith('polynomial.hpp') or f.line in seen or nps is not None and len(f.d['ps']) != nps:
            continue
        seen.add(f.line)
        yield f


def polyops(ctx, u):
    got = set()

    def run(f, *keep):
        ctx.function(f)
        ctx.count("functions")
        got.add(short(f.name))
        return Engine(u, vocab=lambda n, x: short(n) in keep, maxpaths=20000).run(f)
    # leading zeros are removed
    for f in pm(u, 'clear_zeros'):
        w, k0 = f.loc(), 'clear_zeros'
        for p in run(f):
            pops = [e for e in p.trace if isinstance(e, Ev) and e.k == 'call']
            if not any(isinstance(it, Loop) for it in p.trace) and all(short(e.name) == 'pop_back' for e in pops):
                fa = Facts(p.trace)
                ok = not pops and (fa.empty(CV) is True or fa.holds('==', ('ix', CV, sub(size_of(CV), 1)), 0) is False)
                ctx.check(ok, 'leading', w, '%s: stops although the leading coefficient may be zero [%s]' % (k0, showconds(p)), k0)
            for it in p.trace:
                if isinstance(it, Loop):
                    for q in it.paths:
                        fa = Facts(q.trace)
                        n = size_of(CV)
                        pops = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'pop_back']
                        back = [fa.holds('==', ('ix', CV, i), 0) for i in (sub(n, 1),)]
                        if pops:
                            ctx.check(len(pops) == 1 and back == [True] and fa.empty(CV) is False, 'leading', w, '%s: removes a coefficient that need not be a leading zero [%s]' % (k0, showconds(q)), k0)
                if isinstance(it, Leave) and any(isinstance(e, Ev) and short(e.name) == 'pop_back' for q in it.loop.paths for e in q.trace):
                    fa = Facts(it.path.trace)
                    ctx.check(fa.empty(CV) is True or fa.holds('==', ('ix', CV, sub(size_of(CV), 1)), 0) is False, 'leading', w, '%s: stops although the leading coefficient may be zero [%s]' % (k0, showconds(it.path)), k0)
    hasclear = 'clear_zeros' in got
    ctors = [f for f in u.funcs if f.d.get('ctor') and not f.dep and f.d.get('b') is not None and f.d.get('ct') is not None and u.type(f.d['ct']) == CLS and f.file.endswith('polynomial.hpp') and len(f.d['ps']) >= 1
             and 'UnivariatePolynomial' not in u.type(f.d['ps'][0]['t'])]
    for f in ctors:
        w, k0 = f.loc(), 'constructor from %s' % u.type(f.d['ps'][0]['t'])[:30]
        for p in run(f, 'clear_zeros'):
            ok = any(isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'clear_zeros' for e in p.trace)
            if ok or any(isinstance(e, Loop) for e in p.trace):
                ctx.count("normalised results")
            else:
                x = par(f, 0, u)
                fa = Facts(p.trace)
                nz = fa.holds('==', x, 0) is False
                em = not any(isinstance(e, Ev) and e.k == 'set' and unld(e.obj) == CV and 'list' in show(e.args[0]) for e in p.trace) and fa.holds('==', x, 0) is True
                ctx.check(nz or em or fa.empty(x) is True, 'leading', w, '%s: the coefficients are stored without removing leading zeros' % k0, k0)
    # sums and differences
    for nm, sgn, inpl in (('operator+', 1, False), ('operator-', -1, False), ('operator+=', 1, True), ('operator-=', -1, True)):
        for f in pm(u, nm, 1):
            addsub(ctx, u, f, run(f, 'clear_zeros'), nm, sgn, inpl)
    for f in pm(u, 'operator-', 0):
        negation(ctx, u, f, run(f, 'clear_zeros'))
    for f in pm(u, 'operator*', 1):
        product(ctx, u, f, run(f, 'clear_zeros'))
    for f in pm(u, 'divrem', 1):
        divrem(ctx, u, f, run(f, 'clear_zeros', 'monomial', 'operator+=', 'operator-=', 'operator*', 'operator+', 'operator-'))
    for nm, fl in (('operator/', 'first'), ('remainder', 'second')):
        for f in pm(u, nm, 1):
            w = f.loc()
            for p in run(f, 'divrem'):
                v = unld(p.val)
                if isinstance(v, tuple) and v[0] == 'f' and isinstance(v[1], tuple) and v[1][0] == 'app' and short(v[1][1]) == 'divrem':
                    ctx.check(v[2] == fl and tuple(v[1][2]) == (THIS, par(f, 0, u)), 'division', w, '%s: returns %s' % (nm, show(v)), nm)
                else:
                    rec(ctx, "polynomial results")
    for f in pm(u, 'monomial'):
        w, k0 = f.loc(), 'monomial'
        d, s = par(f, 0, u), par(f, 1, u)
        for p in run(f, 'clear_zeros'):
            sets = [e for e in p.trace if isinstance(e, Ev) and e.k == 'set' and isinstance(unld(e.obj), tuple) and unld(e.obj)[0] == 'ix']
            for e in sets:
                ctx.check(unld(e.obj)[2] == d and unld(e.args[0]) == s, 'monomial', w, '%s: coefficient %s is set to %s' % (k0, show(unld(e.obj)[2]), show(e.args[0])), k0)
            for e in p.trace:
                if isinstance(e, Ev) and e.k == 'set' and e.name == 'init' and isinstance(unld(e.args[0]), tuple) and unld(e.args[0])[0] == 'app' and 'vector' in str(unld(e.args[0])[1]) and len(unld(e.args[0])[2]) >= 2:
                    sz, z = unld(e.args[0])[2][:2]
                    dd = sub(sz, add(d, 1))
                    ctx.check((not is_num(dd) or dd == 0) and (not is_num(z) or z == 0), 'monomial', w, '%s: starts from %s coefficients %s' % (k0, show(sz), show(z)), k0)
    for f in pm(u, 'operator()', 1):
        evaluation(ctx, u, f, run(f))
    for f in pm(u, 'operator==', 1):
        if 'UnivariatePolynomial' in u.type(f.d['ps'][0]['t']):
            equality(ctx, u, f, run(f))
    for f in pm(u, 'gcd', 1):
        gcd(ctx, u, f, run(f, 'remainder'))
    for nm, t in (('leading_coeff', ('ix', CV, sub(size_of(CV), 1))), ('dim', sub(size_of(CV), 1)), ('degree', sub(size_of(CV), 1)), ('size', size_of(CV))):
        for f in pm(u, nm, 0):
            for p in run(f):
                v = unld(p.val)
                if nm == 'leading_coeff':
                    ok = v == t or not (isinstance(v, tuple) and v[0] == 'ix')
                else:
                    ok = v == t or not is_num(sub(v, t))
                ctx.check(ok, 'degree', f.loc(), '%s: returns %s' % (nm, show(v)), nm)
    for f in pm(u, 'is_monic', 0):
        for p in run(f):
            lead = ('ix', CV, sub(size_of(CV), 1))
            h = Facts(p.trace).holds('==', lead, 1)
            v = p.val
            if h is not None and v in (0, 1, True, False):
                ctx.check(bool(v) == h, 'degree', f.loc(), 'is_monic: returns %s when the leading coefficient is %s1' % (v, '' if h else 'not '), 'is_monic')
    for f in pm(u, 'companion_matrix', 0):
        companion(ctx, u, f, run(f))
    for n in ('operator+', 'operator*', 'divrem', 'operator-=', 'gcd', 'companion_matrix'):
        ctx.need(n in got, 'anchor vanished: UnivariatePolynomial::%s' % n)


def addsub(ctx, u, f, paths, nm, sgn, inpl):
    w, k0 = f.loc(), nm
    B = ('f', par(f, 0, u), 'c')
    if not any(M(L, CV, B).ca or M(L, CV, B).cb for L, p, c in loops_of(paths)):
        rec(ctx, "polynomial operations")
        return
    done = set()
    for p in paths:
        posa = posb = 0
        da_ = db_ = False
        out = CV if inpl else None
        for it in p.trace:
            if isinstance(it, Loop):
                m = M(it, CV, B)
                if not m.ca and not m.cb:
                    rec(ctx, "polynomial operations")
                    return
                for c, pos, what in ((m.ca, posa, 'first'), (m.cb, posb, 'second')):
                    if c and it.id not in done:
                        ctx.check(unld(c[2]) == unld(pos), 'sum', w, '%s: the %s polynomial is read from coefficient %s instead of %s' % (k0, what, show(c[2]), show(pos)), k0)
                if m.ca:
                    posa = m.ca[1]
                if m.cb:
                    posb = m.cb[1]
                if it.id in done:
                    continue
                done.add(it.id)
                for q in it.paths:
                    if q.exit not in NOT:
                        continue
                    fa = Facts(q.trace)
                    ina, inb = m.inrange(fa, m.ca, CV), m.inrange(fa, m.cb, B)
                    va = ('ix', CV, m.ca[1]) if m.ca and ina else 0
                    vb = ('ix', B, m.cb[1]) if m.cb and inb else 0
                    want = add(va, mul(sgn, vb))
                    es = pushes(q)
                    sets = [e for e in q.trace if isinstance(e, Ev) and e.k == 'set' and isinstance(unld(e.obj), tuple) and unld(e.obj)[0] == 'ix']
                    vals = [unld(e.args[-1]) for e in es] + [unld(e.args[0]) for e in sets]
                    ctx.count("polynomial coefficients")
                    if not vals and inpl and vb == 0:
                        continue
                    ctx.check(vals == [want], 'sum', w, '%s: stores %s instead of %s' % (k0, [show(v) for v in vals], show(want)), k0)
                    for e in sets:
                        o = unld(e.obj)
                        if m.ca and o[1] == CV:
                            ctx.check(o[2] == m.ca[1], 'sum', w, '%s: the sum is stored at coefficient %s' % (k0, show(o[2])), k0)
                    for c, i in ((m.ca, ina), (m.cb, inb)):
                        if c and i:
                            ctx.check(m.step(q, c) == 1, 'sum', w, '%s: a coefficient index advances by %s' % (k0, show(m.step(q, c))), k0)
            elif isinstance(it, Leave):
                m = M(it.loop, CV, B)
                fa = Facts(it.path.trace)
                if m.ca and m.inrange(fa, m.ca, CV) is False:
                    da_ = True
                if m.cb and m.inrange(fa, m.cb, B) is False:
                    db_ = True
        if p.exit == 'ret' and any(isinstance(it, Loop) for it in p.trace):
            ctx.check(db_ and (da_ or inpl), 'sum', w, '%s: stops before the %s polynomial is exhausted' % (k0, 'second' if not db_ else 'first'), k0)
            norm_result(ctx, p, inpl, w, k0)


def norm_result(ctx, p, inpl, w, k0):
    ok = any(isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'clear_zeros' for e in p.trace)
    if inpl:
        seen = False
        for it in p.trace:
            if isinstance(it, Loop):
                seen = False
            if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'clear_zeros':
                seen = True
        pops = any(isinstance(e, Ev) and short(e.name) == 'pop_back' for it in p.trace if isinstance(it, Loop) for q in it.paths for e in q.trace)
        ctx.check(seen or pops, 'leading', w, '%s: the result may keep leading zeros' % k0, k0)
    else:
        ctx.count("normalised results")


def full(ctx, L, t, hi, w, k0, what, rule):
    """the index t takes every value below hi in the loop"""
    v = visits(L, t)
    if v is None:
        rec(ctx, "polynomial loops")
        return False
    d0, d1 = sub(v[0], 0), sub(unld(v[1]), hi)
    bad = is_num(d0) and d0 != 0 or is_num(d1) and d1 != 0
    ctx.check(not bad, rule, w, '%s: %s runs over [%s, %s) instead of [0, %s)' % (k0, what, show(v[0]), show(v[1]), show(hi)), k0)
    return not bad and d0 == 0 and d1 == 0


def negation(ctx, u, f, paths):
    w, k0 = f.loc(), 'negation'
    for L, p, c in loops_of(paths):
        for q in L.paths:
            for e in q.trace:
                if isinstance(e, Ev) and e.k == 'set' and isinstance(unld(e.obj), tuple) and unld(e.obj)[0] == 'ix':
                    i = unld(e.obj)[2]
                    X = unld(e.obj)[1]
                    ctx.count("polynomial coefficients")
                    ctx.check(unld(e.args[0]) in (neg(('ix', CV, i)), neg(('ix', X, i))), 'negate', w, '%s: coefficient %s becomes %s' % (k0, show(i), show(e.args[0])), k0)
                    full(ctx, L, i, size_of(CV), w, k0, 'the loop', 'negate')
                elif isinstance(e, Ev) and e in pushes(q):
                    v = unld(e.args[-1])
                    x = neg(v)
                    if isinstance(x, tuple) and x[0] == 'ix' and x[1] == CV:
                        full(ctx, L, x[2], size_of(CV), w, k0, 'the loop', 'negate')
                    elif isinstance(v, tuple) and v[0] == 'ix' and v[1] == CV:
                        ctx.bad('negate', w, '%s: coefficients are copied with their sign' % k0, k0)


def product(ctx, u, f, paths):
    w, k0 = f.loc(), 'operator*'
    B = ('f', par(f, 0, u), 'c')
    any_ = False
    for p in paths:
        loops = [it for it in p.trace if isinstance(it, Loop)]
        fa = Facts([it for it in p.trace if isinstance(it, Cond)])
        if not loops:
            ctx.check(fa.empty(CV) is True or fa.empty(B) is True, 'product', w, '%s: returns %s without multiplying although both factors may be nonzero [%s]' % (k0, show(p.val), showconds(p)), k0)
            continue
        acc = None
        for e in p.trace:
            if isinstance(e, Ev) and e.k == 'set' and e.name == 'init' and isinstance(unld(e.args[0]), tuple) and unld(e.args[0])[0] == 'app' and 'vector' in str(unld(e.args[0])[1]):
                a = unld(e.args[0])[2]
                acc = unld(e.obj)
                dd = sub(a[0], sub(add(size_of(CV), size_of(B)), 1)) if a else None
                if is_num(dd):
                    ctx.check(dd >= 0, 'product', w, '%s: the product has room for %s coefficients' % (k0, show(a[0])), k0)
                    if dd == 0 and fa.empty(CV) is not False and fa.empty(B) is not False:
                        ctx.bad('product', w, '%s: the number of coefficients wraps around when both factors are zero' % k0, k0)
                if len(a) >= 2 and is_num(a[1]):
                    ctx.check(a[1] == 0, 'product', w, '%s: coefficients start at %s' % (k0, show(a[1])), k0)
        for L, q, c in loops_of([p]):
            for r in L.paths:
                for e in r.trace:
                    if isinstance(e, Ev) and e.k == 'set' and isinstance(unld(e.obj), tuple) and unld(e.obj)[0] == 'ix' and unld(e.obj)[1] == acc:
                        any_ = True
                        ctx.count("polynomial coefficients")
                        inc = unld(sub(e.args[0], e.obj))
                        k = unld(e.obj)[2]
                        if not any(x == unld(e.obj) for x in subterms(unld(e.args[0]))) and all(x[0] == 'ix' for m in poly(unld(e.args[0])) for x in m) and len(list(c)) >= 1:
                            ctx.bad('product', w, '%s: a product replaces the sum in coefficient %s' % (k0, show(k)), k0)
                            continue
                        fac = [m for m in poly(inc)]
                        if len(fac) == 1 and len(fac[0]) == 2 and poly(inc)[fac[0]] == 1 and all(x[0] == 'ix' for x in fac[0]):
                            xs = {x[1]: x[2] for x in fac[0]}
                            if set(xs) == {CV, B}:
                                ctx.check(sub(add(xs[CV], xs[B]), k) == 0, 'product', w, '%s: c[%s]*other[%s] is added to coefficient %s' % (k0, show(xs[CV]), show(xs[B]), show(k)), k0)
                                for LL in (list(c) + [L]):
                                    for X in (CV, B):
                                        if visits(LL, xs[X]) is not None and trip(LL) is not None and any(s == trip(LL)[0] for s in subterms(xs[X])):
                                            full(ctx, LL, xs[X], size_of(X), w, k0, 'a factor', 'product')
                                            lo = unld(visits(LL, xs[X])[0])
                                            ctx.check(not (isinstance(lo, tuple) and lo[0] == 'sym'), 'product', w, '%s: a factor starts at coefficient %s' % (k0, show(lo)), k0)
                                continue
                            if len(xs) == 1:
                                ctx.bad('product', w, '%s: a factor is multiplied by itself' % k0, k0)
                                continue
                        if all(x[0] == 'ix' for m in fac for x in m) and len(fac) == 1:
                            ctx.bad('product', w, '%s: coefficient %s grows by %s' % (k0, show(k), show(inc)), k0)
                        else:
                            rec(ctx, "polynomial operations")
    if not any_:
        rec(ctx, "polynomial operations")


def divrem(ctx, u, f, paths):
    w, k0 = f.loc(), 'divrem'
    other = par(f, 0, u)
    for p in paths:
        loops = [it for it in p.trace if isinstance(it, Loop)]
        if len(loops) != 1:
            rec(ctx, "polynomial division")
            continue
        L = loops[0]
        start = {}
        for e in p.trace:
            if e is L:
                break
            if isinstance(e, Ev) and e.k == 'set' and e.name == 'init':
                start[unld(e.obj)] = unld(e.args[0])
        rem = [o for o, v in start.items() if v == THIS]
        quo = [o for o, v in start.items() if isinstance(v, tuple) and v[0] == 'app' and 'UnivariatePolynomial' in str(v[1])]
        if len(rem) != 1 or len(quo) != 1:
            rec(ctx, "polynomial division")
            continue
        rem, quo = rem[0], quo[0]
        ctx.count("polynomial division")
        ctx.check(start[quo][2] in ((), (0,)), 'division', w, '%s: the quotient starts as %s' % (k0, show(start[quo])), k0)
        rc, oc = ('f', rem, 'c'), ('f', other, 'c')
        lead = lambda X: ('ix', X, sub(size_of(X), 1))
        mono = ('app', 'UnivariatePolynomial::monomial', (sub(size_of(rc), size_of(oc)), mul(lead(rc), inv(lead(oc)))), 0)
        for q in L.paths:
            if q.exit not in NOT:
                continue
            fa = Facts(q.trace)
            ctx.check(fa.holds('<', size_of(rc), size_of(oc)) is False, 'division', w, '%s: divides although the remainder may already have smaller degree [%s]' % (k0, showconds(q)), k0)
            muts = [e for e in q.trace if isinstance(e, Ev) and e.k == 'call' and e.obj is not None and unld(e.obj) in (rem, quo)]
            up = {}
            for e in muts:
                n = short(e.name)
                if n in ('operator+=', 'operator-=') and len(e.args) == 1:
                    up.setdefault(unld(e.obj), []).append((1 if n == 'operator+=' else -1, unld(e.args[0])))
                else:
                    up = None
                    break
            if up is None or any(isinstance(e, Ev) and e.k == 'set' and unld(e.obj) in (rem, quo) for e in q.trace):
                rec(ctx, "polynomial division")
                continue
            if not ctx.check(len(up.get(quo, ())) == 1 and len(up.get(rem, ())) == 1, 'division', w, '%s: a round changes the quotient %d and the remainder %d times' % (k0, len(up.get(quo, ())), len(up.get(rem, ()))), k0):
                continue
            (s1, m1), (s2, m2) = up[quo][0], up[rem][0]
            prod = isinstance(m2, tuple) and m2[0] == 'app' and short(m2[1]) == 'operator*' and len(m2[2]) == 2
            if not prod:
                rec(ctx, "polynomial division")
                continue
            ctx.check(set(m2[2]) == {m1, other} and s1 == -s2, 'division', w, '%s: %s is %s the quotient but %s %s the remainder, so quotient*divisor + remainder changes' % (
                k0, show(m1), 'added to' if s1 > 0 else 'subtracted from', show(m2), 'added to' if s2 > 0 else 'subtracted from'), k0)
            if isinstance(m1, tuple) and m1[0] == 'app' and short(m1[1]) == 'monomial' and len(m1[2]) == 2:
                dg = sub(m1[2][0], mono[2][0])
                ctx.check(dg == 0 or not is_num(dg), 'division', w, '%s: the quotient term has degree %s' % (k0, show(m1[2][0])), k0)
                co = mul(s1, m1[2][1])
                if all(any(x == t for t in (lead(rc), lead(oc), inv(lead(oc)), inv(lead(rc)))) or (isinstance(x, tuple) and x[0] == 'inv') for m in poly(co) for x in m):
                    ctx.check(co == mono[2][1], 'division', w, '%s: the quotient term has coefficient %s, so the leading term does not cancel' % (k0, show(co)), k0)
                else:
                    rec(ctx, "polynomial division")
            else:
                rec(ctx, "polynomial division")
        for q in L.exit:
            ctx.check(Facts(q.trace).holds('<', size_of(rc), size_of(oc)) is True, 'division', w, '%s: stops although the remainder may have the degree of the divisor [%s]' % (k0, showconds(q)), k0)
        vs = [x for x in order(p.val) if x in (rem, quo)]
        if len(vs) == 2:
            ctx.check(vs == [quo, rem], 'division', w, '%s: returns remainder and quotient in this order' % k0, k0)
        else:
            rec(ctx, "polynomial division")


def order(t):
    """variables inside a term, outermost order"""
    out = []

    def go(x):
        if isinstance(x, tuple) and x:
            if x[0] == 'v':
                out.append(x)
                return
            for y in x if isinstance(x[0], tuple) else x[1:]:
                go(y)
    go(unld(t))
    return out


def evaluation(ctx, u, f, paths):
    """sum of c[k] v^k: the power used with c[k] is followed through the loop"""
    w, k0 = f.loc(), 'operator()'
    v = par(f, 0, u)
    if 'Matrix' in u.type(f.d['ps'][0]['t']):
        return
    for p in paths:
        loops = [it for it in p.trace if isinstance(it, Loop)]
        fa = Facts([it for it in p.trace if isinstance(it, Cond)])
        if not loops:
            if p.val == 0:
                ctx.check(fa.empty(CV) is True, 'evaluate', w, '%s: returns 0 although the polynomial may be nonzero' % k0, k0)
            continue
        if len(loops) != 1:
            rec(ctx, "polynomial evaluation")
            continue
        L = loops[0]
        nx = [q for q in L.paths if q.exit in NOT]
        acc = [(d, sy) for d, (nm, sy) in L.syms.items() if sy == unld(p.val)]
        if len(nx) != 1 or len(acc) != 1 or trip(L) is None:
            rec(ctx, "polynomial evaluation")
            continue
        q = nx[0]
        d, sy = acc[0]
        tr = trip(L)
        inc = unld(sub(q.env[d], sy))
        # power variables: start 1, factor v
        pw = {s: unld(L.start[dd]) for dd, (nm, s) in L.syms.items() if unld(q.env.get(dd)) == mul(s, v) and L.start.get(dd) is not None}
        m = [(mm, c) for mm, c in poly(inc).items()]
        if len(m) != 1 or m[0][1] != 1:
            rec(ctx, "polynomial evaluation")
            continue
        cf = [x for x in m[0][0] if isinstance(x, tuple) and x[0] == 'ix' and x[1] == CV]
        rest = list(m[0][0])
        if len(cf) != 1 or not pw:
            rec(ctx, "polynomial evaluation")
            continue
        rest.remove(cf[0])
        extra = sum(1 for x in rest if x == v)
        ps = [x for x in rest if x in pw]
        if len(ps) + extra != len(rest) or len(ps) != 1 or tr[3] != 1 or not is_num(tr[1]):
            rec(ctx, "polynomial evaluation")
            continue
        e0 = {1: 0, v: 1}.get(pw[ps[0]])
        k = coef(cf[0][2], tr[0])
        if e0 is None or k is None or k[0] != 1 or not is_num(k[1]):
            rec(ctx, "polynomial evaluation")
            continue
        ctx.count("polynomial evaluation")
        # at loop value i: power e0 + (i - lo) + extra, coefficient index i + k1
        dd = k[1] + tr[1] - (e0 + extra)
        ctx.check(dd == 0, 'evaluate', w, '%s: coefficient i is multiplied by v^(i%+d)' % (k0, -dd), k0)
        first = tr[1] + k[1]
        s0 = unld(L.start[d])
        want = 0
        for i in range(first):
            t = ('ix', CV, i)
            for _ in range(i):
                t = mul(t, v)
            want = add(want, t)
        ctx.check(s0 == want, 'evaluate', w, '%s: the sum starts at %s although the loop adds the terms from degree %d on' % (k0, show(s0), first), k0)
        hi = sub(add(tr[2], k[1]), size_of(CV))
        ctx.check(not is_num(hi) or hi == 0, 'evaluate', w, '%s: terms are added up to index %s' % (k0, show(add(tr[2], k[1]))), k0)


def matrix_evaluation(ctx, u):
    for f in pick(u, 'operator()', 'ColumnMatrix', 'SparseVector'):
        if not f.file.endswith('polynomial.hpp'):
            continue
        ctx.function(f)
        ctx.count("functions")
        w, k0 = f.loc(), 'operator()(A, v)'
        A, v = par(f, 0, u), par(f, 1, u)
        for p in Engine(u, vocab=lambda n, x: short(n) in ('axpy', 'operator*'), maxpaths=5000).run(f):
            loops = [it for it in p.trace if isinstance(it, Loop)]
            fa = Facts([it for it in p.trace if isinstance(it, Cond)])
            if not loops:
                ctx.check(fa.empty(CV) is True, 'evaluate', w, '%s: returns without adding although the polynomial may be nonzero [%s]' % (k0, showconds(p)), k0)
                continue
            if len(loops) != 1 or trip(loops[0]) is None or trip(loops[0])[3] != 1 or not is_num(trip(loops[0])[1]):
                rec(ctx, "polynomial evaluation")
                continue
            L = loops[0]
            k, lo, hi, _ = trip(L)
            out = unld(p.val)
            pre = [(unld(e.args[0]), unld(e.args[1])) for e in p.trace[:p.trace.index(L)] if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy' and unld(e.obj) == out]
            pvar = [unld(e.obj) for e in p.trace[:p.trace.index(L)] if isinstance(e, Ev) and e.k == 'set' and e.name == 'init' and unld(e.args[0]) == v]
            q = [q for q in L.paths if q.exit in NOT]
            if len(q) != 1 or len(pvar) != 1:
                rec(ctx, "polynomial evaluation")
                continue
            pv = pvar[0]
            e = 0           # applications of A within the round before the addition
            adds = []
            bad = False
            for it in q[0].trace:
                if isinstance(it, Ev) and it.k == 'set' and root(unld(it.obj)) == pv:
                    e += 1
                elif isinstance(it, Ev) and it.k == 'pure' and short(it.name) == 'operator*':
                    if unld(it.obj) != A or unld(it.args[0]) != pv:
                        bad = True
                elif isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'axpy' and unld(it.obj) == out:
                    adds.append((unld(it.args[0]), unld(it.args[1]), e))
            if bad or len(adds) != 1 or e != 1 or adds[0][1] != pv or not (isinstance(adds[0][0], tuple) and adds[0][0][0] == 'ix' and adds[0][0][1] == CV):
                if not bad and e == 1 and len(adds) == 1 and adds[0][1] == v:
                    ctx.bad('evaluate', w, '%s: every term uses v itself' % k0, k0)
                else:
                    rec(ctx, "polynomial evaluation")
                continue
            ctx.count("polynomial evaluation")
            kk = coef(adds[0][0][2], k)
            if kk is None or kk[0] != 1 or not is_num(kk[1]):
                rec(ctx, "polynomial evaluation")
                continue
            # coefficient index k + kk1 against power (k - lo) + applications before
            dd = lo + kk[1] - adds[0][2]
            ctx.check(dd == 0, 'evaluate', w, '%s: coefficient i is multiplied by A^(i%+d) v' % (k0, -dd), k0)
            ctx.check(pre == [(('ix', CV, i), v) for i in range(lo + kk[1])][:1] and lo + kk[1] <= 1, 'evaluate', w, '%s: terms below degree %d are %s' % (k0, lo + kk[1], [(show(a), show(b)) for a, b in pre]), k0)
            dh = sub(add(hi, kk[1]), size_of(CV))
            ctx.check(not is_num(dh) or dh == 0, 'evaluate', w, '%s: terms are added up to index %s' % (k0, show(hi)), k0)


def equality(ctx, u, f, paths):
    w, k0 = f.loc(), 'operator=='
    B = ('f', par(f, 0, u), 'c')
    for p in paths:
        fa = Facts([it for it in p.trace if isinstance(it, Cond)])
        sz = fa.holds('==', size_of(CV), size_of(B))
        loops = [it for it in p.trace if isinstance(it, Loop)]
        left = [it for it in p.trace if isinstance(it, Leave) and it.path.exit == 'ret']
        if p.val in (1, True) and not left:
            if loops:
                ctx.check(sz is True, 'compare', w, '%s: polynomials of different length are called equal' % k0, k0)
                for L in loops:
                    for q in L.paths:
                        if q.exit in NOT:
                            es = [c for c in conds(q) if c.t[0] == 'cmp' and c.t[1] == '==' and c.pol and {root_ix(c.t[2]), root_ix(c.t[3])} == {CV, B}]
                            if not es:
                                ctx.bad('compare', w, '%s: goes on without comparing the coefficients' % k0, k0)
                            else:
                                x, y = unld(es[0].t[2]), unld(es[0].t[3])
                                ctx.check(sub(x[2], y[2]) == 0, 'compare', w, '%s: compares coefficients %s and %s' % (k0, show(x[2]), show(y[2])), k0)
                                full(ctx, L, x[2], size_of(CV), w, k0, 'the comparison', 'compare')
        elif p.val in (0, False):
            if not left:
                ctx.check(sz is False or bool(loops), 'compare', w, '%s: equal polynomials may be called different [%s]' % (k0, showconds(p)), k0)
            else:
                lf = Facts(left[0].path.trace)
                df = [c for c in conds(left[0].path) if c.t[0] == 'cmp' and c.t[1] == '==' and {root_ix(c.t[2]), root_ix(c.t[3])} == {CV, B}]
                if df:
                    ctx.check(not df[-1].pol, 'compare', w, '%s: answers false on equal coefficients' % k0, k0)


def root_ix(t):
    t = unld(t)
    return t[1] if isinstance(t, tuple) and t and t[0] == 'ix' else None


def gcd(ctx, u, f, paths):
    """each round replaces (a, b) by (b, a mod b); the other one is returned when b is zero"""
    w, k0 = f.loc(), 'gcd'
    for p in paths:
        loops = [it for it in p.trace if isinstance(it, Loop)]
        if len(loops) != 1:
            rec(ctx, "polynomial gcd")
            continue
        L = loops[0]
        lv = [it for it in p.trace if isinstance(it, Leave)]
        ret = unld(p.val)
        cand = set()
        for c in conds(lv[0].path) if lv else ():
            for s in subterms(unld(c.t)):
                if isinstance(s, tuple) and s and s[0] == 'v':
                    cand.add(s)
        if len(cand) != 1 or not (isinstance(ret, tuple) and ret[0] == 'v'):
            rec(ctx, "polynomial gcd")
            continue
        b, a = cand.pop(), ret
        ctx.check(Facts(lv[0].path.trace).empty(('f', b, 'c')) is True, 'gcd', w, '%s: stops although the second polynomial may be nonzero' % k0, k0)
        if not ctx.check(a != b, 'gcd', w, '%s: returns the zero remainder' % k0, k0):
            continue
        for q in L.paths:
            if q.exit not in NOT:
                continue
            val = {a: 'A', b: 'B'}
            hist = {}           # value of a variable at the version an event reads
            ok = True
            # assignments are simulated over names; the rhs of a copy is read from the source
            for it in q.trace:
                if isinstance(it, Ev) and it.k == 'pure' and short(it.name) == 'remainder':
                    val['rem'] = ('mod', val.get(unld(it.obj)), val.get(unld(it.args[0])))
                elif isinstance(it, Ev) and it.k == 'set':
                    o = unld(it.obj)
                    o = o[1] if o[0] == 'f' and o[2] == 'c' else o
                    src = it.args[0]
                    x = unld(src)
                    x = x[1] if isinstance(x, tuple) and x[0] == 'f' and x[2] == 'c' else x
                    if isinstance(x, tuple) and x[0] == 'app' and short(str(x[1])) == 'remainder':
                        val[o] = val.get('rem')
                    elif x in val:
                        ver = next((s[2] for s in subterms(src) if isinstance(s, tuple) and s and s[0] == 'ld' and root(s) == x), None)
                        val[o] = val[x] if ver is None else hist.setdefault((x, ver), val[x])
                    else:
                        ok = False
            if not ok or val.get(a) is None or val.get(b) is None or '?' in (val[a], val[b]):
                rec(ctx, "polynomial gcd")
                continue
            ctx.count("polynomial gcd")
            ctx.check((val[a], val[b]) == ('B', ('mod', 'A', 'B')), 'gcd', w, '%s: a round replaces (A, B) by (%s, %s) instead of (B, A mod B)' % (k0, val[a], val[b]), k0)


def companion(ctx, u, f, paths):
    w, k0 = f.loc(), 'companion_matrix'
    n = sub(size_of(CV), 1)
    lead = ('ix', CV, n)
    some = False
    for p in paths:
        fa = Facts([it for it in p.trace if isinstance(it, Cond)])
        if p.exit == 'throw':
            ctx.check(fa.holds('==', lead, 1) is False, 'companion', w, '%s: refuses a monic polynomial [%s]' % (k0, showconds(p)), k0)
            continue
        m = fa.holds('==', lead, 1)
        ctx.check(m is True, 'companion', w, '%s: accepts a polynomial that need not be monic' % k0, k0)
        v = unld(p.val)
        if isinstance(v, tuple) and v[0] == 'app' and 'ColumnMatrix' in str(v[1]) and len(v[2]) >= 2:
            for x in v[2][:2]:
                d = sub(x, n)
                if fa.holds('==', n, 0) is True:
                    ctx.check(x in (0, n), 'companion', w, '%s: the matrix of a constant has size %s' % (k0, show(x)), k0)
                else:
                    ctx.check(not is_num(d) or d == 0, 'companion', w, '%s: the matrix has size %s instead of the degree' % (k0, show(x)), k0)
        loops = [it for it in p.trace if isinstance(it, Loop)]
        if not loops:
            continue
        vecs = {}
        for L in loops:
            for q in L.paths:
                for e in q.trace:
                    if not (isinstance(e, Ev) and e.k == 'set'):
                        continue
                    x = unld(e.args[0]) if e.args else None
                    if isinstance(x, tuple) and x[0] == 'app' and 'SparseVector' in str(x[1]) and len(x[2]) == 2:
                        ls = [y[1] for y in x[2] if isinstance(y, tuple) and y[0] == 'list']
                        if len(ls) == 2 and len(ls[0]) == 1 == len(ls[1]):
                            some = True
                            ctx.count("companion columns")
                            # the column it goes to
                            tgt = [t for t in q.trace if isinstance(t, Ev) and t.k == 'set' and col_ix(t.obj) is not None]
                            if len(tgt) == 1:
                                j = col_ix(tgt[0].obj)
                                ctx.check(sub(ls[0][0], j) == 1 and ls[1][0] == 1, 'companion', w, '%s: column %s has entry %s in row %s' % (k0, show(j), show(ls[1][0]), show(ls[0][0])), k0)
                                vv = visits(L, j)
                                if vv is not None:
                                    d0, d1 = vv[0], sub(vv[1], sub(n, 1))
                                    ctx.check(d0 == 0 and (not is_num(d1) or d1 == 0), 'companion', w, '%s: shift columns are [%s, %s)' % (k0, show(vv[0]), show(vv[1])), k0)
                    o = unld(e.obj)
                    if isinstance(o, tuple) and o[0] == 'ix' and isinstance(o[1], tuple) and o[1][0] == 'v':
                        vecs.setdefault(o[1], []).append((L, o[2], unld(e.args[0])))
        # last column
        for e in p.trace:
            if isinstance(e, Ev) and e.k == 'set' and e.args:
                x = unld(e.args[0])
                if isinstance(x, tuple) and x[0] == 'app' and 'SparseVector' in str(x[1]) and len(x[2]) == 2 and all(y in vecs for y in x[2]):
                    ii, vv = vecs[x[2][0]], vecs[x[2][1]]
                    if len(ii) == 1 == len(vv):
                        some = True
                        ctx.count("companion columns")
                        L, pos, val = ii[0]
                        ctx.check(val == pos, 'companion', w, '%s: entry %s of the last column is put into row %s' % (k0, show(pos), show(val)), k0)
                        full(ctx, L, pos, n, w, k0, 'the last column', 'companion')
                        L, pos, val = vv[0]
                        ctx.check(val == neg(('ix', CV, pos)), 'companion', w, '%s: row %s of the last column is %s' % (k0, show(pos), show(val)), k0)
                        full(ctx, L, pos, n, w, k0, 'the last column', 'companion')
            if isinstance(e, Ev) and e.k == 'set' and col_ix(e.obj) is not None:
                d = sub(col_ix(e.obj), sub(n, 1))
                ctx.check(not is_num(d) or d == 0, 'companion', w, '%s: the coefficients are put into column %s' % (k0, show(col_ix(e.obj))), k0)
    if not some:
        rec(ctx, "companion columns")


def col_ix(t):
    t = unld(t)
    while isinstance(t, tuple) and t and t[0] == 'f':
        t = t[1]
    if isinstance(t, tuple) and t and t[0] == 'ix' and isinstance(t[1], tuple) and t[1][0] == 'v':
        return t[2]
    return None


def characteristic(ctx, u):
    fs = list(pick(u, 'characteristic_matrix', 'ColumnMatrix'))
    ctx.need(fs, 'anchor vanished: characteristic_matrix')
    f = fs[0]
    ctx.function(f)
    ctx.count("functions")
    w, k0 = f.loc(), 'characteristic_matrix'
    A = par(f, 0, u)
    n, m = ('f', A, 'n'), ('f', A, 'm')
    paths = Engine(u, maxpaths=20000).run(f)
    for p in paths:
        fa = Facts([it for it in p.trace if isinstance(it, Cond)])
        if p.exit == 'throw':
            ctx.check(fa.holds('==', m, n) is False, 'characteristic', w, '%s: refuses a square matrix' % k0, k0)
            continue
        for L in [it for it in p.trace if isinstance(it, Loop)]:
            tr = trip(L)
            if tr is None:
                rec(ctx, "characteristic columns")
                continue
            j = tr[0]
            full(ctx, L, j, n, w, k0, 'the loop over columns', 'characteristic')
            C = ('f', ('ix', ('f', A, 'col'), j), 'indval')
            for q in L.paths:
                if q.exit not in NOT:
                    continue
                ctx.count("characteristic columns")
                charcol(ctx, q, C, j, w, k0)


def charcol(ctx, q, C, j, w, k0):
    """entries of column j of x I - A: one for every entry of A and one on the diagonal, in order"""
    diag_flag = None
    pos = 0
    cleared = set()
    for it in q.trace:
        if isinstance(it, Ev) and it.k == 'call' and short(it.name) == 'clear':
            cleared.add(unld(it.obj))
    outs = set()
    passed = False          # the diagonal is known to have been stored or its place reached
    found = None            # value of the flag, when the way the loop was left settles it
    cur = None
    for it in q.trace:
        if isinstance(it, Leave) and cur is not None and it.loop is cur[0]:
            _, d, sy = cur
            r = it.path
            x = idx_of(r.env.get(d))
            if x is None:
                rec(ctx, "characteristic columns")
                return
            pos = x
            fa = Facts(r.trace)
            e = ('ix', C, sy)
            ei = ('f', e, 'ind')
            end = fa.holds('==', sy, size_of(C)) is True or fa.holds('<', sy, size_of(C)) is False
            rl = rel(fa, ei, j)
            passed = passed or end or rl in (0, 1)
            store = lambda r: bool(pushes(r)) and rel(Facts(r.trace), ei, j) == 0
            if found is None and any(store(x) for x in it.loop.paths):
                if store(r):
                    found = True
                elif not any(store(x) for x in it.loop.paths if x.exit in ('n', 'c')):
                    found = False
                elif diag_flag is not None and diag_flag[0] in r.env:
                    v = r.env[diag_flag[0]]
                    found = True if v in (1, True) else False if v in (0, False) else None
            continue
        if isinstance(it, Loop):
            cs = [(d, sy, s0) for d, (nm, sy, s0, cc) in cursors(it).items() if cc == C]
            if len(cs) != 1:
                rec(ctx, "characteristic columns")
                return
            d, sy, s0 = cs[0]
            ctx.check(unld(s0) == unld(pos), 'characteristic', w, '%s: the column is read from entry %s' % (k0, show(s0)), k0)
            pos = sy
            e = ('ix', C, sy)
            ei, ev = ('f', e, 'ind'), ('f', e, 'val')
            flags = [dd for dd, (nm, s) in it.syms.items() if dd != d]
            for r in it.paths:
                es = pushes(r)
                outs |= {unld(x.obj) for x in es}
                ivs = [unld(x.args[-1]) for x in es]
                st = idx_of(r.env.get(d))
                st = sub(st, sy) if st is not None else None
                fa = Facts(r.trace)
                rl = rel(fa, ei, j)
                if rl is None and fa.holds('==', ei, j) is False:
                    rl = 1 if passed else None
                if rl is None and passed:
                    rl = 1
                inb = fa.holds('==', sy, size_of(C)) is False or fa.holds('<', sy, size_of(C)) is True
                ctx.check(inb or not es, 'characteristic', w, '%s: reads past the end of a column' % k0, k0)
                if not es:
                    ctx.check(st == 0 or r.exit not in ('n', 'c', 'b'), 'characteristic', w, '%s: skips an entry of the matrix [%s]' % (k0, showconds(r)), k0)
                    continue
                iv = [x for x in ivs if x == ei or x == j]
                vv = [x for x in ivs if isinstance(x, tuple) and x[0] == 'app' and 'UnivariatePolynomial' in str(x[1])]
                if len(ivs) != 2 or len(iv) != 1 or len(vv) != 1:
                    rec(ctx, "characteristic columns")
                    return
                ctx.check(st == 1, 'characteristic', w, '%s: the entry cursor advances by %s after storing an entry' % (k0, show(st)), k0)
                a = vv[0][2]
                a = list(a[0][1]) if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'list' else list(a)
                if rl is None:
                    ctx.bad('characteristic', w, '%s: stores an entry without knowing whether it is on the diagonal [%s]' % (k0, showconds(r)), k0)
                    continue
                want = [neg(ev), 1] if rl == 0 else [neg(ev)]
                ctx.check(a == want, 'characteristic', w, '%s: the entry in row i %s j becomes %s instead of %s' % (k0, {0: '=', -1: '<', 1: '>'}[rl], [show(x) for x in a], [show(x) for x in want]), k0)
                if rl == 0:
                    fl = [dd for dd in flags if r.env.get(dd) in (1, True) and it.start.get(dd) in (0, False)]
                    if fl:
                        diag_flag = (fl[0], it.syms[fl[0]][1])
                    elif flags:
                        ctx.bad('characteristic', w, '%s: the diagonal entry is stored without remembering it' % k0, k0)
            cur = (it, d, sy)
        elif isinstance(it, Ev) and it in pushes(q):
            v = unld(it.args[-1])
            outs.add(unld(it.obj))
            if isinstance(v, tuple) and v[0] == 'app' and 'UnivariatePolynomial' in str(v[1]):
                a = v[2]
                a = list(a[0][1]) if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'list' else list(a)
                ctx.check(a == [0, 1], 'characteristic', w, '%s: a missing diagonal entry becomes %s instead of x' % (k0, [show(x) for x in a]), k0)
            else:
                ctx.check(v == j, 'characteristic', w, '%s: a missing diagonal entry is put into row %s' % (k0, show(v)), k0)
    fx = {unld(c.t): c.pol for c in conds(q)}
    if diag_flag is not None or found is not None:
        ft = fx.get(('truth', diag_flag[1])) if diag_flag is not None else None
        if ft is not None and found is not None and ft != found:
            return          # the flag cannot have this value when the loop was left this way
        found = ft if found is None else found
        extra = [it for it in q.trace if isinstance(it, Ev) and it in pushes(q)]
        if found is not None:
            ctx.check((not extra) == found, 'characteristic', w, '%s: x is %s when the diagonal entry was %s' % (k0, 'stored' if extra else 'not stored', 'found' if found else 'missing'), k0)
        elif q.trace:
            ctx.bad('characteristic', w, '%s: the diagonal entry is %s without looking whether it was found' % (k0, 'stored' if extra else 'left out'), k0)
    for o in outs:
        if isinstance(o, tuple) and o[0] == 'v' and cleared and o not in cleared:
            ctx.bad('characteristic', w, '%s: %s keeps the entries of the previous column' % (k0, show(o)), k0)


def rcf(ctx, u):
    fs = list(pick(u, 'generating_basis', 'UnivariatePolynomial'))
    ctx.need(fs, 'anchor vanished: generating_basis')
    f = fs[0]
    ctx.function(f)
    ctx.count("functions")
    w, k0 = f.loc(), 'generating_basis'
    R, A = par(f, 0, u), par(f, 1, u)
    m = ('f', R, 'm')
    some = False
    for p in Engine(u, vocab=lambda n, x: short(n) in ('axpy', 'operator*', 'operator()'), maxpaths=5000).run(f):
        for L in [it for it in p.trace if isinstance(it, Loop)]:
            tr = trip(L)
            if tr is None:
                rec(ctx, "basis columns")
                continue
            j = tr[0]
            for Lx, q, c in loops_of(L.paths):
                C = ('f', ('ix', ('f', R, 'col'), j), 'indval')
                cs = [(d, sy, s0) for d, (nm, sy, s0, cc) in cursors(Lx).items() if cc == C]
                var = Lx.var if Lx.kind == 'rfor' and unld(Lx.rng) == C else cs[0][1] if len(cs) == 1 else None
                if var is None:
                    rec(ctx, "basis columns")
                    continue
                if cs:
                    ctx.check(unld(cs[0][2]) == 0, 'basis', w, '%s: a column of R is read from entry %s' % (k0, show(cs[0][2])), k0)
                for r in Lx.paths:
                    if r.exit not in NOT:
                        continue
                    ax = [e for e in r.trace if isinstance(e, Ev) and e.k == 'call' and short(e.name) == 'axpy']
                    ctx.count("basis columns")
                    if not ctx.check(len(ax) == 1, 'basis', w, '%s: an entry of R is added %d times' % (k0, len(ax)), k0):
                        continue
                    if cs:
                        st = sub(idx_of(r.env[cs[0][0]]), cs[0][1])
                        ctx.check(st == 1, 'basis', w, '%s: the cursor advances by %s' % (k0, show(st)), k0)
                    e = ('ix', C, var)
                    o = unld(ax[0].obj)
                    some = True
                    ctx.check(not (isinstance(o, tuple) and o[0] == 'ix') or o[2] == j, 'basis', w, '%s: column %s of R is added to vector %s' % (k0, show(j), show(o)), k0)
                    c0, v = unld(ax[0].args[0]), unld(ax[0].args[1])
                    ctx.check(c0 == 1, 'basis', w, '%s: a term is scaled by %s' % (k0, show(c0)), k0)
                    if isinstance(v, tuple) and v[0] == 'app' and short(v[1]) == 'operator()' and len(v[2]) == 3:
                        pol, mat, vec = v[2]
                        ok = pol == ('f', e, 'val') and mat == A
                        x = vec[2][0] if isinstance(vec, tuple) and vec[0] == 'app' and 'SparseVector' in str(vec[1]) and vec[2] else None
                        ctx.check(ok, 'basis', w, '%s: applies %s to %s' % (k0, show(pol), show(mat)), k0)
                        if x is not None:
                            ctx.check(x == ('f', e, 'ind') and (len(vec[2]) < 2 or vec[2][1] == 1), 'basis', w, '%s: entry in row i is applied to %s' % (k0, show(vec)), k0)
                    else:
                        rec(ctx, "basis columns")
            full(ctx, L, j, m, w, k0, 'the loop over columns', 'basis')
    if not some:
        rec(ctx, "basis columns")
    fs = list(pick(u, 'RCF_basis', 'UnivariatePolynomial'))
    ctx.need(fs, 'anchor vanished: RCF_basis')
    f = fs[0]
    ctx.function(f)
    ctx.count("functions")
    w, k0 = f.loc(), 'RCF_basis'
    S, A, B = par(f, 0, u), par(f, 1, u), par(f, 2, u)
    for p in Engine(u, vocab=lambda n, x: short(n) in ('axpy', 'operator*', 'operator()'), maxpaths=5000).run(f):
        for L in [it for it in p.trace if isinstance(it, Loop)]:
            tr = trip(L)
            if tr is None:
                rec(ctx, "Krylov blocks")
                continue
            j = tr[0]
            full(ctx, L, j, ('f', S, 'm'), w, k0, 'the loop over blocks', 'krylov')
            deg = sub(('size', ('f', ('app', 'ColumnMatrix::operator()', (S, j, j), 0), 'c'), 0), 1)
            for q in L.paths:
                if q.exit not in NOT:
                    continue
                ctx.count("Krylov blocks")
                krylov(ctx, q, deg, A, B, j, w, k0)


def krylov(ctx, q, deg, A, B, j, w, k0):
    fa = Facts([it for it in q.trace if isinstance(it, Cond)])
    pos = fa.holds('<', 0, deg)
    if pos is None:
        pos = None if fa.holds('==', deg, 0) is None else not fa.holds('==', deg, 0)
    count = 0
    v = None
    power = None            # power of A applied to the start vector at this point
    ok = True
    loopn = None
    for it in q.trace:
        if isinstance(it, Ev) and it.k == 'set' and it.name == 'init' and unld(it.args[0]) == ('ix', ('f', B, 'col'), j):
            v, power = unld(it.obj), 0
        elif isinstance(it, Ev) and it.k == 'set' and it.name == 'init' and isinstance(unld(it.args[0]), tuple) and unld(it.args[0])[0] == 'ix' and unld(it.args[0])[1] == ('f', B, 'col'):
            ctx.bad('krylov', w, '%s: block %s starts from vector %s' % (k0, show(j), show(it.args[0])), k0)
            return
        elif isinstance(it, Ev) and it in pushes(q):
            if unld(it.args[-1]) not in (v, ('ix', ('f', B, 'col'), j)):
                rec(ctx, "Krylov blocks")
                return
            ctx.check(power in (None, 0, count), 'krylov', w, '%s: vector %d of the block is A^%s v' % (k0, count, power), k0)
            count += 1
        elif isinstance(it, Loop):
            tr = trip(it)
            nx = [r for r in it.paths if r.exit in NOT]
            if tr is None or tr[3] != 1 or len(nx) != 1:
                rec(ctx, "Krylov blocks")
                return
            seq = []
            for e in nx[0].trace:
                if isinstance(e, Ev) and e.k == 'set' and v is not None and root(unld(e.obj)) == v:
                    seq.append('A')
                elif isinstance(e, Ev) and e.k == 'pure' and short(e.name) == 'operator*':
                    if unld(e.obj) != A or unld(e.args[0]) != v:
                        ctx.bad('krylov', w, '%s: the next vector is %s times %s' % (k0, show(e.obj), show(e.args[0])), k0)
                        return
                elif isinstance(e, Ev) and e in pushes(nx[0]):
                    seq.append('push')
            n = sub(tr[2], tr[1])
            if seq == ['A', 'push']:
                ctx.check(count == 1, 'krylov', w, '%s: the block lists %d copies of v before Av' % (k0, count), k0)
            elif seq == ['push', 'A']:
                ctx.check(count == 0, 'krylov', w, '%s: the block lists v twice' % k0, k0)
            elif seq in (['push'], ['A'], []):
                ctx.bad('krylov', w, '%s: a round does %s instead of one multiplication and one new vector' % (k0, seq or 'nothing'), k0)
                return
            else:
                rec(ctx, "Krylov blocks")
                return
            loopn = n
    total = count if loopn is None else add(count, loopn)
    if pos is False:
        ctx.check(total == 0, 'krylov', w, '%s: a block of degree 0 contributes %s vectors' % (k0, show(total)), k0)
    else:
        d = sub(total, deg)
        if is_num(d) or is_num(total):
            ctx.check(d == 0, 'krylov', w, '%s: a block contributes %s vectors instead of its degree' % (k0, show(total)), k0)
        else:
            rec(ctx, "Krylov blocks")


def run(ctx):
    u, = prog.load(['algebra'])
    euclid(ctx, u)
    smith(ctx, u)
    polyops(ctx, u)
    matrix_evaluation(ctx, u)
    characteristic(ctx, u)
    rcf(ctx, u)
