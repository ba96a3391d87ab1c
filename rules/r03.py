"""Field arithmetic, decided per operation over all operand values.  Every path of every member of
the coefficient types is evaluated in an exact congruence-and-interval domain: for integers mod P
the result must be congruent to the field operation and lie in [0, P) (mod 2: equal parity,
Boolean polynomials), comparisons must decide congruence, and the search loop of the inverse must
keep its invariant and stop only on a product of 1; for rationals the new numerator and denominator
must satisfy the cross-multiplied identity and pass through the reduction step, whose result is the
same fraction in lowest terms with positive denominator; division and inversion raise on every path
with a zero divisor and only divide on paths that exclude it."""
from rules.common import *

PROP = dict(
    id="R03", title="Coefficient fields compute exactly and keep one representation per element",
    statement="For every operand value, addition, subtraction, negation, multiplication, division, inversion, construction from an integer and comparison of the coefficient types (integers mod p, with p squared fitting the integer type, and rationals that do not overflow) give the exact field result. Results are always stored in the one canonical form that equality compares (0..p-1, parity for p = 2, lowest terms with positive denominator), in-place forms agree with the binary ones, and dividing by or inverting zero raises an error instead of returning a value.",
    over=["inputs"],
    text="all operands of all operations of ModP (p = 2, 3, 7 as representatives) and Rational",
    why="the field tests evaluate fixed operand pairs; a representation error for a negative or unreduced value corrupts eliminations silently",
    files=["include/linalg/field.hpp"],
    mechanism=[("canonical form", "ModP constructor and compound operators, Rational::reduce"), ("division guards", "operator/, operator/=, inv, ff_inv")],
)
LEVEL = "proof"
TECHNIQUE = "abstract interpretation in a congruence + interval domain over per-path value terms"
MINIMUM = {"operations": 60}
ASSUMPTIONS = ["no integer overflow: p*p fits the integer type, rational numerators and denominators stay in range",
               "std::gcd returns the greatest common divisor"]


class FE(Engine):
    CLS = ('ModP', 'Rational')

    def __init__(self, u, **kw):
        Engine.__init__(self, u, fieldtypes=(), maxdepth=12, **kw)

    def ev_ctor(self, n, st):
        f = self.u.byid.get(n.get('fid'))
        nm = n.get('f', '').split('::')[-1]
        if nm in self.CLS and not n.get('cp') and not n.get('mv') and f is not None and not f.dep:
            out = []
            for s, vs in self.args_for(n, st, f):
                r = ('v', 'tmp', next(iter_uid))
                for s2, _ in self.inline(f, s, r, n['a'], vs, n):
                    names = ('val',) if nm == 'ModP' else ('n', 'd')
                    out.append((s2, ('tup', tuple((x, self.load(s2, ('f', r, x))) for x in names))))
            return out
        return Engine.ev_ctor(self, n, st)


import itertools
iter_uid = itertools.count(10 ** 7)


# ---------------------------------------------------------------- congruence domain
class Dom:
    def __init__(self, P, bits=31):
        self.P = P
        self.lim = 1 << bits

    def canon_atoms(self):
        return None

    def res(self, t):
        """residue polynomial of t mod P: dict monomial -> coef, or None if not expressible"""
        P = self.P
        if is_num(t):
            return {(): t % P} if t % P else {}
        if isinstance(t, tuple) and t[0] == 'poly':
            r = {}
            for m, c in t[1]:
                x = {(): c % P}
                for a in m:
                    y = self.res(a)
                    if y is None:
                        return None
                    x = self.mul(x, y)
                for k, v in x.items():
                    r[k] = (r.get(k, 0) + v) % P
            return {k: v for k, v in r.items() if v}
        if isinstance(t, tuple) and t[0] == 'app':
            op, a = t[1], t[2]
            if op in ('%', '%u') and is_num(a[1]) and a[1] % P == 0 and a[1] > 0:
                lo, hi = self.rng(a[0])
                if op == '%u' and (lo < 0 or hi >= 1 << 32):
                    return None
                return self.res(a[0])
            if op == '^' and P == 2:
                x, y = self.res(a[0]), self.res(a[1])
                return None if x is None or y is None else self.addp(x, y)
            if op == '&' and P == 2:
                if 1 in a:
                    return self.res([z for z in a if z != 1][0] if a[0] != a[1] else 1)
                x, y = self.res(a[0]), self.res(a[1])
                return None if x is None or y is None else self.mul(x, y)
            if op == '|' and P == 2:
                x, y = self.res(a[0]), self.res(a[1])
                return None if x is None or y is None else self.addp(self.addp(x, y), self.mul(x, y))
            return None
        return {((unld(t), 1),): 1}

    def addp(self, x, y):
        r = dict(x)
        for k, v in y.items():
            r[k] = (r.get(k, 0) + v) % self.P
        return {k: v for k, v in r.items() if v}

    def mul(self, x, y):
        r = {}
        for m1, c1 in x.items():
            for m2, c2 in y.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                m = tuple(sorted(((a, (e - 1) % (self.P - 1) + 1 if self.P > 1 else e) for a, e in d.items()), key=key))
                r[m] = (r.get(m, 0) + c1 * c2) % self.P
        return {k: v for k, v in r.items() if v}

    def rng(self, t):
        """interval of t; canonical operands in [0,P)"""
        if is_num(t):
            return t, t
        if isinstance(t, tuple) and t[0] == 'poly':
            lo = hi = 0
            for m, c in t[1]:
                a = b = 1
                for x in m:
                    l, h = self.rng(x)
                    z = (a * l, a * h, b * l, b * h)
                    a, b = min(z), max(z)
                z = (a * c, b * c)
                lo += min(z)
                hi += max(z)
            return lo, hi
        if isinstance(t, tuple) and t[0] == 'app':
            op, a = t[1], t[2]
            if op in ('%', '%u') and is_num(a[1]) and a[1] > 0:
                l, h = self.rng(a[0])
                m = a[1]
                if op == '%u' and (l < 0 or h >= 1 << 32):
                    return 0, m - 1
                if l >= 0:
                    return (l, h) if h < m else (0, m - 1)
                return max(l, -(m - 1)), min(max(h, 0), m - 1)
            if op == '&' and any(is_num(x) and x >= 0 for x in a):
                return 0, min(x for x in a if is_num(x) and x >= 0)
            if op == '^' and all(self.rng(x) == (0, 1) for x in a):
                return 0, 1
            return -self.lim, self.lim - 1
        u = unld(t)
        if isinstance(u, tuple) and u[0] == 'f' and u[2] == 'val' and self.P != 2:
            return 0, self.P - 1
        return -self.lim, self.lim - 1

    def canonical(self, t):
        l, h = self.rng(t)
        return self.P == 2 or (l >= 0 and h < self.P)


A = ('f', ('this',), 'val')
B = ('f', ('v', 'b', 0), 'val')


def pol(d, t):
    return d.res(t)


def run_modp(ctx, u, f, P):
    d = Dom(P)
    name = short(f.name)
    e = FE(u)
    paths = e.run(f)
    ctx.function(f)
    ctx.count("operations")
    nps = len(f.d['ps'])
    ptype = u.type(f.d['ps'][0]['t']) if nps else ''
    isint = 'ModP' not in ptype
    pn = f.d['ps'][0]['n'] if nps else None
    b = (('sym', pn, 0) if '&' not in ptype else ('v', pn, 0)) if isint else ('f', ('v', pn, 0), 'val')
    tag = 'ModP<%d>::%s' % (P, name)
    k0 = tag + ('(int)' if isint and nps else '')
    w = f.loc()

    def eqv(t, spec, what):
        x, y = d.res(t), d.res(spec)
        ok = x is not None and x == y
        ctx.check(ok, 'exact', w, '%s: %s is %s, not congruent to %s mod %d for all operands' % (k0, what, show(unld(t)), show(unld(spec)), P), k0)
        ctx.check(d.canonical(t), 'canonical', w, '%s: %s = %s may leave [0,%d): range %s' % (k0, what, show(unld(t)), P, d.rng(t)), k0)

    def result(p):
        v = p.val
        if isinstance(v, tuple) and v[0] == 'tup':
            return v[1][0][1]
        if strip_ld(v) == ('this',) or v == ('ptr', ('this',)):
            return p.st.store.get(A, A)
        return None

    def final(p):
        return p.st.store.get(A, A)

    def divided(p, by):
        """guard discipline for divisions; True if this path divides"""
        fa = Facts(p.trace)
        z = None
        for it in p.trace:
            if isinstance(it, Cond) and it.t[0] == 'cmp' and it.t[1] == '==' and 0 in it.t[2:]:
                o = it.t[2] if it.t[3] == 0 else it.t[3]
                if d.res(o) == d.res(by):
                    z = it.pol
        if p.exit == 'throw':
            return False
        ctx.check(z is False, 'zero-guard', w, '%s: returns a value although the divisor may be zero' % k0, k0 + ':zero')
        return True

    ops = {'operator+': add(A, b), 'operator-': sub(A, b) if nps else neg(A), 'operator*': mul(A, b)}
    if f.d.get('ctor'):
        if nps == 0:
            for p in paths:
                ctx.check(final(p) == 0, 'exact', w, '%s: default value is %s' % (k0, show(final(p))), k0)
        elif isint:
            for p in paths:
                eqv(final(p), b, 'the stored value')
        return
    if name in ops:
        for p in paths:
            r = result(p)
            if ctx.check(p.exit == 'ret' and r is not None, 'exact', w, '%s does not return a field element (%s)' % (k0, p.exit), k0):
                eqv(r, ops[name], 'the result')
                ctx.check(final(p) == A or unld(final(p)) == A or d.res(final(p)) == d.res(A), 'exact', w, '%s changes its operand' % k0, k0)
    elif name in ('operator+=', 'operator-=', 'operator*='):
        for p in paths:
            eqv(final(p), ops[name[:-1]], 'the stored value')
            ctx.check(strip_ld(p.val) == ('this',), 'exact', w, '%s does not return its object' % k0, k0)
    elif name == 'operator=' and isint:
        for p in paths:
            eqv(final(p), b, 'the assigned value')
    elif name in ('operator/', 'operator/=', 'inv'):
        by = A if name == 'inv' else b
        some = False
        for p in paths:
            if not divided(p, by):
                continue
            some = True
            r = result(p) if name != 'operator/=' else final(p)
            inverse(ctx, d, p, r, name, by, k0, w, P)
        ctx.check(any(p.exit == 'throw' for p in paths), 'zero-guard', w, '%s never raises' % k0, k0 + ':zero')
        ctx.check(some, 'exact', w, '%s never returns' % k0, k0)
    elif name in ('operator==', 'operator!=', 'iszero'):
        other = 0 if name == 'iszero' else b
        want_eq = name != 'operator!='
        for p in paths:
            if not (is_num(p.val) and p.val in (0, 1)):
                ctx.bad('compare', w, '%s returns %s' % (k0, show(p.val)), k0)
                continue
            ok = None
            for it in p.trace:
                if isinstance(it, Cond) and it.t[0] == 'cmp' and it.t[1] == '==':
                    x, y = it.t[2], it.t[3]
                    df = d.res(sub(x, y))
                    sp = d.res(sub(A, other))
                    spn = d.res(sub(other, A))
                    # equality of the two values is congruence only if both are canonical
                    dec = (df == sp or df == spn) and (P == 2 and self_par(d, x) and self_par(d, y) or P != 2 and d.canonical(x) and d.canonical(y))
                    if dec:
                        ok = (it.pol == want_eq) == bool(p.val)
            ctx.check(ok is True, 'compare', w, '%s: returns %d on [%s], which does not decide congruence of %s and %s' % (
                k0, p.val, ', '.join(repr(c) for c in p.trace if isinstance(c, Cond)), show(A), show(other)), k0)
    elif name == 'operator<':
        for p in paths:
            ok = False
            for it in p.trace:
                if isinstance(it, Cond) and it.t[0] == 'cmp' and it.t[1] == '<':
                    x, y = it.t[2], it.t[3]
                    if d.res(x) == d.res(A) and d.res(y) == d.res(b):
                        ok = it.pol == bool(p.val)
                    elif d.res(x) == d.res(b) and d.res(y) == d.res(A):
                        ok = it.pol != bool(p.val) and False
            ctx.check(ok, 'compare', w, '%s: returns %s on [%s], not the order of representatives' % (k0, show(p.val), ', '.join(repr(c) for c in p.trace if isinstance(c, Cond))), k0)
    elif name == 'to_int':
        for p in paths:
            x = d.res(p.val)
            ctx.check(x is not None and x == d.res(A), 'exact', w, '%s returns %s' % (k0, show(p.val)), k0)
            ctx.check(d.canonical(p.val) and (P != 2 or d.rng(p.val) == (0, 1)), 'canonical', w, '%s may return a value outside [0,%d)' % (k0, P), k0)


def self_par(d, t):
    """0/1 valued term (mod 2)"""
    if is_num(t):
        return t in (0, 1)
    l, h = d.rng(t)
    return l >= 0 and h <= 1


def inverse(ctx, d, p, r, name, by, k0, w, P):
    """result * divisor == dividend.  For p = 2 directly; otherwise through the search loop"""
    if P == 2:
        one = {(): 1}
        x = d.res(r) if r is not None else None
        # on this path the divisor is 1
        def subst(q):
            out = {}
            for m, c in (q or {}).items():
                m2 = tuple(z for z in m if {(z,): 1} != d.res(by))
                out[m2] = (out.get(m2, 0) + c) % 2
            return {k: v for k, v in out.items() if v}
        want = one if name == 'inv' else d.res(A)
        ctx.check(x is not None and subst(x) == subst(want), 'exact', w, '%s returns %s' % (k0, show(r)), k0)
        return
    # find the inverse search: loop left on c % P == 1 with c = by * R invariant
    L = [it for it in p.trace if isinstance(it, Loop)]
    lv = [it for it in p.trace if isinstance(it, Leave)]
    if not L:
        ctx.count("inverses not recognised")
        return
    loop = L[-1]
    # the value used as inverse
    if r is None:
        ctx.bad('exact', w, '%s returns no field element' % k0, k0)
        return
    syms = {d_: sy for d_, (nm, sy) in loop.syms.items()}
    used = [d_ for d_, sy in syms.items() if any(x == sy for x in subterms(r))]
    if len(used) != 1:
        ctx.count("inverses not recognised")
        return
    ru = used[0]
    R = syms[ru]
    want = mul(R, A) if name != 'inv' else R
    x = d.res(r)
    ctx.check(x is not None and x == d.res(want), 'exact', w, '%s: result %s is not %s' % (k0, show(unld(r)), show(unld(want))), k0)
    ctx.check(d.canonical(r), 'canonical', w, '%s: result may leave [0,%d)' % (k0, P), k0)
    # exit condition
    leave = lv[-1].path if lv else None
    okx = False
    for it in (leave.trace if leave else []):
        if isinstance(it, Cond) and it.t[0] == 'cmp' and it.t[1] == '==' and it.pol and 1 in it.t[2:]:
            o = it.t[2] if it.t[3] == 1 else it.t[3]
            if isinstance(o, tuple) and o[0] == 'app' and o[1] in ('%', '%u') and o[2][1] == P:
                c = o[2][0]
                # invariant: c == by * R
                cs = [d_ for d_, sy in syms.items() if sy == c]
                if c == mul(R, unld(by)) or d.res(c) == d.res(mul(R, by)):
                    okx = True
                elif cs:
                    start = d.res(sub(loop.start[cs[0]], mul(loop.start[ru], by)))
                    inv_ok = start == {}
                    for q in loop.paths:
                        if q.exit == 'n':
                            dl = d.res(sub(sub(q.env[cs[0]], mul(q.env[ru], by)), sub(c, mul(R, by))))
                            inv_ok = inv_ok and dl == {}
                    okx = inv_ok
    ctx.check(okx, 'exact', w, '%s: the inverse search does not stop exactly when candidate * divisor is 1 mod %d' % (k0, P), k0 + ':inv')


# ---------------------------------------------------------------- rationals
N, D = ('f', ('this',), 'n'), ('f', ('this',), 'd')


def run_rational(ctx, u, f):
    name = short(f.name)
    nps = len(f.d['ps'])
    ptype = u.type(f.d['ps'][0]['t']) if nps else ''
    isint = 'Rational' not in ptype
    pn = f.d['ps'][0]['n'] if nps else None
    k0 = 'Rational::' + name + ('(int)' if isint and nps else '')
    w = f.loc()
    ctx.function(f)
    ctx.count("operations")
    e = FE(u, vocab=lambda n, x: n.endswith('Rational::reduce') and name != 'reduce')
    paths = e.run(f)
    bn, bd = (('sym', pn, 0), 1) if isint else (('f', ('v', pn, 0), 'n'), ('f', ('v', pn, 0), 'd'))

    def stored(p):
        """(n, d, reduced?) left in the object, before reduction if it is last"""
        nn, dd = N, D
        red = True
        for it in p.trace:
            if isinstance(it, Ev):
                if it.k == 'set' and unld(it.obj) == N:
                    nn, red = it.args[0], False
                elif it.k == 'set' and unld(it.obj) == D:
                    dd, red = it.args[0], False
                elif it.k == 'call' and it.name.endswith('reduce') and strip_ld(it.obj) == ('this',):
                    red = True
        return nn, dd, red

    def returned(p):
        v = p.val
        if not (isinstance(v, tuple) and v[0] == 'tup'):
            return None
        # last temporary
        objs = {}
        order = []
        for it in p.trace:
            if isinstance(it, Ev):
                o = unld(it.obj) if it.obj is not None else None
                if it.k == 'set' and isinstance(o, tuple) and o[0] == 'f' and o[1][0] == 'v' and o[1][1] == 'tmp':
                    x = objs.setdefault(o[1], {'red': False})
                    x[o[2]] = it.args[0]
                    x['red'] = False
                    order.append(o[1])
                elif it.k == 'call' and it.name.endswith('reduce') and strip_ld(it.obj) in objs:
                    objs[strip_ld(it.obj)]['red'] = True
        if not order:
            return None
        x = objs[order[-1]]
        return x.get('n'), x.get('d'), x['red']

    def frac(x, sn, sd, what, p):
        if x is None:
            ctx.bad('exact', w, '%s returns no rational' % k0, k0)
            return
        n1, d1, red = x
        ok = unld(sub(mul(n1, sd), mul(sn, d1))) == 0
        ctx.check(ok, 'exact', w, '%s: %s is (%s)/(%s), not (%s)/(%s)' % (k0, what, show(unld(n1)), show(unld(d1)), show(unld(sn)), show(unld(sd))), k0)
        triv = d1 == 1 or (unld(n1), unld(d1)) in ((N, D), (unld(neg(N)), D))
        ctx.check(red or triv, 'canonical', w, '%s: %s is left unreduced' % (k0, what), k0 + ':reduce')
        fac = poly(unld(d1))
        okd = len(fac) == 1 and list(fac.values())[0] in (1, -1)
        if okd:
            for a in list(fac)[0]:
                if isinstance(a, tuple) and a[0] == 'f' and a[2] == 'd':
                    continue
                fa = Facts(p.trace)
                if fa.holds('==', a, 0) is False:
                    continue
                if isinstance(a, tuple) and a[0] == 'sym':
                    continue            # public (n, d) constructor: denominator given by the caller
                okd = False
        ctx.check(okd, 'zero-guard', w, '%s: the new denominator %s may be zero' % (k0, show(unld(d1))), k0 + ':zero')

    binop = {'operator+': (add(mul(N, bd), mul(bn, D)), mul(D, bd)), 'operator-': (sub(mul(N, bd), mul(bn, D)), mul(D, bd)) if nps else (neg(N), D),
             'operator*': (mul(N, bn), mul(D, bd)), 'operator/': (mul(N, bd), mul(D, bn))}
    if f.d.get('ctor'):
        for p in paths:
            x = stored(p)
            if nps == 0:
                ctx.check(x[0] == 0 and x[1] == 1, 'exact', w, '%s: default is %s/%s' % (k0, show(x[0]), show(x[1])), k0)
            elif nps == 1 and isint:
                frac((x[0], x[1], True if x[1] == 1 else x[2]), ('sym', pn, 0), 1, 'the value', p)
            elif nps == 2:
                frac(x, ('sym', f.d['ps'][0]['n'], 0), ('sym', f.d['ps'][1]['n'], 0), 'the value', p)
        return
    if name == 'reduce':
        for p in paths:
            n1, d1 = p.st.store.get(N), p.st.store.get(D)
            fa = Facts(p.trace)
            pos, ngt = fa.holds('<', 0, D), fa.holds('<', D, 0)
            if pos is False and ngt is False:
                continue                    # denominator zero: excluded by the operations
            x, y = (lowest(n1, N), lowest(d1, D)) if n1 is not None and d1 is not None else (None, None)
            ok = x is not None and x == y
            if ok and not x[1]:             # sign resolved on the path
                ok = x[0] == 1 and pos is True or x[0] == -1 and ngt is True
            ctx.check(ok, 'canonical', w, 'reduce stores %s / %s instead of sign(d)*n/gcd, sign(d)*d/gcd' % (show(unld(n1)), show(unld(d1))), k0)
        return
    if name in binop:
        div = name == 'operator/'
        for p in paths:
            if p.exit == 'throw':
                ctx.check(div and Facts(p.trace).holds('==', bn, 0) is True, 'zero-guard', w, '%s raises on a valid operand' % k0, k0 + ':zero')
                continue
            if div:
                ctx.check(Facts(p.trace).holds('==', bn, 0) is False, 'zero-guard', w, '%s divides by a possibly zero rational' % k0, k0 + ':zero')
            frac(returned(p), binop[name][0], binop[name][1], 'the result', p)
    elif name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        div = name == 'operator/='
        for p in paths:
            if p.exit == 'throw':
                ctx.check(div and Facts(p.trace).holds('==', bn, 0) is True, 'zero-guard', w, '%s raises on a valid operand' % k0, k0 + ':zero')
                continue
            if div:
                ctx.check(Facts(p.trace).holds('==', bn, 0) is False, 'zero-guard', w, '%s divides by a possibly zero rational' % k0, k0 + ':zero')
            frac(stored(p), binop[name[:-1]][0], binop[name[:-1]][1], 'the stored value', p)
    elif name == 'inv':
        for p in paths:
            z = Facts(p.trace).holds('==', N, 0)
            if p.exit == 'throw':
                ctx.check(z is True, 'zero-guard', w, '%s raises on a nonzero value' % k0, k0 + ':zero')
                continue
            ctx.check(z is False, 'zero-guard', w, '%s inverts a possibly zero rational' % k0, k0 + ':zero')
            frac(returned(p), D, N, 'the inverse', p)
    elif name in ('operator==', 'operator!=', 'iszero'):
        on, od = (0, None) if name == 'iszero' else (bn, bd)
        for p in paths:
            fa = Facts(p.trace)
            a = fa.holds('==', N, on)
            c = True if od is None else fa.holds('==', D, od)
            eq = False if a is False or c is False else (True if a and c else None)
            if name == 'operator!=' and eq is not None:
                eq = not eq
            ctx.check(eq is not None and is_num(p.val) and bool(p.val) == eq, 'compare', w, '%s returns %s on [%s]' % (k0, show(p.val), ', '.join(repr(x) for x in p.trace if isinstance(x, Cond))), k0)
    elif name == 'operator<':
        for p in paths:
            r = Facts(p.trace).holds('<', mul(N, bd), mul(bn, D))
            ctx.check(r is not None and is_num(p.val) and bool(p.val) == r, 'compare', w, '%s returns %s on [%s], not the order of n/d' % (k0, show(p.val), ', '.join(repr(x) for x in p.trace if isinstance(x, Cond))), k0)


def lowest(t, x):
    """t = s * (x / g) -> (s, g) with s the sign of d, g = gcd(n, d)"""
    t = unld(t)
    p = poly(t)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    quo = [a for a in m if isinstance(a, tuple) and a[0] == 'app' and a[1] == '/' and a[2][0] == x]
    rest = [a for a in m if a not in quo]
    if len(quo) != 1:
        return None
    g = quo[0][2][1]
    if not (isinstance(g, tuple) and g[0] == 'app' and g[1].endswith('gcd') and set(g[2]) == {N, D}):
        return None
    return (c, tuple(rest), g)


def run(ctx):
    u, = prog.load(['core'])
    seen = {}
    for f in u.funcs:
        if f.dep or not f.file.endswith('linalg/field.hpp') or f.d.get('imp') or f.d.get('dfd'):
            continue
        c = f.d.get('cls')
        if c == 'ModP':
            ct = u.type(f.d['ct'])
            P = int(ct.split(',')[1].strip(' >'))
            run_modp(ctx, u, f, P)
            seen.setdefault(P, set()).add(short(f.name))
        elif c == 'Rational':
            run_rational(ctx, u, f)
            seen.setdefault('Q', set()).add(short(f.name))
    need = {'operator+', 'operator-', 'operator*', 'operator/', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'inv', 'operator==', 'operator!=', 'operator<', 'iszero'}
    for k in (2, 3, 7, 'Q'):
        ctx.need(need <= seen.get(k, set()), 'anchor vanished: %s misses %s' % (k, need - seen.get(k, set())))
    # sign: used by the rational reduction
    for f in u.find('sgn'):
        if not f.file.endswith('field.hpp'):
            continue
        ctx.function(f)
        v = ('sym', f.d['ps'][0]['n'], 0)
        for p in FE(u).run(f):
            fa = Facts(p.trace)
            s = 1 if fa.holds('<', 0, v) else (-1 if fa.holds('<', v, 0) else (0 if fa.holds('<', 0, v) is False and fa.holds('<', v, 0) is False else None))
            ctx.check(s is not None and p.val == s, 'sign', f.loc(), 'sgn returns %s on [%s]' % (show(p.val), ', '.join(repr(x) for x in p.trace if isinstance(x, Cond))), 'sgn')
