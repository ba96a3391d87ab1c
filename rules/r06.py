"""OpenMP parallel code is free of data races.

For every OpenMP construct of the library (found in the resolved program, in
every instantiation that the drivers make), the read/write effects of its body
on access paths are computed interprocedurally (bx/effects.py): parameters,
this, locals, globals; fields; element indices as linear forms over loop
variables, parameters and container contents; recursive functions get
contracts (index ranges, ranges of returned lists, preconditions) inferred by
weakening.  The rules:

R06-loop     in a work-shared loop, no write of one iteration meets an access
             of a different iteration (checked with linear arithmetic over the
             two iterations' symbols), unless both are in critical sections,
             private, or in a reduction
R06-task     a task's writes meet no access of a task or of the parent that may
             run concurrently (up to the next taskwait / barrier)
R06-wait     no function returns while a task it created may be unfinished
R06-lost     a task does not write to an implicitly firstprivate copy
R06-region   code of a parallel region outside work-sharing constructs does not
             write shared state
R06-simd     a simd loop carries no dependence from one iteration to the next
R06-static   parallel code writes no global or static object
R06-throw    no exception leaves an OpenMP construct from within
"""
from rules.common import *
from bx.effects import Effects, Acc, conflict, Lin, entails, infeasible, relevant

PROP = {
    "id": "R06",
    "title": "OpenMP code: no data races, lost results or escaping exceptions",
    "statement": "Every OpenMP construct of the library (parallel loops over blocks, nodes, edges and points; the divide and conquer tasks of matrix reduction and of quiver factorization; simd loops) computes what its sequential reading computes: iterations and tasks that may run at the same time never write what another one reads or writes, no function returns or uses a task's result before the task has finished, a task's results are written to the variables of the code that created it and not to a private copy, parallel code does not write global or static state, and no exception leaves a parallel construct.",
    "over": ["schedules", "inputs"],
    "text": "all thread counts, schedules, matrices, diagrams and data sets; every OpenMP construct in include/, in the instantiations of drivers/*.cpp",
    "why": "the tests run each parallel routine on inputs too small to split, or on one schedule; a race or a lost result shows only for particular sizes and interleavings",
    "files": ["include/homology/parallel.hpp", "include/quiver/sparse.hpp", "include/multigraph/functors.hpp", "include/multigraph/diagram.hpp", "include/topology/neighborhood.hpp", "include/topology/levelset.hpp", "include/topology/spherical.hpp"],
    "mechanism": [["divide and conquer reduction tasks", "include/homology/parallel.hpp reduce_block_dq"], ["divide and conquer quiver factorization", "include/quiver/sparse.hpp type_A_dq_common"],
                  ["parallel functors on diagrams", "include/multigraph/functors.hpp Nerve, Rips, Chain, Hom"], ["simd reductions", "include/topology/spherical.hpp force_repel_rp"]],
}
TECHNIQUE = "interprocedural effect analysis over access paths with linear index constraints, applied to every OpenMP construct"
LEVEL = "other"
ASSUMPTIONS = ["standard library containers: distinct elements occupy distinct memory, const members only read",
               "a function object passed by the user (metric, node factory) has no unsynchronised side effects",
               "an index that the linear analysis cannot express is reported as not decided, not as a race"]
MINIMUM = {"OpenMP constructs": 20}
DRIVERS = ["core", "linalg", "topo"]


def rename(l, first, m):
    out = {}
    for s, v in l.c.items():
        out[s] = v
    return Lin({m(s): v for s, v in l.c.items()}, l.k)


def symno(s):
    if len(s) == 2 and isinstance(s[1], str) and "#" in s[1]:
        try:
            return int(s[1].rsplit("#", 1)[1].rstrip("'"))
        except ValueError:
            return None
    return None


def primer(first):
    def m(s):
        n = symno(s)
        if n is not None and n > first:
            return (s[0], s[1] + "'")
        return s
    return m


def mapacc(a, m):
    st = tuple(('i', Lin({m(s): v for s, v in x[1].c.items()}, x[1].k)) if x[0] == 'i' and isinstance(x[1], Lin) else x for x in a.steps)
    g = tuple(Lin({m(s): v for s, v in x.c.items()}, x.k) for x in a.guards)
    return Acc(a.w, a.root, st, a.line, a.file, g, a.prot, a.what)


def mapfacts(fs, m):
    out = []
    for x in fs:
        out.append(Lin({m(s): v for s, v in x.c.items()}, x.k))
    return out


def skip_root(root, declared, priv, params):
    if root[0] == 'L' and (root[1] in declared or root[1] in priv):
        return True
    if root[0] == 'P' and params[root[1]]["d"] in priv:
        return True
    return False


def distinct(accs):
    seen = {}
    for a in accs:
        k = (a.key(), tuple(g.key() for g in a.guards))
        if k not in seen:
            seen[k] = a
    return list(seen.values())


def cases(x, y, cons, alts, pm, opq):
    """values that depend on a condition: try the cases"""
    syms = {s for l in [st[1] for a in (x, y) for st in a.steps if st[0] == 'i' and isinstance(st[1], Lin)] for s in l.c}
    used = [s for c in relevant(cons, syms) for s in c.c] + list(syms)
    todo = []
    for s, cs in alts.items():
        if s in used:
            todo.append((s, cs))
        if pm(s) in used:
            todo.append((pm(s), [mapfacts(c, pm) for c in cs]))
    if not todo or len(todo) > 4:
        return None
    known = {s for s, _ in todo}
    combos = [[]]
    for s, cs in todo:
        combos = [c + d for c in combos for d in cs]
    for c in combos:
        if infeasible(relevant(cons + c, known | syms)):
            continue
        if conflict(x, y, cons + c, lambda s: opq(s) and s not in known) is True:
            return True
    return None


def race_loop(ctx, f, e, rule="R06-loop"):
    par = e.par
    if not par.get("loop"):
        ctx.count("loops without a recognised iteration variable")
        loopsym = None
    else:
        loopsym = par["loop"]
    first = par.get("firstsym", 0)
    acc = [a for a in par.get("acc", []) if not skip_root(a.root, par.get("declared", ()), e.priv, f.d["ps"])]
    acc = distinct(acc)
    if loopsym is None:
        for a in acc:
            if a.w and not any(x[0] == 'i' for x in a.steps) and not a.prot:
                ctx.bad(rule, f.loc(a.line), "every iteration of the parallel loop at line %d writes %s" % (e.line, a.text()), "%s:%s" % (f.name, a.text()))
        return
    isym, step, sg = loopsym
    pm = primer(first - 1)
    # the loop symbol is created before `firstsym`, include it
    lno = symno(next(iter(isym.c)))
    pm = primer(lno - 1)
    i2 = Lin({pm(s): v for s, v in isym.c.items()}, isym.k)
    facts = list(e.facts)
    f2 = mapfacts([x for x in facts if any(symno(s) is not None and symno(s) >= lno for s in x.c)], pm)
    gl = list(par.get("guards", []))
    gl2 = mapfacts(gl, pm)
    gap = (i2 - isym - step) if step is not None else (i2 - isym - 1)
    if sg < 0:
        gap = (isym - i2 - step) if step is not None else (isym - i2 - 1)
    base = facts + f2 + gl + gl2 + [gap]
    if step is not None and step.const() is None:
        base.append(step - 1)
    writes = [a for a in acc if a.w]
    n = 0
    for a in writes:
        for b in acc:
            if a.root != b.root or (a.prot and b.prot):
                continue
            if b.w and acc.index(b) < acc.index(a) and a.key() == b.key():
                continue
            n += 1
            verdict = False
            for x, y in ((a, mapacc(b, pm)), (mapacc(a, pm), b)):
                cons = base + list(x.guards) + list(y.guards)
                opq = lambda s: s[0] == 'u' and (symno(s) is None or symno(s) >= lno)
                r = conflict(x, y, cons, opq)
                if r is None:
                    r = cases(x, y, cons, e.alts, pm, opq)
                if r is True:
                    verdict = True
                    break
                if r is None:
                    verdict = None
            if verdict is None:
                ctx.count("pairs not decided")
                continue
            what = "write of %s at line %d" % (a.text(), a.line)
            ctx.check(verdict is False, rule, f.loc(a.line), "two iterations of the parallel loop at line %d conflict: %s and %s of %s at line %d" %
                      (e.line, what, "write" if b.w else "read", b.text(), b.line), "%s:%s/%s" % (f.name, a.text(), b.text()))
    if not n:
        ctx.check(True, rule, f.loc(e.line), "", f.name)


def races(ctx, f, rule, line, aa, bb, facts, what):
    for a in distinct(aa):
        for b in distinct(bb):
            if not (a.w or b.w) or a.root != b.root or (a.prot and b.prot):
                continue
            r = conflict(a, b, list(facts) + list(a.guards) + list(b.guards))
            if r is None:
                ctx.count("pairs not decided")
                continue
            ctx.check(r is False, rule, f.loc(line), "%s: %s of %s and %s of %s may touch the same memory" %
                      (what, "write" if a.w else "read", a.text(), "write" if b.w else "read", b.text()), "%s:%s/%s" % (f.name, a.text(), b.text()))


def check_function(ctx, eff, f):
    evs = eff.events.get(f.id, [])
    for e in evs:
        if e.kind == "for":
            ctx.count("OpenMP constructs")
            race_loop(ctx, f, e)
            stat(ctx, f, e.par.get("acc", []), e.line)
        elif e.kind == "simd":
            ctx.count("OpenMP constructs")
            simd(ctx, f, e)
        elif e.kind == "task":
            ctx.count("OpenMP constructs")
            for a in e.lost:
                if a.what and not any(x[0] == 'i' for x in a.steps) or True:
                    ctx.bad("R06-lost", f.loc(a.line), "the task writes %s, which is an implicit firstprivate copy: the result is lost" % a.text(), "%s:%s" % (f.name, a.text()))
            if not e.lost:
                ctx.check(True, "R06-lost", f.loc(e.line), "")
            stat(ctx, f, e.acc, e.line)
            if not e.depend:
                for other, oline in e.against:
                    races(ctx, f, "R06-task", e.line, e.acc, other, e.facts, "tasks created at lines %d and %d run concurrently" % (oline, e.line))
        elif e.kind == "taskparent":
            races(ctx, f, "R06-task", e.line, e.acc, e.parent, e.facts, "the task of line %d runs concurrently with the code after it" % e.line)
        elif e.kind == "pending":
            ctx.bad("R06-wait", f.loc(e.line), "the function may return before the task created at line %d has finished" % e.line, f.name)
        elif e.kind == "parallel":
            ctx.count("OpenMP constructs")
            bad = [a for a in distinct(e.acc) if a.w and not a.prot and not skip_root(a.root, e.declared, e.priv, f.d["ps"])]
            for a in bad:
                if conflict(a, a, list(e.facts) + list(a.guards)) is not True:
                    ctx.count("pairs not decided")
                    continue
                ctx.bad("R06-region", f.loc(a.line), "every thread of the parallel region at line %d writes %s" % (e.line, a.text()), "%s:%s" % (f.name, a.text()))
            if not bad:
                ctx.check(True, "R06-region", f.loc(e.line), "")
        elif e.kind == "throw":
            reg = [r for r in e.region if r[0] not in ("taskwait",)]
            if reg:
                ctx.bad("R06-throw", f.loc(e.line), "an exception thrown inside the OpenMP construct of line %d cannot leave it: the program terminates" % reg[-1][1], "%s:throw" % f.name)


def stat(ctx, f, acc, line):
    bad = [a for a in distinct(acc) if a.w and a.root[0] == 'G' and not a.prot]
    for a in bad:
        ctx.bad("R06-static", f.loc(a.line), "parallel code (construct at line %d) writes the global or static object %s" % (line, a.root[1]), "%s:%s" % (f.name, a.root[1]))
    if not bad:
        ctx.check(True, "R06-static", f.loc(line), "")


def simd(ctx, f, e):
    par = e.par
    acc = [a for a in par.get("acc", []) if not skip_root(a.root, par.get("declared", ()), e.priv, f.d["ps"])]
    bad = [a for a in distinct(acc) if a.w and not any(x[0] == 'i' for x in a.steps)]
    for a in bad:
        ctx.bad("R06-simd", f.loc(a.line), "the simd loop at line %d carries %s from one iteration to the next" % (e.line, a.text()), "%s:%s" % (f.name, a.text()))
    if not bad and par.get("loop"):
        race_loop(ctx, f, e, "R06-simd")


def has_omp(f):
    for n in walk(f.d.get("b") or {}):
        if n.get("k") == "omp":
            return True
    return False


def run(ctx):
    units = prog.load(DRIVERS)
    seen = set()
    for u in units:
        eff = Effects(u)
        fs = [f for f in u.funcs if not f.dep and f.d.get("b") and has_omp(f)]
        for f in fs:
            k = (f.file, f.line, f.name, str([u.type(p["t"]) for p in f.d["ps"]]))
            if k in seen:
                continue
            seen.add(k)
            eff.summary(f.id)
            ctx.function(f)
            check_function(ctx, eff, f)
