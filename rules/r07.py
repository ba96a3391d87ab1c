"""No hidden state: a result is a function of the arguments.

Over every function, global, record and cast of the resolved program (all
headers reachable from bats.hpp, every instantiation the drivers make, with
and without BATS_OPCOUNT):

R07-static   no writable object of static or thread storage duration: neither
             at namespace scope, nor as a static member, nor local to a function
             (the operation counters exist only under BATS_OPCOUNT)
R07-mutable  no mutable member and no cast that removes const: const
             operations and const arguments are not written
R07-source   clocks, random devices, the C random state, the environment, the
             process or thread identity are read only by the declared sampling
             functions; a time stamp flows nowhere but to a printed message;
             random engines are local and seeded from arguments or by default
R07-address  no pointer is turned into an integer or hashed
R07-init     a constructor gives every scalar or pointer member a value on every
             path (members of the passive records listed in SENTINEL excepted)
R07-uninit   no local variable is read before it is given a value on some path,
             no value-returning function can run off its end, no reference or
             pointer to a dead local is returned or stored
R07-owner    a class that allocates memory into a member has a copy constructor,
             a copy assignment and a destructor of its own (or deleted ones)
"""
import os, re
from rules.common import *
from bx import prog, diag

PROP = {
    "id": "R07",
    "title": "No hidden state: results depend only on the arguments",
    "statement": "What a BATS function returns or writes is determined by its arguments (and, for the declared sampling functions, the seed): not by earlier calls, other objects, other threads, the clock, memory addresses or uninitialised memory. The library keeps no writable static or thread-local state (except the operation counters of the BATS_OPCOUNT build), const operations and const arguments are really not modified (no mutable members, no const casts), clocks and random devices feed only printed timings and the unseeded samplers (random, add_normal_noise, add_uniform_noise), the number of threads only decides how work is split, every constructor gives every scalar or pointer member a value, no variable is read before it has a value and no function returns without its value or returns a reference to a dead object, and copies of an object that owns allocated memory do not share it.",
    "over": ["histories", "inputs"],
    "text": "all sequences of calls, copies and threads; every function, member, global, constructor and cast in include/, in the instantiations of drivers/*.cpp",
    "why": "each test calls a function once or twice in a fresh process; a cache, a stale buffer, an uninitialised member or a shared copy shows only in other histories or memory contents",
    "files": ["include/bats.hpp", "include/linalg/sparse_vector.hpp", "include/linalg/col_matrix.hpp", "include/linalg/csc_matrix.hpp", "include/complex/light_simplicial_complex.hpp", "include/util/trie.hpp", "include/util/permutation.hpp", "include/util/set.hpp", "include/topology/data_gen.hpp", "include/homology/dgbasis.hpp", "include/filtration/update_information.hpp"],
    "mechanism": [["seeded generators", "include/topology/data_gen.hpp"], ["unseeded factories", "SparseVector::random, ColumnMatrix::random"], ["deep copies", "include/util/trie.hpp"],
                  ["member initialisation", "every constructor"]],
}
TECHNIQUE = "whole-program inventory of storage, casts and sources of nondeterminism; definite-initialisation analysis of constructors; compiler dataflow diagnostics on the instantiated program"
LEVEL = "other"
ASSUMPTIONS = ["a standard container, string or stream holds no state outside the object",
               "hash tables iterate in an order that depends only on the keys and the history of the object"]
MINIMUM = {"functions": 500, "records": 40, "constructors": 60}
DRIVERS = ["core", "linalg", "topo", "algebra"]

# external calls whose value does not come from the program's arguments
SOURCE = re.compile(r'^(std::)?(rand|srand|random|srandom|drand48|lrand48|time|clock|gettimeofday|clock_gettime|getenv|secure_getenv|getpid|gettid|gethostname|system|tmpnam|omp_get_\w+|sched_getcpu|__rdtsc)$'
                    r'|std::chrono::.*::now$|std::random_device|std::this_thread::get_id|std::thread::hardware_concurrency|std::filesystem::')
# (function, source): the declared sampling functions
SAMPLING = [(re.compile(r'(^|::)(SparseVector|ColumnMatrix)(<.*>)?::random$'), re.compile(r'now$')),
            (re.compile(r'(^|::)add_(normal|uniform)_noise$'), re.compile(r'now$')),
            (re.compile(r'(^|::)fill_rand$'), re.compile(r'^(std::)?rand$'))]
# constructors that make a passive record or an end marker; its members are assigned by the user
SENTINEL = {("nzpair", 0), ("cell_ind", 0), ("PersistencePair", 0), ("Edge", 0), ("bar", 0), ("triangle", 0), ("triangle", 3), ("MemAcc", 0), ("ReducedDGVectorSpace", 0),
            ("simplex_boundary_iterator", 1), ("DataSet", 0), ("SmithFact", 0), ("ZigzagPair", 0), ("rfilt_val", 0), ("filtered_edge", 0), ("nzpair", 1), ("A", 0), ("BarcodePair", 0)}
FLAGS = ["uninitialized", "sometimes-uninitialized", "return-type", "return-stack-address", "dangling", "dangling-gsl", "dangling-field", "dangling-initializer-list", "cast-qual", "self-assign-field", "self-assign", "self-move", "infinite-recursion"]


def declared(f, src):
    if any("seed" in p["n"] or "engine" in f.u.type(p["t"]) for p in f.d["ps"]):
        return False        # the caller chose the seed
    if src in ("omp_get_max_threads", "omp_get_num_threads"):    # how the work is split
        return any(n.get("k") == "omp" for n in prog.walk(f.d["b"]))
    return any(a.search(f.name) and b.search(src) for a, b in SAMPLING)


def sets_field(n, u, seen):
    """fields of *this that the statement certainly assigns; None = every path ends here (throw/return)"""
    k = n.get("k")
    if k == "seq":
        out = set()
        for s in n["s"]:
            r = sets_field(s, u, seen)
            if r is None:
                return None
            out |= r
        return out
    if k == "if":
        a = sets_field(n["x"], u, seen) if n.get("x") else set()
        b = sets_field(n["y"], u, seen) if n.get("y") else set()
        c = from_expr(n.get("c"), u, seen)
        if a is None and b is None:
            return None
        if a is None:
            return c | b
        if b is None:
            return c | a
        return c | (a & b)
    if k in ("for", "while", "rfor"):
        return from_expr(n.get("c"), u, seen) | (sets_field(n["init"], u, seen) or set() if n.get("init") else set())
    if k == "do":
        return sets_field(n["b"], u, seen) or set()
    if k == "throw" or (k == "x" and n["e"] and n["e"].get("k") == "throw"):
        return None
    if k == "ret":
        return set()
    if k == "x":
        return from_expr(n["e"], u, seen)
    if k == "decl":
        out = set()
        for v in n["v"]:
            if v.get("i"):
                out |= from_expr(v["i"], u, seen)
        return out
    if k == "omp" and n.get("b"):
        return sets_field(n["b"], u, seen) or set()
    return set()


def own(e):
    """name of the field of *this that the expression denotes"""
    if e and e.get("k") == "mem" and e.get("b", {}).get("k") == "this":
        return e["n"]
    return None


def from_expr(e, u, seen):
    out = set()
    if not isinstance(e, dict):
        return out
    for x in prog.children_or_self(e):
        k = x.get("k")
        if k == "bin" and x["op"] == "=":
            f = own(x["x"])
            if f:
                out.add(f)
            out |= from_expr(x["y"], u, seen)
            continue
        if k == "bin" and x["op"] in ("&&", "||"):
            out |= from_expr(x["x"], u, seen)
            continue
        if k in ("cond", "lambda"):
            continue
        if k == "call":
            a = list(x.get("a") or [])
            for i in x.get("mr") or []:
                if i < len(a) and own(a[i]):
                    out.add(own(a[i]))
            if x.get("op") == "=" and x.get("o") and own(x["o"]):
                out.add(own(x["o"]))
            if any(y.get("k") == "un" and y["op"] == "*" and y["e"].get("k") == "this" or y.get("k") == "this" for y in a):
                out.add("*")
            if x.get("o") and x["o"].get("k") == "this" and x.get("fid") in u.byid and x["fid"] not in seen:
                g = u.byid[x["fid"]]
                if g.d.get("b"):
                    out |= sets_field(g.d["b"], u, seen | {x["fid"]}) or set()
        for y in prog.children(x):
            out |= from_expr(y, u, seen)
    return out


def short(n):
    return re.sub(r'<.*', '', n.split("::")[-1])


def check_unit(ctx, u, done):
    for g in u.globals:
        fn = u.files[g["fl"]]
        if not fn.startswith(prog.REPO):
            continue
        ctx.count("globals")
        ok = g["const"] or g["cx"]
        w = "%s:%d" % (os.path.relpath(fn, prog.REPO), g["l"])
        ctx.check(ok, "R07-static", w, "the variable %s with static storage can be written: calls communicate through it" % g["n"], "global:" + g["n"])
    recs = u.recs if isinstance(u.recs, list) else list(u.recs.values())
    rec = {}
    for r in recs:
        fn = u.files[r["fl"]]
        if not fn.startswith(prog.REPO):
            continue
        ctx.count("records")
        rec.setdefault(u.type(r["t"]), r)
        w = "%s:%d" % (os.path.relpath(fn, prog.REPO), r["l"])
        for f in r["fields"]:
            ctx.check(not f.get("mut"), "R07-mutable", w, "%s::%s is mutable: a const operation can change it" % (r["n"], f["n"]), "mutable:%s:%s" % (r["n"], f["n"]))
    allocs = {}
    for f in u.funcs:
        if not f.file.startswith(prog.REPO):
            continue
        ctx.count("functions")
        clocks = {}
        for n in prog.walk(f.d.get("b") or {}):
            k = n.get("k")
            if k == "decl":
                for v in n["v"]:
                    if v.get("static") or v.get("tls"):
                        ctx.check(v.get("const") or v.get("cx"), "R07-static", f.loc(n["l"]), "%s keeps the writable static local %s between calls" % (f.name, v["n"]), "static:%s:%s" % (short(f.name), v["n"]))
                    if v.get("i") and any(x.get("k") == "call" and SOURCE.search(x.get("f") or "") and "::now" in x["f"] for x in prog.children_or_self(v["i"]) for x in [x] + list(prog.walk(x))):
                        clocks[v["d"]] = v["n"]
            if k == "cast":
                ck = n.get("ck")
                if ck == "const_cast":
                    ctx.bad("R07-mutable", f.loc(n["l"]), "%s casts const away" % f.name, "const_cast:" + short(f.name))
                if ck == "PointerToIntegral":
                    ctx.bad("R07-address", f.loc(n["l"]), "%s turns an address into a number" % f.name, "address:" + short(f.name))
            if k in ("call", "ctor"):
                s = n.get("f") or ""
                if re.search(r'(^|::)hash(<.*\*>)?::operator\(\)$', s) and n.get("a") and u.type(n["a"][0].get("t")).rstrip().endswith("*"):
                    ctx.bad("R07-address", f.loc(n["l"]), "%s hashes an address" % f.name, "address:" + short(f.name))
                if k == "ctor" and s.startswith("std::random_device") or k == "call" and SOURCE.search(s):
                    ctx.count("sources")
                    if "::now" in s and not declared(f, s):
                        continue      # decided below
                    ctx.check(declared(f, s), "R07-source", f.loc(n["l"]), "%s reads %s: its result does not depend on its arguments alone" % (f.name, s), "source:%s:%s" % (short(f.name), s))
            if k == "bin" and n["op"] == "=" and own(n["x"]) and n["y"] and n["y"].get("k") == "new" and not f.dep and f.d.get("ct") is not None:
                allocs.setdefault(u.type(f.d["ct"]), (f, own(n["x"]), n["l"]))
        timestamps(ctx, f, u)
    # owners
    for t, (f, fld, line) in allocs.items():
        r = rec.get(t)
        if not r or r["dep"] or short(r["n"]) == "A":   # A<Impl>: a handle on storage that the caller manages (its copy() is the deep copy)
            continue
        ctx.count("owners")
        for what, key in (("copy constructor", "udcc"), ("copy assignment", "udca"), ("destructor", "udd")):
            ctx.check(r[key], "R07-owner", f.loc(line), "%s allocates into %s but has no %s of its own: copies share or lose the storage" % (r["n"], fld, what), "owner:%s:%s" % (r["n"], key))
    # constructors
    ctors = {}
    for f in u.funcs:
        if f.d.get("ctor") and not f.dep and f.file.startswith(prog.REPO):
            ctors.setdefault(u.type(f.d["ct"]), []).append(f)
    for t, r in rec.items():
        if r["dep"] or short(r["n"]) == "(lambda)":
            continue
        sc = [f["n"] for f in r["fields"] if (f.get("scalar") or f.get("ptr")) and not f.get("i")]
        if not sc:
            continue
        for f in ctors.get(t, []):
            d = f.d
            if d.get("deleg") or d.get("imp") or d.get("dfd"):
                continue
            ctx.count("constructors")
            ctx.function(f)
            have = {i.get("n") for i in d["inits"]}
            body = sets_field(d["b"], u, {f.id}) if d.get("b") else set()
            if body is None or "*" in body:
                ctx.check(True, "R07-init", f.loc(), "")
                continue
            key = (short(r["n"]), len(d["ps"]))
            for x in sc:
                ctx.check(x in have or x in body or key in SENTINEL, "R07-init", f.loc(), "this constructor of %s leaves %s without a value" % (short(r["n"]), x), "init:%s:%d:%s" % (key + (x,)))
            # a member initialised from itself
            for i in d["inits"]:
                for e in prog.children_or_self(i.get("e") or {}):
                    if own(e) is not None and own(e) == i.get("n"):
                        ctx.bad("R07-init", f.loc(), "member %s is initialised from itself" % i["n"], "selfinit:%s:%s" % (short(r["n"]), i["n"]))


def timestamps(ctx, f, u):
    """values of a clock flow only into printed messages"""
    b = f.d.get("b")
    if not b:
        return

    def isnow(x):
        return x.get("k") == "call" and "::now" in (x.get("f") or "") and "chrono" in x["f"]
    if not any(isnow(x) for x in prog.walk(b)):
        return
    if declared(f, "now"):
        return
    tainted = set()
    for _ in range(3):
        for n in prog.walk(b):
            if n.get("k") == "decl":
                for v in n["v"]:
                    if v.get("i") and hot(v["i"], tainted, isnow):
                        tainted.add(v["d"])
            if n.get("k") == "bin" and n["op"] == "=" and n["x"].get("k") == "var" and hot(n["y"], tainted, isnow):
                tainted.add(n["x"]["d"])
            if n.get("k") == "call" and n.get("op") == "=" and n.get("o") and n["o"].get("k") == "var" and any(hot(a, tainted, isnow) for a in n["a"]):
                tainted.add(n["o"]["d"])
    ok = []

    def printing(e):
        while e and e.get("k") == "call" and e.get("op") == "<<":
            a = [e["o"]] + e["a"] if e.get("o") else e["a"]
            e = a[0]
            if e.get("k") == "var" and e["n"] in ("std::cout", "std::cerr", "std::clog", "cout", "cerr", "clog"):
                return True
        return False

    def stmt(n):
        k = n.get("k")
        if k == "x":
            e = n["e"]
            if printing(e):
                return
            if e.get("k") in ("bin", "call") and (e.get("op") == "="):
                lhs = e["x"] if e["k"] == "bin" else e.get("o")
                if lhs and lhs.get("k") == "var" and lhs["d"] in tainted and not lhs.get("p"):
                    return
            if hot(e, tainted, isnow):
                ok.append(n["l"])
            return
        if k == "decl":
            return
        if k in ("seq", "if", "for", "while", "do", "rfor", "omp", "try", "switch", "case", "default", "label"):
            for c in ("c", "r", "inc"):
                if n.get(c) and hot(n[c], tainted, isnow):
                    ok.append(n["l"])
            for c in ("s", "x", "y", "b", "init"):
                v = n.get(c)
                for y in (v if isinstance(v, list) else [v]):
                    if isinstance(y, dict):
                        stmt(y)
            return
        if hot(n, tainted, isnow):
            ok.append(n.get("l"))
    stmt(b)
    ctx.check(not ok, "R07-source", f.loc(ok[0] if ok else None), "%s uses the time of day beyond printing it" % f.name, "clock:" + short(f.name))


def hot(e, tainted, isnow):
    for x in prog.children_or_self(e):
        if isnow(x) or (x.get("k") == "var" and x.get("d") in tainted):
            return True
        for y in prog.walk(x):
            if isnow(y) or (y.get("k") == "var" and y.get("d") in tainted):
                return True
    return False


def run(ctx):
    units = prog.load(DRIVERS)
    for u in units:
        check_unit(ctx, u, set())
    ds = diag.run(DRIVERS, FLAGS)
    for f, l, msg, flag in ds:
        ctx.bad("R07-uninit", "%s:%d" % (f, l), "%s [-W%s]" % (msg, flag), "diag:%s:%s" % (os.path.basename(f), re.sub(r'[^\w]+', '-', msg)))
    n = sum(1 for u in units for f in u.funcs if not f.dep and f.file.startswith(prog.REPO))
    ctx.count("function bodies under the compiler's dataflow analysis", n)
    for u in units:
        for f in u.funcs:
            if not f.dep and f.file.startswith(prog.REPO):
                ctx.check(True, "R07-uninit", f.loc(), "")
