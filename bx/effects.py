"""Read/write effects of functions on access paths, with linear index forms.

A path is (root, steps): root is ('P',k) parameter, ('T',) this, ('L',decl)
local, ('G',name) global/static, ('X',) temporary; a step is ('f',field),
('i',index) or ('#',) (header of a container).  An index is a Lin, 'any'
(data dependent or an unbounded scan) or None (not understood).
Summaries are substituted at call sites; recursive functions get contracts
(index range, returned contents, preconditions) inferred by weakening."""
import re
from .lin import Lin, entails, infeasible, relevant

INTS = {"int", "unsigned int", "long", "unsigned long", "size_t", "std::size_t", "ssize_t", "short", "unsigned short", "long long",
        "unsigned long long", "char", "unsigned char", "signed char", "bool"}
ELEM = {"operator[]", "at", "front", "back", "operator()", "data", "operator*", "operator->", "top"}
ITER = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "find", "lower_bound", "upper_bound", "equal_range"}
HEAD = {"size", "empty", "capacity", "max_size", "length", "count", "bucket_count", "load_factor"}
INSERT = {"emplace_back", "push_back", "insert", "emplace", "emplace_hint", "push", "assign"}
BOT = ("bottom",)
KEEPS = {"resize", "reserve", "clear", "erase", "pop_back", "pop", "shrink_to_fit", "rehash", "pop_front", "operator++", "operator--"}
FORWARDS = INSERT | {"make_pair", "make_tuple", "forward", "move", "get", "begin", "end", "min", "max", "operator()", "forward_as_tuple", "operator[]", "find"}
KEEP = 6


def strip(t):
    t = t.replace("const ", "").replace(" const", "").replace("&", "").strip()
    return t


class Acc:
    __slots__ = ("w", "root", "steps", "line", "file", "guards", "prot", "what")

    def __init__(self, w, root, steps, line, file, guards=(), prot=False, what=""):
        self.w, self.root, self.steps, self.line, self.file = w, root, steps, line, file
        self.guards, self.prot, self.what = guards, prot, what

    def key(self):
        return (self.w, self.root, tuple((s[0], s[1].key() if isinstance(s[1], Lin) else s[1]) if s[0] == 'i' else s for s in self.steps), self.prot)

    def text(self):
        r = {"P": "parameter", "L": "local", "G": "global", "T": "this object", "X": "temporary"}[self.root[0]]
        s = "".join(("[%s]" % ("*" if x[1] in ("any", None) else x[1])) if x[0] == 'i' else ("" if x[0] == '#' else "." + str(x[1])) for x in self.steps)
        return "%s%s" % (self.what or r, s)


class Summary:
    def __init__(self):
        self.acc, self.facts, self.ins = [], [], []
        self.ret = None            # ('ref',root,steps) | Lin | ('contents',[contract...]) | None
        self.pre = []              # Lin over params, >= 0
        self.pending = []          # accesses of unfinished tasks
        self.throws = False


class Event:
    """something the rule wants to know: parallel loops, tasks, regions"""

    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


class Effects:
    def __init__(self, unit):
        self.u = unit
        self.memo = {}
        self.active = []
        self.events = {}           # fid -> [Event]
        self.n = 0
        self.scc = {}              # fid -> contract Summary (during inference)
        self.contracts = {}
        self._callees = {}

    # -- call graph -------------------------------------------------
    def callees(self, fid):
        r = self._callees.get(fid)
        if r is None:
            r = set()
            f = self.u.byid.get(fid)
            if f is not None:
                from .prog import walk
                for n in walk(f.d):
                    if n.get("k") in ("call", "ctor", "fn") and "fid" in n and n["fid"] in self.u.byid:
                        r.add(n["fid"])
            self._callees[fid] = r
        return r

    def recursive_with(self, fid):
        """functions in the same strongly connected component (when recursive)"""
        down, stack = set(), [fid]
        while stack:
            x = stack.pop()
            for y in self.callees(x):
                if y not in down:
                    down.add(y)
                    stack.append(y)
        if fid not in down:
            return set()
        out = set()
        for g in down:
            seen, st = set(), [g]
            while st:
                x = st.pop()
                for y in self.callees(x):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            if fid in seen:
                out.add(g)
        return out

    def fresh(self, name, any_=False):
        self.n += 1
        return ("u" if any_ == "u" else "any" if any_ else "s", "%s#%d" % (name, self.n))

    # -- summaries --------------------------------------------------
    def summary(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        if fid in self.scc:
            return self.scc[fid]
        f = self.u.byid.get(fid)
        if f is None or f.dep or not f.d.get("b"):
            return None
        comp = self.recursive_with(fid)
        if comp:
            if fid in self.active:
                return "top"
            self.infer(comp)
            return self.memo.get(fid, "top")
        if fid in self.active:
            return "top"
        self.active.append(fid)
        try:
            w = Walk(self, f)
            s = w.run()
            self.events[fid] = w.events
        finally:
            self.active.pop()
        self.memo[fid] = s
        return s

    def infer(self, comp):
        """Houdini-style contracts for a recursive component"""
        comp = sorted(comp)
        cons = {}
        for fid in comp:
            f = self.u.byid[fid]
            if f.dep or not f.d.get("b"):
                self.memo[fid] = "top"
                continue
            c = Contract(self, f)
            cons[fid] = c
        # where the recursion is entered from outside
        outer = [g for g in self.u.funcs if not g.dep and g.d.get("b") and g.id not in cons and self.callees(g.id) & set(cons)]
        entry = []
        for fid, c in cons.items():
            self.scc[fid] = c.summary()
        for g in outer:
            w = Walk(self, g)
            w.calls = entry
            self.active.append(g.id)
            w.run(raw=True)
            self.active.pop()
        for fid, c in cons.items():
            if not any(e[0] in cons for e in entry):
                c.pre = []
        for callee, args, facts, guards in entry:
            if callee in cons:
                cons[callee].weaken_pre(args, facts, guards)
        for it in range(14):
            for fid, c in cons.items():
                self.scc[fid] = c.summary()
            changed = False
            calls = []
            for fid, c in cons.items():
                self.active.append(fid)
                w = Walk(self, c.f)
                w.calls = calls
                w.assume = [p for p in c.pre]
                s = w.run(raw=True)
                self.active.pop()
                self.events[fid] = w.events
                changed |= c.weaken(w, s)
            for callee, args, facts, guards in calls:
                if callee in cons:
                    changed |= cons[callee].weaken_pre(args, facts, guards)
            if not changed:
                break
        for fid, c in cons.items():
            self.memo[fid] = c.summary()
            self.contracts[fid] = c
            self.scc.pop(fid, None)


class Contract:
    def __init__(self, eff, f):
        self.eff, self.f = eff, f
        self.ints = [k for k, p in enumerate(f.d["ps"]) if strip(eff.u.type(p["t"])) in INTS and p.get("ref") != 1]
        self.pre = []
        for a in self.ints:
            for b in self.ints:
                if a != b:
                    for c in (4, 3, 2, 1, 0):
                        self.pre.append(Lin({('p', b): 1, ('p', a): -1}, -c))
        self.groups = {}     # (w, root, prefix, prot) -> (bounds or None, sample access)
        self.plain = {}
        self.ret = None
        self.pending = []
        self.throws = False
        self.started = False

    def cand(self):
        e = ('e',)
        out = []
        for p in self.ints:
            out.append(Lin({e: 1, ('p', p): -1}))          # e >= p
            out.append(Lin({e: -1, ('p', p): 1}, -1))      # e <= p-1
            out.append(Lin({e: -1, ('p', p): 1}))          # e <= p
        return out

    def summary(self):
        s = Summary()
        for (w, root, pre, prot), (b, a) in self.groups.items():
            sym = self.eff.fresh("e")
            if b:
                g = tuple(x.subst({('e',): Lin.sym(sym)}) for x in b)
                s.acc.append(Acc(w, root, pre + (('i', Lin.sym(sym)),), a.line, a.file, g, prot, a.what))
            else:
                s.acc.append(Acc(w, root, pre + (('i', 'any'),), a.line, a.file, (), prot, a.what))
        s.acc += list(self.plain.values())
        s.ret = self.ret
        s.pre = list(self.pre)
        s.throws = self.throws
        s.contract = True
        s.first = not self.started
        return s

    def weaken(self, w, s):
        changed = False
        self.started = True
        for a in s.acc:
            if a.root[0] not in "PTG":
                continue
            k = next((i for i, x in enumerate(a.steps) if x[0] == 'i'), None)
            if k is None:
                if a.key() not in self.plain:
                    self.plain[a.key()] = Acc(a.w, a.root, a.steps, a.line, a.file, (), a.prot, a.what)
                    changed = True
                continue
            g = (a.w, a.root, a.steps[:k], a.prot)
            idx = a.steps[k][1]
            if g not in self.groups:
                self.groups[g] = (self.cand(), a)
                changed = True
            b, smp = self.groups[g]
            if not b:
                continue
            if not isinstance(idx, Lin):
                self.groups[g] = ([], a)
                changed = True
                continue
            keep = [x for x in b if entails(s.facts + list(a.guards), x.subst({('e',): idx}))]
            if len(keep) != len(b):
                self.groups[g] = (keep, a)
                changed = True
        r = w.retval
        if r != "none":
            new = self.join_ret(self.ret, r, s.facts)
            if repr(new) != repr(self.ret):
                self.ret = new
                changed = True
        self.throws |= s.throws
        return changed

    def join_ret(self, old, rets, facts):
        if old == ("top",):
            return old
        out = old
        for v, guards in rets:
            if isinstance(v, Lin):
                b = self.cand() if out is None else (out[1] if out[0] == "range" else None)
                if b is None:
                    return ("top",)
                out = ("range", [x for x in b if entails(facts + list(guards), x.subst({('e',): v}))])
            elif isinstance(v, tuple) and v and v[0] == "contents":
                n = len(v[1])
                if out is None:
                    out = ("contents", [self.cand() for _ in range(n)])
                if out[0] != "contents" or len(out[1]) != n:
                    return ("top",)
                res = []
                for k in range(n):
                    got = v[1][k]
                    if got is None:
                        res.append([])
                        continue
                    e = Lin.sym(('e',))
                    res.append([x for x in out[1][k] if entails(facts + list(guards) + got, x)])
                out = ("contents", res)
            else:
                return ("top",)
        return out

    def weaken_pre(self, args, facts, guards):
        m = {('p', k): (a if isinstance(a, Lin) else None) for k, a in enumerate(args)}
        keep = []
        for x in self.pre:
            if any(m.get(s) is None for s in x.c):
                continue
            if entails(list(facts) + list(guards), x.subst(m)):
                keep.append(x)
        ch = len(keep) != len(self.pre)
        self.pre = keep
        return ch


class Walk:
    def __init__(self, eff, f):
        self.eff, self.u, self.f = eff, eff.u, f
        self.env = {}
        self.facts = []
        self.guards = []
        self.acc = []
        self.ins = {}          # local container decl -> [(Lin|list of constraints|None, guards)]
        self.pins = []
        self.rets = []
        self.events = []
        self.calls = None
        self.assume = []
        self.prot = 0
        self.pending = []      # [(accesses, line)]
        self.names = {}
        self.region = []       # lexical parallel constructs
        self.contents = {}     # local decl -> constraints over ('e',)
        self.throws = False
        self.fresh_log = None
        self.declared = [set()]
        self.intry = 0
        self.lamdepth = 0
        self.ptrs = set()
        self.vtype = {}
        self.alts = {}         # merged values: the two cases
        self.symfacts = {}     # facts about a value that exists only if it was read

    # ---------------- entry
    def run(self, raw=False):
        f = self.f
        for k, p in enumerate(f.d["ps"]):
            self.names[('P', k)] = p["n"]
            if self.isint(p["t"]) and p.get("ref") != 1:
                self.env[p["d"]] = Lin.sym(('p', k))
                self.vtype[p["d"]] = p["t"]
                if self.unsigned(p["t"]):
                    self.facts.append(Lin.sym(('p', k)))
            else:
                self.env[p["d"]] = ('ref', ('P', k), ())
        self.facts += self.assume
        base = (dict(self.env), list(self.facts))
        c0 = len(self.calls) if self.calls is not None else 0
        for it in range(12):
            self.env, self.facts = dict(base[0]), list(base[1])
            self.guards, self.acc, self.rets, self.events, self.pending, self.pins = [], [], [], [], [], []
            oldins, self.ins = self.ins, {}
            self.pmark = 0
            if self.calls is not None:
                del self.calls[c0:]
            for i in f.d.get("inits") or []:
                if i.get("e"):
                    v = self.ev(i["e"])
                    self.read(v, i.get("l", f.line))
                    if "n" in i:
                        self.log(1, ('T',), (('f', i["n"]),), i.get("l", f.line))
            self.stmt(f.d["b"])
            if not self.refine():
                break
        self.retval = self.rets or "none"
        s = Summary()
        s.facts, s.throws = self.facts, self.throws
        s.acc = self.acc
        s.ret = self.finalret()
        s.pending = self.pending
        if self.pending:
            self.flush()
            self.events.append(Event("pending", line=self.pending[0][1], acc=[a for p in self.pending for a in p[0]]))
        if raw:
            return s
        return self.compact(s)

    def refine(self):
        """contents of local containers: weaken candidate bounds until inductive"""
        changed = False
        ints = [('p', k) for k, p in enumerate(self.f.d["ps"]) if self.isint(p["t"]) and p.get("ref") != 1]
        for d, vals in self.ins.items():
            cur = self.contents.get(d)
            if cur is None:
                e = ('e',)
                cur = []
                for p in ints:
                    cur += [Lin({e: 1, p: -1}), Lin({e: -1, p: 1}, -1), Lin({e: -1, p: 1})]
                self.contents[d] = cur
                changed = True
                continue
            keep = []
            for x in cur:
                ok = True
                for v, guards, facts in vals:
                    if isinstance(v, Lin):
                        ok = entails(facts + guards, x.subst({('e',): v}))
                    elif isinstance(v, list):
                        ok = entails(facts + guards + v, x)
                    else:
                        ok = False
                    if not ok:
                        break
                if ok:
                    keep.append(x)
            if len(keep) != len(cur):
                changed = True
            self.contents[d] = keep
        return changed

    def finalret(self):
        if not self.rets:
            return None
        vals = [v for v, g in self.rets]
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, tuple) and v and v[0] == "ref" and v[1][0] in "PTG":
                return v
            if isinstance(v, Lin) and all(s[0] == 'p' for s in v.c):
                return v
            if isinstance(v, tuple) and v and v[0] == "contents":
                return v
        return None

    def compact(self, s):
        """summary over parameters only"""
        out, seen = [], set()
        for a in s.acc:
            if a.root[0] not in "PTG":
                continue
            st = []
            for x in a.steps[:KEEP]:
                if x[0] == 'i' and isinstance(x[1], Lin):
                    if any(y[0] != 'p' and y[0] != 'elem' for y in x[1].c):
                        own = [y for y in x[1].c if y[0] not in ('p', 'elem')]
                        rel = relevant(s.facts + list(a.guards), own)
                        bounded = any(any(z[0] == 'p' for z in c.c) for c in rel) and not any(y[0] == 'any' for y in own)
                        if not bounded:
                            x = ('i', None if any(y[0] == 'u' for y in own) or any(z[0] == 'u' for c in rel for z in c.c) else 'any')
                st.append(x)
            b = Acc(a.w, a.root, tuple(st), a.line, a.file, a.guards if any(x[0] == 'i' and isinstance(x[1], Lin) for x in st) else (), a.prot, a.what)
            k = b.key()
            if k in seen:
                continue
            seen.add(k)
            out.append(b)
        plain = {(a.w, a.root, a.steps) for a in out if not any(x[0] == 'i' and isinstance(x[1], Lin) for x in a.steps)}
        res = []
        for a in out:
            # drop what a coarser access already covers
            cov = False
            for k in range(len(a.steps)):
                if (a.w, a.root, a.steps[:k]) in plain and k < len(a.steps):
                    cov = True
            if not cov:
                res.append(a)
        s.acc = res
        used = set()
        for a in res:
            for x in a.steps:
                if x[0] == 'i' and isinstance(x[1], Lin):
                    used |= set(x[1].c)
            for g in a.guards:
                used |= set(g.c)
        s.facts = relevant(s.facts, used, 200)
        s.ins = self.pins
        return s

    # ---------------- helpers
    def isint(self, t):
        return strip(self.u.type(t)) in INTS

    def sf(self, *vals):
        out, todo, seen = [], [], set()
        for v in vals:
            if isinstance(v, Lin):
                todo += list(v.c)
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            for x in self.symfacts.get(y, ()):
                out.append(x)
                todo += list(x.c)
        return out

    def log(self, w, root, steps, line, file=None, guards=None, what=None):
        if root[0] == 'X':
            return
        if guards is None:
            guards = tuple(self.guards + self.sf(*[x[1] for x in steps if x[0] == 'i']))
        self.acc.append(Acc(w, root, tuple(steps), line, file or self.f.rel(), tuple(self.guards) if guards is None else guards,
                            bool(self.prot), what or self.names.get(root, "")))

    def read(self, v, line):
        if isinstance(v, tuple) and v and v[0] in ("ref", "iter"):
            if v[0] == "ref":
                self.log(0, v[1], v[2], line)

    def write(self, v, line):
        if isinstance(v, tuple) and v and v[0] in ("ref", "iter"):
            self.log(1, v[1], v[2], line)

    def newsym(self, name, any_=False, t=None):
        s = self.eff.fresh(name, any_)
        if t is None or (isinstance(t, int) and self.unsigned(t)):
            if t is not None:
                self.facts.append(Lin.sym(s))
        return s

    def unsigned(self, t):
        x = strip(self.u.type(t))
        return "unsigned" in x or x in ("size_t", "std::size_t", "bool")

    def elemval(self, root, steps):
        """value read out of an element of an integer container"""
        if root[0] == 'L' and root[1] in self.contents and self.contents[root[1]]:
            s = self.newsym("elem")
            self.symfacts[s] = [x.subst({('e',): Lin.sym(s)}) for x in self.contents[root[1]]]
            return Lin.sym(s)
        if root[0] == 'P':
            return Lin.sym(('elem', root[1], self.newsym("el")[1]))
        return Lin.sym(self.newsym("data"))

    def lin(self, v, node=None):
        """integer value of an evaluated expression"""
        if isinstance(v, Lin):
            return v
        if isinstance(v, tuple) and v and v[0] == "ref":
            root, steps = v[1], v[2]
            if root[0] == 'L' and not steps and root[1] in self.env and isinstance(self.env[root[1]], Lin):
                return self.env[root[1]]
            return self.elemval(root, steps)
        return None

    # ---------------- expressions
    def ev(self, n):
        if n is None:
            return None
        k = n.get("k")
        m = getattr(self, "e_" + k, None)
        if m:
            return m(n)
        for key in ("e", "a", "x", "y", "b", "i", "c", "o", "ch"):
            v = n.get(key)
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, dict):
                    self.read(self.ev(c), c.get("l", 0))
        return None

    def e_int(self, n):
        v = n.get("v")
        return Lin({}, v) if isinstance(v, int) else None

    def e_bool(self, n):
        return Lin({}, int(bool(n.get("v"))))

    def e_chr(self, n):
        return None

    def e_this(self, n):
        return ('ref', ('T',), ())

    def e_var(self, n):
        d = n["d"]
        if n.get("g") == "static" and d in self.env:
            return self.env[d]
        if n.get("g"):
            if n["g"] == "const":
                return None
            nm = n["n"]
            if nm.startswith("std::"):
                return None
            self.names[('G', nm)] = nm
            return ('ref', ('G', nm), ())
        v = self.env.get(d)
        if v is None:
            self.names.setdefault(('L', d), n["n"])
            return ('ref', ('L', d), ())
        return v

    def e_cast(self, n):
        v = self.ev(n.get("e"))
        if self.isint(n.get("t", -1)) if n.get("t") is not None else False:
            if isinstance(v, tuple) and v and v[0] == "ref":
                self.read(v, n["l"])
                return self.lin(v)
        return v

    def e_mem(self, n):
        if n.get("mf"):
            return None
        b = self.ev(n.get("b")) if n.get("b") else None
        if isinstance(b, tuple) and b and b[0] == "ref":
            return ('ref', b[1], b[2] + (('f', n["n"]),))
        if isinstance(b, tuple) and b and b[0] == "iter":
            return ('ref', b[1], b[2] + (('f', n["n"]),))
        return ('ref', ('X',), ())

    def e_idx(self, n):
        b = self.ev(n["b"])
        i = self.ival(n["i"])
        if isinstance(b, tuple) and b and b[0] in ("ref", "iter"):
            return ('ref', b[1], b[2] + (('i', self.idx(i)),))
        return ('ref', ('X',), ())

    def idx(self, l):
        if not isinstance(l, Lin):
            return None
        if any(s[0] == 'any' for s in l.c):
            return 'any'
        return l

    def ival(self, n):
        v = self.ev(n)
        self.read(v, n.get("l", 0))
        return self.lin(v)

    def e_cond(self, n):
        t = self.cond(n["c"])
        k = len(self.acc)
        e = self.cond(n["c"], False)
        del self.acc[k:]
        a = self.ev(n["x"])
        self.read(a, n["l"])
        b = self.ev(n["y"])
        self.read(b, n["l"])
        la, lb = (a if isinstance(a, Lin) else None), (b if isinstance(b, Lin) else None)
        if la is not None and lb is not None:
            return la if la == lb else self.merge(la, lb, t, e)
        return None

    def merge(self, a, b, t, e):
        """one of two values: a new symbol with the bounds that hold either way (t, e: facts of the two cases)"""
        sy = self.newsym("m", "u")
        m = Lin.sym(sy)
        cand = []
        for x in [a, b] + [Lin({s: v}) for f in t + e for s, v in f.c.items() if v == 1] + [Lin({s: 1}) for f in t + e for s, v in f.c.items() if v == -1]:
            if x not in cand:
                cand.append(x)
        base = self.facts + self.guards
        fs = []
        for x in cand[:12]:
            for sg in (1, -1):
                if all(entails(base + c, (x - v).scale(sg)) for v, c in ((a, t), (b, e))):
                    fs.append((x - m).scale(sg))
        if fs:
            self.symfacts[sy] = fs + self.sf(a, b)
        if t and e:
            self.alts[sy] = [[m - a, a - m] + t, [m - b, b - m] + e]
        return m

    def e_un(self, n):
        op = n["op"]
        if op in ("++", "--"):
            t = n["e"]
            v = self.ev(t)
            if t.get("k") == "var" and t["d"] in self.env and isinstance(self.env[t["d"]], Lin):
                old = self.env[t["d"]]
                self.wrvar(t, n["l"])
                self.env[t["d"]] = old + (1 if op == "++" else -1)
                return old if n.get("post") else self.env[t["d"]]
            self.read(v, n["l"])
            self.write(v, n["l"])
            return v
        v = self.ev(n["e"])
        if op == "*":
            if isinstance(v, tuple) and v and v[0] in ("iter", "ref"):
                return ('ref', v[1], v[2] + ((('i', None),) if v[0] == "ref" and not (v[2] and v[2][-1][0] == 'i') else ()))
            return ('ref', ('X',), ())
        if op == "&":
            return v
        self.read(v, n["l"])
        if op == "-":
            l = self.lin(v)
            return -l if l is not None else None
        return None

    def wrvar(self, t, line):
        """a write to an integer variable (outer variables matter inside parallel code)"""
        self.log(1, ('L', t["d"]), (), line, what=t["n"])

    def havoc_int(self, d, name="v"):
        self.env[d] = Lin.sym(self.newsym(name, "u", t=self.vtype.get(d)))

    def e_bin(self, n):
        op = n["op"]
        if op == ",":
            self.ev(n["x"])
            return self.ev(n["y"])
        if op in ("&&", "||"):
            self.read(self.ev(n["x"]), n["l"])
            self.read(self.ev(n["y"]), n["l"])
            return None
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            y = self.ev(n["y"])
            self.read(y, n["l"])
            t = n["x"]
            if t.get("k") == "var" and t["d"] in self.env and isinstance(self.env[t["d"]], Lin):
                old = self.env[t["d"]]
                ly = self.lin(y)
                self.wrvar(t, n["l"])
                if op == "=" and ly is not None:
                    self.env[t["d"]] = ly
                elif op in ("+=", "-=") and ly is not None:
                    self.env[t["d"]] = old + ly if op == "+=" else old - ly
                else:
                    self.havoc_int(t["d"], t["n"])
                return self.env[t["d"]]
            if t.get("k") == "var" and t["d"] not in self.env and self.isint(t.get("t", -1)) and not t.get("g"):
                self.wrvar(t, n["l"])
                ly = self.lin(y)
                self.env[t["d"]] = ly if ly is not None and op == "=" else Lin.sym(self.newsym(t["n"], "u", t=t.get("t")))
                return self.env[t["d"]]
            if op == "=" and t.get("k") == "var" and t["d"] in self.ptrs:
                self.wrvar(t, n["l"])
                if isinstance(y, tuple) and y and y[0] in ("ref", "iter"):
                    self.env[t["d"]] = y
                else:
                    self.env[t["d"]] = ('ref', ('X',), ())
                return y
            x = self.ev(t)
            if op != "=":
                self.read(x, n["l"])
            self.write(x, n["l"])
            if op == "=":
                self.put(x, self.lin(y) if self.isint(n.get("t", -1)) else None)
            return x
        x = self.ev(n["x"])
        y = self.ev(n["y"])
        self.read(x, n["l"])
        self.read(y, n["l"])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return None
        if isinstance(x, tuple) and x and x[0] == "iter":
            return x
        lx, ly = self.lin(x), self.lin(y)
        if lx is None or ly is None:
            return None
        if op == "+":
            return lx + ly
        if op == "-":
            return lx - ly
        if op == "*":
            if lx.const() is not None:
                return ly.scale(lx.const())
            if ly.const() is not None:
                return lx.scale(ly.const())
            return None
        if op in ("/", ">>") and ly.const() is not None and ly.const() > 0:
            d = ly.const() if op == "/" else 1 << ly.const()
            if d == 1:
                return lx
            s = Lin.sym(self.newsym("q"))
            self.facts += [lx - s.scale(d), s.scale(d) + (d - 1) - lx]
            return s
        if op == "%" and ly.const() is not None and ly.const() > 0:
            s = Lin.sym(self.newsym("r"))
            self.facts += [s, Lin({}, ly.const() - 1) - s]
            return s
        return None

    def put(self, x, val):
        """a value is stored in an element of a container"""
        if isinstance(x, tuple) and x and x[0] == "ref" and x[2] and x[2][-1][0] == 'i':
            self.insert(x[1], val)

    def insert(self, root, val):
        if root[0] == 'L':
            self.ins.setdefault(root[1], []).append((val, self.guards + self.sf(val), list(self.facts)))
        elif root[0] == 'P':
            self.pins.append((root[1], val, self.guards + self.sf(val)))

    def e_il(self, n):
        for a in n.get("a", []):
            self.read(self.ev(a), n["l"])
        return None

    def e_lambda(self, n):
        f = self.u.byid.get(n.get("fid"))
        if f is not None and f.d.get("b") and self.lamdepth < 3:
            self.lamdepth += 1
            env = dict(self.env)
            for p in f.d["ps"]:
                self.env[p["d"]] = ('ref', ('X',), ())
            r, self.rets = self.rets, []
            self.stmt(f.d["b"])
            self.rets = r
            self.lamdepth -= 1
            self.env.update({k: v for k, v in env.items()})
        return None

    def e_ctor(self, n):
        fid = n.get("fid")
        args = [self.ev(a) for a in n.get("a", [])]
        if n.get("f", "").startswith("std::") or fid not in self.u.byid:
            for a, x in zip(args, n.get("a", [])):
                self.read(a, n["l"])
            if (n.get("cp") or n.get("mv")) and args and isinstance(args[0], tuple) and args[0] and args[0][0] == "iter":
                return args[0]
            return ('ref', ('X',), ())
        if (n.get("cp") or n.get("mv")) and args and isinstance(args[0], tuple):
            self.read(args[0], n["l"])
            if args[0] and args[0][0] == "ref" and args[0][1][0] == 'X':
                return args[0]
            return ('ref', ('X',), ())
        self.apply(fid, ('ref', ('X',), ()), args, n)
        return ('ref', ('X',), ())

    def e_new(self, n):
        for key in ("n", "e", "a"):
            v = n.get(key)
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, dict):
                    self.read(self.ev(c), n["l"])
        return ('ref', ('X',), ())

    def e_delete(self, n):
        v = self.ev(n["e"])
        self.write(v, n["l"])

    def e_throw(self, n):
        if n.get("e"):
            self.ev(n["e"])
        if not self.intry:
            self.throws = True
            self.events.append(Event("throw", line=n["l"], region=list(self.region)))
        return None

    def e_fn(self, n):
        return None

    def e_str(self, n):
        return None

    def e_call(self, n):
        name = n.get("f", "")
        bare = name.split("::")[-1]
        o = n.get("o")
        args_n = n.get("a", [])
        if name in ("std::min", "std::max") and len(args_n) == 2:
            a, b = self.ival(args_n[0]), self.ival(args_n[1])
            if a is None or b is None:
                return None
            s = Lin.sym(self.newsym(bare))
            self.facts += [a - s, b - s] if bare == "min" else [s - a, s - b]
            return s
        if name in ("std::move", "std::forward", "std::as_const", "std::cref", "std::ref") and args_n:
            return self.ev(args_n[0])
        if name == "std::get" and args_n:
            v = self.ev(args_n[0])
            if isinstance(v, tuple) and v and v[0] == "ref":
                return ('ref', v[1], v[2] + (('f', "get"),))
            return v
        if name in ("std::make_tuple", "std::make_pair", "std::tie", "std::forward_as_tuple"):
            vs = [self.ev(a) for a in args_n]
            if bare != "tie":
                for v in vs:
                    self.read(v, n["l"])
            return ("tuple", vs)
        fid = n.get("fid")
        if o is None and "fx" in n:
            self.read(self.ev(n["fx"]), n["l"])
            for a in args_n:
                self.read(self.ev(a), n["l"])
            return None
        # assignment of a tuple of locals
        if n.get("op") == "=" and o is not None and o.get("k") == "call" and o.get("f") == "std::tie":
            rv = self.ev(args_n[0])
            targets = [self.ev(a) for a in o.get("a", [])]
            if rv is BOT:
                for t in targets:
                    self.write(t, n["l"])
                    if isinstance(t, tuple) and t and t[0] == "ref" and t[1][0] == 'L' and not t[2]:
                        self.ins.setdefault(t[1][1], [])
                return None
            cont = rv[1] if isinstance(rv, tuple) and rv and rv[0] == "contents" else None
            for k, t in enumerate(targets):
                self.write(t, n["l"])
                if isinstance(t, tuple) and t and t[0] == "ref" and t[1][0] == 'L' and not t[2]:
                    c = cont[k] if cont is not None and k < len(cont) else None
                    self.ins.setdefault(t[1][1], []).append((c, list(self.guards), list(self.facts)))
            return None
        ov = self.ev(o) if o is not None else None
        args = [self.ev(a) for a in args_n]
        if fid in self.u.byid and self.u.byid[fid].d.get("b") and not self.u.byid[fid].d.get("dfd"):
            return self.apply(fid, ov, args, n)
        line = n["l"]
        # defaulted assignment operators
        if n.get("op") == "=" and o is not None:
            for a in args:
                self.read(a, line)
            self.write(ov, line)
            if isinstance(ov, tuple) and ov and ov[0] == "ref" and ov[1][0] == 'L' and not ov[2]:
                src = args[0] if args else None
                self.assigned_content(ov[1][1], src)
            return ov
        # library code
        mr = set(n.get("mr", []))
        if o is not None:
            return self.stdmethod(n, bare, ov, args, mr)
        for k, a in enumerate(args):
            if isinstance(a, tuple) and a and a[0] == "iter":
                if bare in ("sort", "stable_sort", "fill", "iota", "reverse", "shuffle", "copy", "transform", "partial_sort", "nth_element",
                            "swap_ranges", "generate", "fill_n", "rotate", "unique", "remove_if", "remove", "swap", "partition", "iter_swap"):
                    self.log(1, a[1], a[2], line)
                self.log(0, a[1], a[2], line)
            elif k in mr:
                if bare not in ("make_pair", "make_tuple", "get", "forward", "move", "begin", "end"):
                    self.write(a, line)
                else:
                    self.read(a, line)
            else:
                self.read(a, line)
        if bare in ("begin", "end", "cbegin", "cend", "next", "prev") and args and isinstance(args[0], tuple) and args[0]:
            if args[0][0] == "ref":
                return ('iter', args[0][1], args[0][2] + (('i', None),))
            return args[0]
        if n.get("op") in ("*", "->") and args and isinstance(args[0], tuple) and args[0] and args[0][0] == "iter":
            return ('ref', args[0][1], args[0][2])
        if n.get("op") in ("+", "-") and args and isinstance(args[0], tuple) and args[0] and args[0][0] == "iter":
            return args[0]
        return None

    def assigned_content(self, d, src):
        if src is BOT:
            return
        c = None
        if isinstance(src, tuple) and src and src[0] == "ref" and src[1][0] == 'L' and not src[2]:
            c = self.contents.get(src[1][1])
        self.ins.setdefault(d, []).append((list(c) if c else None, list(self.guards), list(self.facts)))

    def stdmethod(self, n, bare, ov, args, mr):
        line = n["l"]
        isobj = isinstance(ov, tuple) and ov and ov[0] in ("ref", "iter")
        for k, a in enumerate(args):
            if isinstance(a, tuple) and a and a[0] == "iter":
                self.log(0, a[1], a[2], line)
            elif k in mr and bare not in INSERT and bare != "operator()":
                self.write(a, line)
            elif bare == "operator()" and k in mr:
                self.write(a, line)
            else:
                self.read(a, line)
        if not isobj:
            return None
        kind, root, steps = ov
        if kind == "iter":
            if bare in ("operator*", "operator->"):
                return ('ref', root, steps)
            if bare in ("operator++", "operator--", "operator+=", "operator-=", "operator+", "operator-"):
                return ov
            return None
        cls = n.get("f", "")
        if bare in ("operator[]", "at") and ("map" in cls):
            if bare == "operator[]":
                self.log(1, root, steps, line)     # may insert
            else:
                self.log(0, root, steps, line)
            return ('ref', root, steps + (('i', 'any'),))
        if bare in ("operator[]", "at") or (bare in ("operator*", "operator->") and "iterator" not in cls):
            i = self.lin(args[0]) if args else None
            self.log(0, root, steps + (('#',),), line)
            if "vector<bool" in self.u.type(n.get("t", -1)) or "_Bit_reference" in self.u.type(n.get("t", -1)):
                return ('ref', root, steps + (('f', "bits"),))
            return ('ref', root, steps + (('i', self.idx(i)),))
        if bare in ("operator*", "operator->"):
            return ('ref', root, steps)
        if bare in ("front", "back", "top"):
            self.log(0, root, steps + (('#',),), line)
            return ('ref', root, steps + (('i', Lin({}, 0) if bare == "front" else None),))
        if bare in ITER or bare == "data":
            self.log(0, root, steps + (('#',),), line)
            return ('iter', root, steps + (('i', None),))
        if bare in HEAD:
            self.log(0, root, steps + (('#',),), line)
            return Lin.sym(('sz', (root, steps))) if bare == "size" and not any(s[0] == 'i' for s in steps) else None
        if n.get("cm"):
            self.log(0, root, steps, line)
            return None
        if bare in INSERT and root[0] in "LP" and not steps:
            v = self.lin(args[-1]) if args and (isinstance(args[-1], Lin) or (isinstance(args[-1], tuple) and args[-1] and args[-1][0] == "ref")) and \
                self.isint(n["a"][-1].get("t", -1)) else None
            self.insert(root, v)
        elif bare not in KEEPS and root[0] in "LP" and not steps:
            self.insert(root, None)
        self.log(0, root, steps, line)
        self.log(1, root, steps, line)
        if n.get("op") in ("++", "--", "+=", "=", "-="):
            return ov
        return None

    def apply(self, fid, ov, args, n):
        """call of a function whose body is known"""
        line = n["l"]
        g = self.u.byid[fid]
        s = self.eff.summary(fid)
        ints = []
        for k, p in enumerate(g.d["ps"]):
            a = args[k] if k < len(args) else None
            if self.isint(p["t"]) and p.get("ref") != 1:
                self.read(a, line)
                ints.append(self.lin(a))
            else:
                ints.append(None)
        if s is None or s == "top":
            for k, a in enumerate(args):
                if k in (n.get("mr") or []):
                    self.write(a, line)
                    if isinstance(a, tuple) and a and a[0] == "ref" and not a[2]:
                        self.insert(a[1], None)
                self.read(a, line)
            if ov is not None:
                self.read(ov, line)
                if not n.get("cm"):
                    self.write(ov, line)
            return None
        if self.calls is not None:
            self.calls.append((fid, ints, list(self.facts), self.guards + self.sf(*ints)))
        if getattr(s, "contract", False) and not self.eff.scc.get(fid):
            self.events.append(Event("precall", line=line, fid=fid, args=ints, pre=s.pre, facts=self.facts, guards=self.guards + self.sf(*ints)))
        sub = {}
        for k, v in enumerate(ints):
            if v is not None:
                sub[('p', k)] = v
        ren = {}

        def mapsym(y):
            if y in sub:
                return sub[y]
            if y[0] == 'p':
                r = ren.get(y)
                if r is None:
                    r = ren[y] = Lin.sym(self.newsym("arg", "u"))
                return r
            if y[0] == 'elem':
                r = ren.get(y)
                if r is None:
                    a = args[y[1]] if y[1] < len(args) else None
                    if isinstance(a, tuple) and a and a[0] == "ref":
                        r = self.elemval(a[1], a[2])
                    else:
                        r = Lin.sym(self.newsym("data"))
                    ren[y] = r
                return r
            if y[0] == 'sz':
                r = ren.get(y)
                if r is None:
                    r = ren[y] = Lin.sym(self.newsym("size"))
                return r
            r = ren.get(y)
            if r is None:
                r = ren[y] = Lin.sym(self.newsym(str(y[1]).split("#")[0], "u" if y[0] == 'u' else y[0] == 'any'))
            return r

        def mp(l):
            return l.subst({y: mapsym(y) for y in l.c})

        facts = [mp(x) for x in s.facts]
        self.facts += [x for x in facts if x is not None]
        for a in s.acc:
            r = self.place(a.root, ov, args, g)
            if r is None:
                continue
            root, steps = r
            st = []
            for x in a.steps:
                if x[0] == 'i' and isinstance(x[1], Lin):
                    x = ('i', self.idx(mp(x[1])))
                st.append(x)
            gs = tuple(self.guards + self.sf(*[x[1] for x in tuple(steps) + tuple(st) if x[0] == 'i'])) + tuple(y for y in (mp(x) for x in a.guards) if y is not None)
            if root[0] == 'X':
                continue
            self.acc.append(Acc(a.w, root, (tuple(steps) + tuple(st))[:KEEP + 2], line, self.f.rel(), gs, bool(self.prot) or a.prot,
                                self.names.get(root, "") or (a.what if root[0] == 'G' else "")))
        for k, v, gs in s.ins:
            a = args[k] if k < len(args) else None
            if isinstance(a, tuple) and a and a[0] == "ref" and not a[2]:
                self.insert(a[1], mp(v) if isinstance(v, Lin) else None)
        if s.pending:
            self.events.append(Event("callpending", line=line, fid=fid))
        r = s.ret
        if getattr(s, "first", False):
            return BOT
        if isinstance(r, tuple) and r and r[0] == "ref":
            p = self.place(r[1], ov, args, g)
            if p is None:
                return None
            st = tuple(('i', self.idx(mp(x[1]))) if x[0] == 'i' and isinstance(x[1], Lin) else x for x in r[2])
            return ('ref', p[0], tuple(p[1]) + st)
        if isinstance(r, Lin):
            return mp(r)
        if isinstance(r, tuple) and r and r[0] == "range":
            es = self.newsym("ret")
            e = Lin.sym(es)
            for x in r[1]:
                y = x.subst({z: (e if z == ('e',) else mapsym(z)) for z in x.c})
                self.guards.append(y)
            return e
        if isinstance(r, tuple) and r and r[0] == "contents":
            out = []
            for c in r[1]:
                out.append(None if c is None else [x.subst({z: (Lin.sym(z) if z == ('e',) else mapsym(z)) for z in x.c}) for x in c])
            return ("contents", out)
        rt = self.u.type(g.d["ret"])
        if r is None and ("*" in rt or rt.rstrip().endswith("&")):
            return None
        return ('ref', ('X',), ()) if not self.isint(g.d["ret"]) else Lin.sym(self.newsym("call", "u", t=g.d["ret"]))

    def place(self, root, ov, args, g):
        if root[0] == 'T':
            if isinstance(ov, tuple) and ov and ov[0] in ("ref", "iter"):
                return ov[1], ov[2]
            return None
        if root[0] == 'G':
            self.names[root] = root[1]
            return root, ()
        if root[0] == 'P':
            a = args[root[1]] if root[1] < len(args) else None
            p = g.d["ps"][root[1]]
            if isinstance(a, tuple) and a and a[0] in ("ref", "iter"):
                if not p.get("ref") and "*" not in self.u.type(p["t"]) and a[0] == "ref":
                    return ('X',), ()      # passed by value: a copy
                return a[1], a[2]
        return None

    # ---------------- conditions
    def cond(self, n, pol=True):
        """evaluate a condition, return linear facts implied by it having the given truth"""
        if n is None:
            return []
        k = n.get("k")
        if k == "un" and n["op"] == "!":
            return self.cond(n["e"], not pol)
        if k == "cast":
            return self.cond(n["e"], pol)
        if k == "bin" and n["op"] in ("&&", "||"):
            a, b = self.cond(n["x"], pol), self.cond(n["y"], pol)
            return a + b if (n["op"] == "&&") == pol else []
        if k == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            a, b = self.ival(n["x"]), self.ival(n["y"])
            if a is None or b is None:
                return []
            op = n["op"]
            if not pol:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
            if op == "<":
                return [b - a - 1]
            if op == ">":
                return [a - b - 1]
            if op == "<=":
                return [b - a]
            if op == ">=":
                return [a - b]
            if op == "==":
                return [a - b, b - a]
            for d in (a - b, b - a):
                if entails(self.facts + self.guards, d):
                    return [d - 1]          # different and not below: above
            return []
        self.read(self.ev(n), n.get("l", 0))
        return []

    # ---------------- statements
    def assigned(self, n):
        """integer variables assigned in a subtree"""
        from .prog import walk
        out = set()
        for x in walk([n]):
            t = None
            if x.get("k") == "un" and x.get("op") in ("++", "--"):
                t = x["e"]
            elif x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = x["x"]
            elif x.get("k") == "call" and x.get("mr"):
                fn = x.get("f", "")
                if fn.startswith("std::") and fn.split("::")[-1] in FORWARDS:
                    continue
                for i in x["mr"]:
                    if i < len(x.get("a", [])) and x["a"][i].get("k") == "var":
                        out.add(x["a"][i]["d"])
            if t is not None and t.get("k") == "var":
                out.add(t["d"])
        return out

    def havoc(self, ds):
        for d in ds:
            v = self.env.get(d)
            if isinstance(v, Lin):
                self.havoc_int(d)
            elif d in self.ptrs and isinstance(v, tuple) and v[1][0] != 'X' and v[2][-1:] != (('i', None),):
                # a pointer that walks: somewhere below where it started
                self.env[d] = ('ref', v[1], v[2] + (('i', None),))

    def stmt(self, n):
        if n is None:
            return
        m = getattr(self, "s_" + n["k"], None)
        if m:
            return m(n)
        for key in ("b", "s", "e", "h"):
            v = n.get(key)
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, dict) and "k" in c:
                    (self.stmt if c["k"] in STMTS else self.ev)(c)

    def s_seq(self, n):
        g = len(self.guards)
        for s in n["s"]:
            self.stmt(s)
        del self.guards[g:]

    def s_x(self, n):
        v = self.ev(n["e"])
        e = n["e"]
        if e.get("k") not in ("bin", "call", "un", "ctor"):
            self.read(v, n["l"])

    def s_decl(self, n):
        for d in n.get("v", []):
            self.decl(d)

    def decl(self, d):
        if d.get("static"):
            nm = "static " + d["n"]
            if d.get("const"):
                return
            self.env[d["d"]] = ('ref', ('G', nm), ())
            self.names[('G', nm)] = nm
            if d.get("tls"):
                self.env[d["d"]] = ('ref', ('X',), ())
            return
        self.declared[-1].add(d["d"])
        self.names[('L', d["d"])] = d["n"]
        self.vtype[d["d"]] = d["t"]
        v = self.ev(d["i"]) if d.get("i") else None
        t = self.u.type(d["t"])
        if d.get("binds"):
            self.read(v, d["l"])
            for b in (d.get("binds")):
                if isinstance(v, tuple) and v and v[0] == "ref" and d.get("ref"):
                    self.env[b["d"]] = ('ref', v[1], v[2] + (('f', b["n"]),))
                else:
                    self.declared[-1].add(b["d"])
                    self.env[b["d"]] = ('ref', ('L', b["d"]), ())
                    self.names[('L', b["d"])] = b["n"]
                    if v is BOT:
                        self.ins.setdefault(b["d"], [])
                    elif isinstance(v, tuple) and v and v[0] == "contents":
                        k = (d.get("binds")).index(b)
                        c = v[1][k] if k < len(v[1]) else None
                        self.ins.setdefault(b["d"], []).append((c, list(self.guards), list(self.facts)))
            return
        if d.get("ref"):
            if isinstance(v, tuple) and v and v[0] == "ref":
                self.env[d["d"]] = v
            else:
                self.env[d["d"]] = v if v is not None else ('ref', ('X',), ())
            return
        self.read(v, d["l"])
        if v is BOT and d["d"] not in self.contents:
            self.env.pop(d["d"], None)
            self.ins.setdefault(d["d"], [])
            return
        if self.isint(d["t"]):
            l = self.lin(v) if v is not None else None
            if l is None:
                l = Lin.sym(self.newsym(d["n"], "u", t=d["t"]))
            self.env[d["d"]] = l
            return
        if isinstance(v, tuple) and v and v[0] == "iter" and ("iterator" in t or "*" in t):
            self.env[d["d"]] = v
            return
        if t.rstrip().endswith("*") or t.rstrip().endswith("*const"):
            self.ptrs.add(d["d"])
            self.env[d["d"]] = v if isinstance(v, tuple) and v and v[0] in ("ref", "iter") else ('ref', ('X',), ())
            return
        self.env.pop(d["d"], None)
        if t.startswith("std::") and (v is None or (d["i"].get("k") == "ctor" and not d["i"].get("a"))):
            self.ins.setdefault(d["d"], [])
        if isinstance(v, tuple) and v and v[0] == "contents" and len(v[1]) == 1:
            self.ins.setdefault(d["d"], []).append((v[1][0], list(self.guards), list(self.facts)))
        elif isinstance(v, tuple) and v and v[0] == "ref" and v[1][0] in "LP":
            self.assigned_content(d["d"], v)

    def s_if(self, n):
        if n.get("init"):
            self.stmt(n["init"])
        if n.get("cv"):
            self.decl(n["cv"])
        t = self.cond(n["c"], True)
        k = len(self.acc)
        e = self.cond(n["c"], False)
        del self.acc[k:]
        env0 = dict(self.env)
        g = len(self.guards)
        self.guards += t
        self.stmt(n["x"])
        del self.guards[g:]
        env1 = self.env
        self.env = dict(env0)
        self.guards += e
        if n.get("y"):
            self.stmt(n["y"])
        del self.guards[g:]
        x1, x2 = self.leaves(n["x"]), self.leaves(n.get("y"))
        if x1 and not x2:
            self.guards += e            # to the end of the enclosing block
            return
        if x2 and not x1:
            self.env = env1
            self.guards += t
            return
        for d in set(self.env) | set(env1):
            a, b = self.env.get(d), env1.get(d)
            if isinstance(a, Lin) and isinstance(b, Lin) and not a == b:
                self.env[d] = self.merge(b, a, t, e)
            elif b is not None and a is None:
                self.env[d] = b

    def leaves(self, n):
        if n is None:
            return False
        k = n["k"]
        if k in ("ret", "break", "continue"):
            return True
        if k == "x" and n["e"].get("k") == "throw":
            return True
        if k == "seq":
            return any(self.leaves(s) for s in n["s"][-1:])
        if k == "if":
            return n.get("y") is not None and self.leaves(n["x"]) and self.leaves(n["y"])
        return False

    def loopvar(self, n):
        """(decl, init Lin, step Lin, direction, cond) of a counting loop"""
        init, inc = n.get("init"), n.get("inc")
        d = None
        if init and init["k"] == "decl":
            ds = init.get("v", [])
            if len(ds) == 1 and self.isint(ds[0]["t"]):
                d = ds[0]["d"]
        elif init and init["k"] == "x" and init["e"].get("k") == "bin" and init["e"]["op"] == "=" and init["e"]["x"].get("k") == "var":
            d = init["e"]["x"]["d"]
        if d is None or inc is None:
            return None
        e = inc
        if e.get("k") == "x":
            e = e["e"]
        if e.get("k") == "un" and e["op"] in ("++", "--") and e["e"].get("d") == d:
            return d, Lin({}, 1), 1 if e["op"] == "++" else -1
        if e.get("k") == "bin" and e["op"] in ("+=", "-=") and e["x"].get("d") == d:
            return d, e["y"], 1 if e["op"] == "+=" else -1
        if e.get("k") == "bin" and e["op"] == "=" and e["x"].get("d") == d and e["y"].get("k") == "bin" and e["y"]["op"] in "+-":
            y = e["y"]
            if y["x"].get("d") == d:
                return d, y["y"], 1 if y["op"] == "+" else -1
        return None

    def s_for(self, n, par=None):
        if n.get("init"):
            self.stmt(n["init"])
        lv = self.loopvar(n)
        mod = self.assigned(n["b"])
        inc = n.get("inc")
        if inc:
            mod |= self.assigned(inc)
        if lv and lv[0] in self.assigned(n["b"]):
            lv = None
        start = self.env.get(lv[0]) if lv else None
        g = len(self.guards)
        names = {d: None for d in mod}
        self.havoc(mod)
        loop = None
        if lv and isinstance(start, Lin):
            d, step, sg = lv
            s = Lin.sym(self.newsym("i", t=self.vtype.get(d)))
            self.env[d] = s
            self.facts += [s - start] if sg > 0 else [start - s]
            if self.sf(start):
                self.symfacts[next(iter(s.c))] = self.sf(start)
            st = step if isinstance(step, Lin) else self.ival(step)
            loop = (s, st, sg)
        if n.get("c"):
            self.guards += self.cond(n["c"], True)
        k0 = len(self.acc)
        f0 = self.eff.n
        self.declared.append(set())
        self.stmt(n["b"])
        inner = self.declared.pop()
        if inc and not lv:
            self.ev(inc if inc.get("k") != "x" else inc["e"])
        if par is not None:
            par.update(loop=loop, acc=self.acc[k0:], firstsym=f0, declared=inner, guards=list(self.guards))
        del self.guards[g:]
        self.havoc(mod)

    def counters(self, n, mod):
        """variables of a loop that only grow: at least their value at the start"""
        from .prog import walk
        out = {}
        for x in walk([n]):
            t = None
            ok = False
            if x.get("k") == "un" and x.get("op") in ("++", "--"):
                t, ok = x["e"], x["op"] == "++"
            elif x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = x["x"]
                ok = x["op"] == "+=" and (self.unsigned(x["y"].get("t", -1)) or (x["y"].get("k") == "int" and isinstance(x["y"].get("v"), int) and x["y"]["v"] >= 0))
            elif x.get("k") == "call" and x.get("mr"):
                fn = x.get("f", "")
                if fn.startswith("std::") and fn.split("::")[-1] in FORWARDS:
                    continue
                for i in x["mr"]:
                    if i < len(x.get("a", [])) and x["a"][i].get("k") == "var":
                        out[x["a"][i]["d"]] = False
            if t is not None and t.get("k") == "var":
                out[t["d"]] = out.get(t["d"], True) and ok
        start = {}
        for d, ok in out.items():
            if ok and d in mod and isinstance(self.env.get(d), Lin):
                start[d] = self.env[d]
        return start

    def grow(self, start, kind):
        for d, v in start.items():
            sy = self.newsym("c", kind, t=self.vtype.get(d))
            self.env[d] = Lin.sym(sy)
            self.facts.append(Lin.sym(sy) - v)
            if self.sf(v):
                self.symfacts[sy] = self.sf(v)

    def s_while(self, n):
        mod = self.assigned(n)
        start = self.counters(n, mod)
        self.havoc(mod)
        self.grow(start, False)
        g = len(self.guards)
        self.guards += self.cond(n["c"], True)
        self.stmt(n["b"])
        del self.guards[g:]
        self.havoc(mod)
        self.grow(start, "u")

    def s_do(self, n):
        mod = self.assigned(n)
        self.havoc(mod)
        self.stmt(n["b"])
        self.cond(n["c"])
        self.havoc(mod)

    def s_rfor(self, n):
        r = self.ev(n["r"])
        self.read(r, n["l"])
        mod = self.assigned(n["b"])
        self.havoc(mod)
        v = n["v"]
        g = len(self.guards)
        self.declared.append(set())
        self.declared[-1].add(v["d"])
        self.names[('L', v["d"])] = v["n"]
        if isinstance(r, tuple) and r and r[0] == "ref":
            el = ('ref', r[1], r[2] + (('i', 'any'),))
            if self.isint(v["t"]):
                self.env[v["d"]] = self.elemval(r[1], r[2] + (('i', 'any'),))
            elif v.get("ref"):
                self.env[v["d"]] = el
            else:
                self.env.pop(v["d"], None)
        else:
            self.env[v["d"]] = Lin.sym(self.newsym(v["n"], True)) if self.isint(v["t"]) else ('ref', ('X',), ())
        for b in v.get("binds") or []:
            self.env[b["d"]] = ('ref', ('X',), ())
        self.stmt(n["b"])
        self.declared.pop()
        del self.guards[g:]
        self.havoc(mod)

    def s_ret(self, n):
        if n.get("e"):
            v = self.ev(n["e"])
            rt = self.u.type(self.f.d["ret"])
            if not rt.rstrip().endswith("&"):
                self.read(v, n["l"])
                if self.lamdepth == 0:
                    if isinstance(v, tuple) and v and v[0] == "tuple":
                        cs = []
                        for x in v[1]:
                            if isinstance(x, tuple) and x and x[0] == "ref" and x[1][0] == 'L' and not x[2]:
                                cs.append(list(self.contents.get(x[1][1], [])) if x[1][1] in self.contents else None)
                            else:
                                cs.append(None)
                        v = ("contents", cs)
                    elif self.isint(self.f.d["ret"]):
                        v = self.lin(v)
            if self.lamdepth == 0 and v is not BOT:
                self.rets.append((v, self.guards + self.sf(v)))

    def s_try(self, n):
        self.intry += 1
        self.stmt(n["b"])
        self.intry -= 1
        for h in n.get("h", []):
            if isinstance(h, dict):
                self.stmt(h.get("b", h) if "b" in h else h)

    # ---------------- OpenMP
    def clauses(self, n):
        out = {}
        for c in n.get("cl", []):
            out.setdefault(c["n"], set()).update(v if isinstance(v, int) else v.get("d") if isinstance(v, dict) else v for v in c.get("v", []))
        return out

    def s_omp(self, n):
        d = n["dir"]
        cl = self.clauses(n)
        b = n.get("b")
        priv = set()
        for c in ("private", "firstprivate", "lastprivate", "linear", "reduction", "in_reduction", "task_reduction"):
            priv |= cl.get(c, set())
        if d in ("taskwait", "barrier"):
            self.flush()
            self.pending = []
            return
        if d in ("critical", "atomic", "ordered"):
            self.prot += 1
            self.stmt(b)
            self.prot -= 1
            return
        if d == "taskgroup":
            keep, self.pending = self.pending, []
            self.flush(keep)
            self.stmt(b)
            self.flush()
            self.pending = keep
            return
        if d in ("single", "master", "masked"):
            self.region.append((d, n["l"]))
            k0 = len(self.acc)
            self.stmt(b)
            for a in self.acc[k0:]:
                a.guards = a.guards  # same thread
            self.region.pop()
            self.events.append(Event("single", line=n["l"], acc=list(self.acc[k0:])))
            for a in self.acc[k0:]:
                self.single_ids.add(id(a)) if hasattr(self, "single_ids") else None
            if "nowait" not in {c["n"] for c in n.get("cl", [])}:
                self.flush()
                self.pending = []
            return
        if d == "task":
            return self.task(n, cl, priv, b)
        if "for" in d.split() and "simd" not in d.split() or d.endswith("for simd"):
            body = b
            while body is not None and body["k"] == "seq" and len(body["s"]) == 1:
                body = body["s"][0]
            par = {}
            self.region.append((d, n["l"]))
            envk = set(self.env)
            if body is not None and body["k"] == "for":
                self.s_for(body, par)
            else:
                self.stmt(b)
            self.region.pop()
            self.events.append(Event("for", line=n["l"], par=par, priv=priv, dir=d, facts=self.facts, alts=self.alts, names=dict(self.names)))
            return
        if "simd" in d.split():
            par = {}
            body = b
            while body is not None and body["k"] == "seq" and len(body["s"]) == 1:
                body = body["s"][0]
            if body is not None and body["k"] == "for":
                self.s_for(body, par)
            else:
                self.stmt(b)
            self.events.append(Event("simd", line=n["l"], par=par, priv=priv, facts=self.facts, alts=self.alts, names=dict(self.names)))
            return
        if d == "parallel":
            self.region.append((d, n["l"]))
            had = getattr(self, "single_ids", None)
            self.single_ids = set()
            k0 = len(self.acc)
            f0 = len(self.events)
            self.declared.append(set())
            self.stmt(b)
            inner = self.declared.pop()
            inside = [e for e in self.events[f0:] if e.kind in ("for",)]
            forids = {id(a) for e in inside for a in e.par.get("acc", [])}
            self.region.pop()
            self.events.append(Event("parallel", line=n["l"], priv=priv, declared=inner, facts=self.facts, names=dict(self.names),
                                     acc=[a for a in self.acc[k0:] if id(a) not in self.single_ids and id(a) not in forids]))
            self.single_ids = had if had is not None else set()
            self.flush()
            self.pending = []
            return
        self.events.append(Event("unknown", line=n["l"], dir=d))
        self.stmt(b)

    def flush(self, pend=None):
        """what the parent did since its last task was created"""
        mine = self.acc[self.pmark:]
        for p in (self.pending if pend is None else pend):
            if mine:
                self.events.append(Event("taskparent", line=p[1], acc=p[0], parent=mine, facts=self.facts))
        self.pmark = len(self.acc)

    def task(self, n, cl, priv, b):
        self.flush()
        shared = cl.get("shared", set())
        lexpar = any(r[0].startswith("parallel") or r[0] in ("single", "master", "masked") for r in self.region)
        k0 = len(self.acc)
        env = dict(self.env)
        self.region.append(("task", n["l"]))
        self.declared.append(set())
        self.stmt(b)
        inner = self.declared.pop()
        self.region.pop()
        mine = self.acc[k0:]
        del self.acc[k0:]
        self.env = env
        pd = {p["d"]: k for k, p in enumerate(self.f.d["ps"])}
        sh_roots = {('P', pd[d]) for d in shared if d in pd} | {('L', d) for d in shared}
        pr_roots = {('P', pd[d]) for d in priv if d in pd} | {('L', d) for d in priv}
        lost = []
        real = []
        for a in mine:
            if a.root[0] == 'L' and a.root[1] in inner:
                continue
            if a.root in pr_roots or (a.root[0] in "PL" and a.root not in sh_roots and not lexpar):
                if a.w:
                    lost.append(a)
                continue
            real.append(a)
        ev = Event("task", line=n["l"], acc=real, lost=lost, facts=self.facts, names=dict(self.names),
                   against=[(p[0], p[1]) for p in self.pending], depend="depend" in cl)
        self.events.append(ev)
        self.pending.append((real, n["l"]))
        self.acc += real
        self.pmark = len(self.acc)


STMTS = {"seq", "decl", "if", "for", "while", "do", "rfor", "ret", "break", "continue", "x", "switch", "case", "default", "try", "omp", "label", "otherS"}


def same_index_possible(x, y, cons, opaque=None):
    """can two index steps denote the same element?  (True/False/None = unknown)"""
    opaque = opaque or (lambda s: s[0] == 'u')
    if isinstance(x, Lin) and isinstance(y, Lin):
        d = x - y
        rel = relevant(cons, d.c)
        if infeasible(rel + [d, -d]):
            return False
        if any(opaque(s) for l in rel + [x, y] for s in l.c):
            return None            # an index that is not understood
        return True
    if x == 'any' or y == 'any':
        if x is None or y is None:
            return None
        return True
    return None


def conflict(a, b, cons, opaque=None):
    """do accesses a and b touch the same memory? True / False / None"""
    if a.root != b.root:
        return False
    res = True
    for x, y in zip(a.steps, b.steps):
        if x[0] != y[0]:
            return False if {x[0], y[0]} == {'#', 'i'} or {x[0], y[0]} == {'f', '#'} else None
        if x[0] == 'f':
            if x[1] != y[1]:
                return False
        elif x[0] == 'i':
            r = same_index_possible(x[1], y[1], cons, opaque)
            if r is False:
                return False
            if r is None:
                res = None
    return res
