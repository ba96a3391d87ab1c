"""Common runner of the checks: obligations, evidence, known findings, exit codes."""
import json, os, sys, time, traceback, importlib
from . import prog

EVID = os.environ.get("BATS_EVID", os.path.join(prog.VERIF, "evidence"))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = []          # (rule, where, ok, message, key)
        self.counts = {}
        self.funcs = set()
        self.assumptions = []
        self.notes = []

    def function(self, f):
        self.funcs.add((f.name, f.loc()))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def check(self, ok, rule, where, msg, key=None):
        """one obligation; key identifies the construct for the known-findings file"""
        self.obl.append((rule, where, bool(ok), msg, key or rule))
        return ok

    def bad(self, rule, where, msg, key=None):
        self.check(False, rule, where, msg, key)

    def need(self, cond, msg):
        if not cond:
            raise prog.Broken(msg)


def known():
    p = os.path.join(prog.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv else "quick"
    t0 = time.time()
    ctx = Ctx(pid, tier)
    broken, notes = None, []
    try:
        mod = importlib.import_module("rules." + pid.lower())
        mod.run(ctx)
        if not ctx.obl:
            raise prog.Broken("no obligation was generated")
        for what, least in getattr(mod, "MINIMUM", {}).items():
            if ctx.counts.get(what, 0) < least:
                raise prog.Broken("analysed only %d %s, expected at least %d" % (ctx.counts.get(what, 0), what, least))
    except prog.NoParse as e:
        viol = getattr(sys.modules.get("rules." + pid.lower()), "NOPARSE_IS_VIOLATION", False)
        print("the driver %s does not parse:\n%s" % (e.driver, e.log[-3000:]))
        if not viol:
            return 2
    except prog.Broken as e:
        broken = str(e)
    except Exception as e:
        # code of a shape the rule cannot read: what was decided before stands
        traceback.print_exc()
        notes.append("analysis stopped: %s: %s" % (type(e).__name__, str(e)[:200]))
        if len(ctx.obl) < 10:
            broken = "internal error"
    notes += prog.INCOMPLETE
    for n in notes:
        print("NOTE: %s" % n[:300])
    bad, seen, seenkeys = [], set(), set()
    kf = [k for k in known() if k["property"] == pid and k.get("status") == "known"]
    for rule, where, ok, msg, key in ctx.obl:
        if ok or (rule, where, msg) in seen:
            continue
        seen.add((rule, where, msg))
        hit = [k for k in kf if k["key"] == key]
        if hit:
            if key not in seenkeys:
                seenkeys.add(key)
                print("KNOWN-FINDING: property=%s %s [%s]" % (pid, hit[0]["what"], where))
            continue
        bad.append((rule, where, msg, key))
    os.makedirs(EVID, exist_ok=True)
    rules = {}
    for rule, where, ok, msg, key in ctx.obl:
        r = rules.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += ok
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": getattr(sys.modules["rules." + pid.lower()], "LEVEL", "other"),
        "coverage": {
            "explanation": getattr(sys.modules["rules." + pid.lower()], "__doc__", "").strip(),
            "obligations": len(ctx.obl), "discharged": sum(o[2] for o in ctx.obl),
            "rules": {k: {"obligations": v[0], "discharged": v[1]} for k, v in rules.items()},
            "counts": ctx.counts,
            "functions": sorted("%s (%s)" % x for x in ctx.funcs)[:400],
            "known_findings": sorted(seenkeys),
            "reported": [{"rule": r, "where": w, "message": m} for r, w, m, k in bad],
            "incomplete": notes,
            "checker_cmd": "python3 /verif/check.py %s --%s" % (pid, tier),
            "trusted_base": ["clang 18 front end (name lookup, overload resolution, template instantiation)",
                             "/verif/tool/extract.cpp", "/verif/bx", "/verif/rules/%s.py" % pid.lower()],
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
        "assumptions": ctx.assumptions + getattr(sys.modules["rules." + pid.lower()], "ASSUMPTIONS", []),
    }
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d functions, %.1fs" % (pid, len(ctx.obl), len(ctx.funcs), time.time() - t0))
    if bad:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        rp = os.path.join(EVID, "replay", pid + ".txt")
        with open(rp, "w") as f:
            for r, w, m, k in bad:
                f.write("%s: [%s] %s (key %s)\n" % (w, r, m, k))
        for r, w, m, k in bad:
            print("%s: [%s] %s" % (w, r, m))
            print("   key: %s" % k)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        return 2
    return 0
