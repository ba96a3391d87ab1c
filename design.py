"""DESIGN.md from doc/head.md, the rule modules, known_findings.json, seeded/*/meta.json and doc/tail.md"""
import os, json, glob
here = os.path.dirname(os.path.abspath(__file__))


def write(mods, na):
    o = [open(os.path.join(here, "doc", "head.md")).read().rstrip(), "", "## 2. Properties and how each is decided", ""]
    kf = json.load(open(os.path.join(here, "known_findings.json")))
    seeds = {}
    for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
    for m in mods:
        P = m.PROP
        doc = " ".join(m.__doc__.split())
        o += ["### %s %s" % (P["id"], P["title"]), "", "*Property.* " + P["statement"], "",
              "*Why tests cannot settle it.* " + P["why"].rstrip(".") + ".", "",
              "*Decided by* (%s). %s" % (m.TECHNIQUE, doc), "",
              "*Bounds.* None on inputs or iterations: %s. " % P["text"].rstrip(".") +
              "At least " + ", ".join("%d %s" % (v, k) for k, v in sorted(m.MINIMUM.items())) + " must be found, else the check exits 2.", ""]
        if m.ASSUMPTIONS:
            o += ["*Assumes.* " + "; ".join(m.ASSUMPTIONS) + ".", ""]
        o += ["*Files.* " + ", ".join("`%s`" % f.replace("include/", "") for f in P["files"]), ""]
        if seeds.get(P["id"]):
            o += ["*Planted bugs it catches.* " + ", ".join("`%s`" % s for s, _ in seeds[P["id"]]), ""]
    o += ["## 3. Properties static analysis does not decide here", ""]
    for P in na:
        o += ["* **%s %s.** %s *Why not:* %s" % (P["id"], P["title"], P["statement"], P["reason"]), ""]
    o += ["## 4. Planted bugs", "", "Each was built, passes the existing tests, and has a demonstration that fails with it; each is reported by the check",
          "of its own property (others may report it as well).", "", "| bug | property | what it breaks | needs |", "|---|---|---|---|"]
    for p in sorted(seeds):
        for s, m in seeds[p]:
            o.append("| `%s` | %s | %s | %s |" % (s, p, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
    o += ["", "## 5. Defects found and repaired", "", "Every one is a `fix:` commit in /repo; the check of the property reports it again if it returns.", "",
          "| property | commit | what failed |", "|---|---|---|"]
    for e in sorted(kf, key=lambda e: e["property"]):
        if e["status"] == "fixed":
            w = e["what"].split("fixed: property=%s " % e["property"])[-1]
            c = (e.get("commit") or e.get("key") or "").replace("fixed-", "")
            if w.startswith(c):
                w = w[len(c):].strip()
            o.append("| %s | %s | %s |" % (e["property"], c, w.replace("|", "\\|")))
    o += ["", open(os.path.join(here, "doc", "tail.md")).read().rstrip(), ""]
    open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(o))
