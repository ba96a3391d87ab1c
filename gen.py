#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the rule modules (PROP tables) and not_applicable.json"""
import sys, os, json, glob, importlib
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
props, checks, mods = [], [], []


def prop(P):
    return {"id": P["id"], "title": P["title"], "statement": P["statement"],
            "quantifier": {"over": P["over"], "text": P["text"]},
            "why_tests_cant": P["why"],
            "anchors": {"files": P["files"], "mechanism": [{"name": a, "where": b} for a, b in P["mechanism"]]}}


for fn in sorted(glob.glob(os.path.join(here, "rules", "[a-z][0-9]*.py"))):
    m = importlib.import_module("rules." + os.path.basename(fn)[:-3])
    P = m.PROP
    mods.append(m)
    assert len(P["title"]) <= 80, (P["id"], len(P["title"]))
    for f in P["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
    props.append(prop(P))
    doc = " ".join(m.__doc__.split())
    checks.append({"property": P["id"], "quick_cmd": "python3 check.py %s" % P["id"], "thorough_cmd": "python3 check.py %s --thorough" % P["id"],
                   "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": doc})
na = json.load(open(os.path.join(here, "not_applicable.json")))
for P in na:
    props.append(prop(P))
props.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": [{"property": P["id"], "reason": P["reason"]} for P in na],
           "notes": "Every check parses /repo's current headers with a libTooling extractor (tool/extract.cpp) and decides its rule over the resolved program; nothing from /repo is compiled to code or run."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
import design
design.write(mods, na)
print(len(props), "properties,", len(checks), "checks")
import subprocess
subprocess.run(["python3-vt", "-c", """
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
"""], check=True)
