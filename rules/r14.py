"""bats.hpp can be included in any number of translation units of one program.

R14-inline   every function defined at namespace scope in a header reachable
             from bats.hpp (and in util/io.hpp, util/barcode.hpp), including full
             specialisations of templates, is inline, constexpr, static or a
             template; every variable with external linkage is inline or constexpr
R14-guard    every such header can be included again after bats.hpp (include
             guards): the translation unit that includes each of them twice parses
R14-config   the same with the operation counters switched on (BATS_OPCOUNT)
R14-using    no header opens a namespace (using namespace at file scope) over the
             including program
"""
import os, re, tempfile
from rules.common import *
from bx import prog

PROP = {
    "id": "R14",
    "title": "Header-only: bats.hpp links in any number of translation units",
    "statement": "A program may include bats.hpp (and any header it reaches, in any number, again) in any number of its source files and link them together: every definition with external linkage in the headers is inline, constexpr or a template, full specialisations included, every header can be included more than once, and the same holds in the BATS_OPCOUNT configuration.",
    "over": ["configurations"],
    "text": "all sets of translation units of one program; every namespace-scope definition in the headers reachable from bats.hpp, with and without BATS_OPCOUNT",
    "why": "every test of the suite is a single translation unit: a missing inline never shows there",
    "files": ["include/bats.hpp", "include/util/common.hpp", "include/util/permutation.hpp", "include/util/set.hpp", "include/topology/grid.hpp", "include/multigraph/multigraph.hpp", "include/persistence/union_find.hpp"],
    "mechanism": [["single header", "include/bats.hpp"], ["free functions", "include/util/permutation.hpp, include/topology/*.hpp"]],
}
TECHNIQUE = "query over the type-checked program: linkage of every namespace-scope definition; double-inclusion witness that fails to parse"
LEVEL = "other"
ASSUMPTIONS = ["definitions that differ between translation units because the program defines different macros are the program's own"]
MINIMUM = {"headers": 60, "definitions": 100}
EXTRA = ["util/io.hpp", "util/barcode.hpp"]


def unit(text, extra):
    fd, src = tempfile.mkstemp(suffix=".cpp", prefix="r14")
    os.write(fd, text.encode())
    os.close(fd)
    try:
        return prog.Unit(prog.run_extract(src, extra), src)
    finally:
        os.unlink(src)


def run(ctx):
    base = "#include <bats.hpp>\n"
    u0 = unit(base, ())
    inc = sorted(os.path.relpath(f, prog.REPO + "/include") for f in u0.included if f.startswith(prog.REPO))
    more = [h for h in EXTRA if h not in inc and os.path.exists(os.path.join(prog.REPO, "include", h))]
    base += "".join("#include <%s>\n" % h for h in more)
    inc += more
    for conf, extra in (("", ()), (" with BATS_OPCOUNT", ("-DBATS_OPCOUNT",))):
        # each header again
        ctx.count("headers", len(inc))
        try:
            u = unit(base + "".join("#include <%s>\n" % h for h in inc), extra)
            for h in inc:
                ctx.check(True, "R14-guard", "include/" + h, "")
        except prog.NoParse as e:
            hit = [l for l in e.log.splitlines() if ": error:" in l]
            files = sorted(set(re.sub(r':\d+:.*', '', l) for l in hit))
            try:
                u = unit(base, extra)
            except prog.NoParse:
                raise
            for f in files:
                ctx.bad("R14-guard", os.path.relpath(f, prog.REPO), "cannot be included twice in one translation unit%s: %s" % (conf, [l for l in hit if l.startswith(f)][0][-120:]), "guard:" + os.path.basename(f))
        seen = set()
        for f in u.funcs:
            d = f.d
            if not f.file.startswith(prog.REPO) or d.get("inst") or d.get("dep") or d.get("tmpl") or d.get("b") is None or (f.id in seen):
                continue
            seen.add(f.id)
            if "(lambda)" in f.name:
                continue
            ctx.count("definitions")
            ctx.function(f)
            ok = d.get("inl") or d.get("cx") or not d.get("ext") or d.get("imp") or d.get("dfd")
            ctx.check(ok, "R14-inline", f.loc(), "%s is defined in a header without inline%s: two source files that include it do not link" % (f.name, conf), "inline:" + f.name)
        for g in u.globals:
            fn = u.files[g["fl"]]
            if not fn.startswith(prog.REPO) or not g["def"]:
                continue
            ctx.count("definitions")
            ok = g["inl"] or g["cx"] or g["tmpl"] or g["link"] < 4
            ctx.check(ok, "R14-inline", "%s:%d" % (os.path.relpath(fn, prog.REPO), g["l"]), "the variable %s is defined in a header without inline%s" % (g["n"], conf), "inline:" + g["n"])
    # names opened over the including program
    for h in inc:
        txt = open(os.path.join(prog.REPO, "include", h), errors="replace").read()
        txt = re.sub(r'/\*.*?\*/', lambda m: "\n" * m.group(0).count("\n"), txt, flags=re.S)
        for i, l in enumerate(txt.splitlines()):
            if re.match(r'using\s+namespace\b', l):
                ctx.bad("R14-using", "include/%s:%d" % (h, i + 1), "opens a namespace for every program that includes it", "using:" + h)
