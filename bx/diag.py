"""Compiler diagnostics of the instantiated program as obligations."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import prog


def run(names, flags, extra=()):
    """[(file, line, message, flag)] of clang's analysis-based warnings in /repo's headers, over all drivers"""
    def one(n):
        src = n if n.endswith(".cpp") else os.path.join(prog.VERIF, "drivers", n + ".cpp")
        args = [a for a in prog.CLANG_ARGS if a != "-w" and not a.startswith("-ferror")]
        r = subprocess.run(["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++", "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics"]
                           + args + ["-I" + prog.REPO + "/include", "-Wno-everything"] + ["-W" + f for f in flags] + list(extra) + [src],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = []
        for l in r.stdout.splitlines():
            m = re.match(r'(.*?):(\d+):\d+: warning: (.*) \[-W([^\],]*)', l)
            if m and m.group(1).startswith(prog.REPO):
                out.append((os.path.relpath(m.group(1), prog.REPO), int(m.group(2)), m.group(3), m.group(4)))
        errs = [l for l in r.stdout.splitlines() if re.search(r'\b(fatal )?error: ', l)]
        bad = [l for l in errs if not any(a in l for a in prog.ALLOWED)]
        if any("fatal error" in l for l in bad):
            raise prog.NoParse(src, r.stdout)
        if bad:
            prog.INCOMPLETE.append("%s: %s" % (os.path.basename(src), bad[0]))
        return out
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, names))
    return sorted(set(x for r in res for x in r))
