"""Loads the resolved program exported by tool/extract.cpp (batsx)."""
import json, os, re, subprocess, sys, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("BATS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """The analysis itself cannot give an answer (exit 2)."""


class NoParse(Exception):
    def __init__(self, driver, log):
        self.driver, self.log = driver, log


def tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "batsx-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d.tmp" % os.getpid()
    cxx = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
    cmd = [cxx, "-std=c++17", "-fno-rtti", "-O1", "-w", "-I" + LLVM + "/include",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE",
           src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so.1",
           "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("cannot build the extractor:\n" + r.stdout[-3000:])
    os.replace(tmp, exe)
    return exe


# members that cannot be instantiated at the pinned commit (nothing can call them)
ALLOWED = ["no member named 'add_rows' in 'SparseVector", "no matching member function for call to 'axpy'",
           "errors generated", "error generated"]

CLANG_ARGS = ["-w", "-std=c++17", "-fopenmp", "-DBATSX_STATIC=1", "-isystem", os.path.join(VERIF, "tool", "stub"),
              "-resource-dir", LLVM + "/lib/clang/18", "-ferror-limit=100"]


def run_extract(src, extra=(), roots=None, strict=True):
    exe = tool()
    roots = roots or (REPO + "/include", os.path.join(VERIF, "drivers"), "/tmp/")
    fd, out = tempfile.mkstemp(suffix=".json", prefix="batsx")
    os.close(fd)
    try:
        r = subprocess.run([exe, out, src, ",".join(roots), "--"] + CLANG_ARGS + ["-I" + REPO + "/include"] + list(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, BATSX_ALLOW_ERRORS="1"))
        errs = [l for l in r.stdout.splitlines() if re.search(r'\b(fatal )?error: ', l)]
        bad = [l for l in errs if not any(a in l for a in ALLOWED)]
        # a name that a driver uses may be gone, or have other parameters: what does parse is analysed
        soft = not strict and not any("fatal error" in l for l in errs)
        if r.returncode or (bad and not soft):
            raise NoParse(src, r.stdout)
        if bad:
            INCOMPLETE.append("%s: %s" % (os.path.basename(src), bad[0]))
        with open(out) as f:
            d = json.load(f)
        d["errors"] = errs
        return d
    finally:
        os.unlink(out)


INCOMPLETE = []


class Func:
    __slots__ = ("d", "u", "id", "name", "file", "line", "dep", "key")

    def __init__(self, d, u):
        self.d, self.u = d, u
        self.id = d["id"]
        self.name = d["n"]
        self.file = u.files[d["fl"]]
        self.line = d["l"]
        self.dep = d["dep"]

    def rel(self):
        return os.path.relpath(self.file, REPO) if self.file.startswith(REPO) else self.file

    def loc(self, line=None):
        return "%s:%d" % (self.rel(), line or self.line)

    def __repr__(self):
        return "<%s %s>" % (self.name, self.loc())


class Unit:
    """One parsed translation unit."""

    def __init__(self, data, src):
        self.src = src
        self.types = data["types"]
        self.files = data["files"]
        self.included = data["included"]
        self.funcs = [Func(d, self) for d in data["funcs"]]
        self.byid = {f.id: f for f in self.funcs}
        self.recs = data["recs"]
        self.globals = data["globals"]

    def type(self, i):
        return self.types[i] if i is not None and i >= 0 else ""

    def find(self, name, inst=True, pred=None):
        """functions with bare qualified name (or suffix '::name')"""
        out = []
        for f in self.funcs:
            if f.dep and inst:
                continue
            if f.name == name or f.name.endswith("::" + name):
                if pred is None or pred(f):
                    out.append(f)
        return out


_cache = {}


def driver(name):
    if name in _cache:
        return _cache[name]
    src = os.path.join(VERIF, "drivers", name + ".cpp")
    u = Unit(run_extract(src, strict=False), src)
    _cache[name] = u
    return u


def load(names):
    names = [n for n in names]
    tool()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(driver, names))


def children(n):
    """Generic iteration over sub-nodes."""
    if isinstance(n, dict):
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from children_or_self(v)
    elif isinstance(n, list):
        for v in n:
            yield from children_or_self(v)


def children_or_self(v):
    if isinstance(v, dict):
        yield v
    elif isinstance(v, list):
        for x in v:
            yield from children_or_self(x)


def walk(n):
    stack = list(children_or_self(n))
    stack.reverse()
    while stack:
        x = stack.pop()
        yield x
        c = list(children(x))
        c.reverse()
        stack.extend(c)
