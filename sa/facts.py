"""Build the extractor, generate the repository's generated sources, run the
front end over the translation units a check asks for, and load the facts."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NIXD_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The machinery (not the property) is at fault: exits with code 3."""


def extractor():
    """Path of the compiled extractor; compiled when missing or out of date."""
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = [LLVM + "/bin/clang++", "-std=c++17", "-O1", "-fno-rtti", "-w",
           "-I" + LLVM + "/include", src, "-o", tmp, "-L" + LLVM + "/lib",
           "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("extractor does not build:\n" + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


GENERATORS = [  # (script, output)
    ("libnixf/src/Basic/DiagnosticEnum.h.py", "DiagnosticEnum.h"),
    ("libnixf/src/Basic/Diagnostic.cpp.py", "Diagnostic.cpp"),
    ("libnixf/src/Parse/Tokens.h.py", "Tokens.h"),
    ("libnixf/src/Parse/TokenKinds.inc.py", "TokenKinds.inc"),
]


def generate(dst):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    for script, out in GENERATORS:
        r = subprocess.run([sys.executable, os.path.join(REPO, script),
                            os.path.join(dst, out)], capture_output=True,
                           text=True, env=env)
        if r.returncode != 0:
            raise AnalysisBroken("generator %s failed: %s" % (script, r.stderr[-800:]))


def flags(gen):
    r = REPO
    return ["-std=gnu++20", "-xc++", "-w", "-ferror-limit=0",
            "-fno-color-diagnostics",
            "-resource-dir", LLVM + "/lib/clang/18",
            "-I" + gen,
            "-I" + r + "/libnixf/src", "-I" + r + "/libnixf/include",
            "-I" + r + "/libnixt/include",
            "-I" + r + "/nixd/lib", "-I" + r + "/nixd/include",
            "-I" + r + "/nixd/lspserver/include",
            "-I" + VERIF + "/stubs", "-I" + LLVM + "/include",
            "-DBOOST_ALL_NO_LIB", "-pthread", "-D_GNU_SOURCE",
            "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
            "-D__STDC_LIMIT_MACROS"]


# Translation-unit groups, discovered by glob so that new files are analysed.
GROUPS = {
    "parse": ["libnixf/src/Parse/*.cpp"],
    "basic": ["libnixf/src/Basic/Diagnostic.cpp", "libnixf/src/Basic/JSONDiagnostic.cpp",
              "libnixf/src/Basic/Nodes.cpp"],
    "sema": ["libnixf/src/Sema/*.cpp"],
    "lspserver": ["nixd/lspserver/src/*.cpp"],
    "controller": ["nixd/lib/Controller/*.cpp"],
    "actions": ["nixd/lib/Controller/CodeActions/*.cpp"],
    "support": ["nixd/lib/Support/*.cpp"],
    "protocol": ["nixd/lib/Protocol/*.cpp"],
    "eval": ["nixd/lib/Eval/*.cpp"],
    "cmdline": ["nixd/lib/CommandLine/*.cpp"],
    "nixt": ["libnixt/lib/*.cpp"],
    "tools": ["nixd/tools/*.cpp", "libnixf/tools/*.cpp"],
    "gen": ["@Diagnostic.cpp"],
}
ALL_GROUPS = list(GROUPS)
# Groups whose TUs include Nix headers (parsed against the stubs).
STUBBED = ("controller", "eval", "nixt", "tools", "protocol")


class Fn:
    __slots__ = ("d", "id", "q", "n", "file", "l", "el", "nodes", "decls",
                 "types", "cfg", "body", "params", "ret", "cls", "parent_of",
                 "blocks", "group", "_parents", "memo")

    def __init__(self, d):
        self.d = d
        self.id = d["id"]
        self.q = d["q"]
        self.n = d["n"]
        self.file = d["file"]
        self.l = d["l"]
        self.el = d.get("el", d["l"])
        self.nodes = d["nodes"]
        self.decls = d["decls"]
        self.types = d["types"]
        self.cfg = d.get("cfg")
        self.body = d.get("body", -1)
        self.params = d.get("params", [])
        self.ret = d.get("ret", -1)
        self.cls = d.get("cls")
        self.blocks = {b["id"]: b for b in self.cfg["blocks"]} if self.cfg else {}
        self._parents = None
        self.memo = {}

    def rel(self):
        return os.path.relpath(self.file, REPO)

    def loc(self, i=None):
        if i is not None and i >= 0 and "l" in self.nodes[i]:
            return "%s:%d" % (self.rel(), self.nodes[i]["l"])
        return "%s:%d" % (self.rel(), self.l)

    def type_of(self, i):
        t = self.nodes[i].get("t", -1)
        return self.types[t] if t >= 0 else {}

    def decl(self, i):
        """Decl record a DeclRefExpr/MemberExpr node refers to."""
        return self.decls[self.nodes[i]["d"]]

    def walk(self, i=None):
        """Pre-order over the AST below node i (default: whole body)."""
        if i is None:
            i = self.body
        stack = [i]
        seen = set()
        while stack:
            x = stack.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(reversed(self.nodes[x].get("ch", [])))

    @property
    def parents(self):
        if self._parents is None:
            p = {}
            for i, n in enumerate(self.nodes):
                for c in (n.get("ch", []) if n else []):
                    if c >= 0:
                        p.setdefault(c, i)
            self._parents = p
        return self._parents

    def strip(self, i):
        """Skip value-preserving wrappers."""
        while i >= 0:
            n = self.nodes[i]
            k = n["k"]
            ch = n.get("ch", [])
            if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
                     "CXXBindTemporaryExpr", "ConstantExpr", "FullExpr",
                     "CXXDefaultArgExpr", "CXXDefaultInitExpr",
                     "SubstNonTypeTemplateParmExpr", "OpaqueValueExpr") and len(ch) >= 1:
                i = ch[0] if k != "SubstNonTypeTemplateParmExpr" else ch[-1]
                continue
            if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr",
                     "CXXFunctionalCastExpr", "CXXConstCastExpr") and \
                    n.get("ck") in ("NoOp", "LValueToRValue", "DerivedToBase",
                                    "UncheckedDerivedToBase", "FunctionToPointerDecay",
                                    "ArrayToPointerDecay") and ch:
                i = ch[0]
                continue
            if k == "CXXConstructExpr" and n.get("elide") and len(ch) == 1:
                i = ch[0]
                continue
            return i
        return i


class Program:
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.enums = {}
        self.vars = {}
        self.tus = []
        self.children_of = {}  # lambda/local fns by parent
        self.callers = None

    def add(self, o):
        k = o["kind"]
        if k == "fn":
            if o["id"] not in self.fns:
                f = Fn(o)
                self.fns[f.id] = f
                if o.get("parent"):
                    self.children_of.setdefault(o["parent"], []).append(f.id)
        elif k == "rec":
            self.recs.setdefault(o["q"] if "<" not in o["ts"] else o["ts"], o)
        elif k == "enum":
            self.enums.setdefault(o["q"], o)
        elif k == "var":
            key = (o["q"], o["file"] if "(anonymous" in o["q"] else "")
            if key not in self.vars or (self.vars[key]["init"] < 0 <= o["init"]):
                self.vars[key] = o
        elif k == "tu":
            self.tus.append(o)

    def by_q(self, q):
        return [f for f in self.fns.values() if f.q == q]

    def one(self, q):
        r = self.by_q(q)
        if not r:
            raise AnalysisBroken("anchor vanished: no function %s" % q)
        return r[0]

    def bases(self, q, seen=None):
        """q and its transitive bases."""
        out = [q]
        r = self.recs.get(q)
        if r:
            for b in r["bases"]:
                bq = b.get("q")
                if bq and bq not in out:
                    out.extend(x for x in self.bases(bq) if x not in out)
        return out

    def derived(self, q):
        return sorted(r for r in self.recs if q in self.bases(r))

    def is_a(self, q, base):
        return base in self.bases(q)

    def fields(self, q):
        out = []
        for b in reversed(self.bases(q)):
            r = self.recs.get(b)
            if r:
                out.extend((b, f) for f in r["fields"])
        return out

    def call_graph(self):
        """callers[id] = [(caller Fn, node index)]"""
        if self.callers is None:
            self.callers = {}
            for f in self.fns.values():
                for i, n in enumerate(f.nodes):
                    if n and "fn" in n and n["k"] != "LambdaExpr":
                        self.callers.setdefault(n["fn"], []).append((f, i))
        return self.callers


def tree_hash(groups):
    h = hashlib.sha256(" ".join(sorted(groups)).encode())
    for base in (REPO + "/libnixf", REPO + "/libnixt", REPO + "/nixd", VERIF + "/stubs",
                 VERIF + "/extractor"):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                h.update(f.encode())
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(fh.read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]


def load(groups, strict=()):
    """Extract and load the facts of the given TU groups.

    strict: groups in which a front-end error is an analysis failure (the
    sources the build itself compiles)."""
    ex = extractor()
    work = tempfile.mkdtemp(prefix="nixdsa-")
    prog = Program()
    t0 = time.time()
    try:
        generate(work)
        jobs = []
        for g in groups:
            n = 0
            for pat in GROUPS[g]:
                if pat.startswith("@"):
                    fs = [os.path.join(work, pat[1:])]
                else:
                    fs = sorted(glob.glob(os.path.join(REPO, pat)))
                for f in fs:
                    jobs.append((g, f))
                    n += 1
            if n == 0:
                raise AnalysisBroken("no translation unit matches group " + g)

        def run(job):
            idx, (g, f) = job
            out = os.path.join(work, "f%d.jsonl" % idx)
            cmd = [ex, "--root", REPO + "/", "--root", work + "/", "-o", out, f,
                   "--"] + flags(work)
            p = subprocess.run(cmd, capture_output=True, text=True, cwd=work)
            return g, f, out, p

        with ThreadPoolExecutor(8) as tp:
            for g, f, out, p in tp.map(run, list(enumerate(jobs))):
                if not os.path.exists(out):
                    raise AnalysisBroken("front end crashed on %s: %s" % (f, p.stderr[-2000:]))
                with open(out) as fh:
                    for ln in fh:
                        try:
                            o = json.loads(ln)
                        except ValueError:
                            raise AnalysisBroken("front end died on %s: %s" % (f, p.stderr[-2500:]))
                        if o["kind"] == "tu":
                            o["group"] = g
                            o["stderr"] = p.stderr[-3000:]
                            if o["errors"] and g in strict:
                                raise AnalysisBroken("front-end errors in %s: %s" % (f, p.stderr[-2000:]))
                        prog.add(o)
                os.unlink(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    prog.load_s = time.time() - t0
    return prog


if __name__ == "__main__":
    p = load(sys.argv[1:] or ALL_GROUPS)
    for t in p.tus:
        print(t["group"], t["main"], t["errors"])
        if t["errors"]:
            print(t["stderr"][:1500])
    print(len(p.fns), "functions", len(p.recs), "records", p.load_s)
