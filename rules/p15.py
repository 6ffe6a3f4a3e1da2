"""P15: shared state is only touched under its lock, and locks cannot deadlock.

A must-lockset analysis over the control flow graphs, interprocedural and
sensitive to the calling context (which locks are held, which object a call is
made on, which guarded object and which mutex a reference parameter stands
for).  Lambdas run with the locks of the place that calls them; a lambda that is
stored or handed to a thread runs with none.  References, pointers, iterators
and views into guarded state count as the state itself, also after the lock is
gone."""
import re
from check import load_prog
from facts import AnalysisBroken
from p12 import short

EXPLANATION = __doc__

GUARDS = {
    "lspserver::DraftStore::Drafts": "lspserver::DraftStore::Mutex",
    "lspserver::OutboundPort::Outs": "lspserver::OutboundPort::Mutex",
    "lspserver::OutboundPort::OutputBuffer": "lspserver::OutboundPort::Mutex",
    "lspserver::LSPServer::PendingCalls": "lspserver::LSPServer::PendingCallsLock",
    "lspserver::LSPServer::TopID": "lspserver::LSPServer::PendingCallsLock",
    "lspserver::StreamLogger::Logs": "lspserver::StreamLogger::LogsLock",
    "nixd::Controller::Options": "nixd::Controller::OptionsLock",
    "nixd::Controller::Config": "nixd::Controller::ConfigLock",
    "nixd::Controller::TUs": "nixd::Controller::TUsLock",
    "nixd::Controller::SuppressedDiagnostics": "nixd::Controller::SuppressedDiagnosticsLock",
}
LOCKS = {"std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock"}
MUTEX = {"std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex",
         "std::recursive_timed_mutex", "std::shared_timed_mutex"}
# Functions that keep a callable for later, perhaps on another thread.
DEFER = ("boost::asio::", "std::thread", "std::async", "std::jthread", "std::packaged_task")
ERASED = {"llvm::unique_function", "std::function", "std::move_only_function"}
VIEWS = {"llvm::StringRef", "std::basic_string_view", "llvm::ArrayRef", "std::span", "llvm::MutableArrayRef"}
SYNC = MUTEX | {"std::atomic", "std::condition_variable", "std::binary_semaphore", "std::counting_semaphore"}


def is_cb(ty):
    """A callback that receives a result (not a function that sends a message)."""
    return bool(re.match(r"(class )?(llvm::)?unique_function<void \((class )?(llvm::)?Expected<", ty.get("s", "")))


def alias_type(ty):
    s = ty.get("rec") or ""
    return bool(ty.get("ref") or ty.get("ptr") is not None and ty.get("ptr") is not False or s in VIEWS or
                "iterator" in s.lower())


def pointer(ty):
    return "ptr" in ty or ty.get("s", "").endswith("*")


class Ctx:
    def __init__(self, an, fn, env, this, lams):
        self.an, self.fn, self.env, self.this, self.lams = an, fn, dict(env), this, dict(lams)
        self.alias = {}      # local decl -> path of guarded state
        self.ret = None


class Locks:
    def __init__(self, prog):
        self.prog = prog
        self.bad = {}
        self.memo = {}
        self.stack = []
        self.sites = {}     # (fn id, node) -> [held ok]
        self.edges = {}     # (lock class, lock class) -> where
        self.acquired = 0
        self.reached = set()
        self.guards = {}
        for g, m in GUARDS.items():
            if self.has_field(g) and self.has_field(m):
                self.guards[g] = m
        # Classes with a mutex that guards nothing known (renamed members): every plain member is guarded by it.
        for q, r in prog.recs.items():
            fs = r.get("fields", [])
            ms = [f for f in fs if (f["t"].get("rec") in MUTEX) and not f["t"].get("ref")]
            for m in ms:
                mq = q + "::" + m["n"]
                if mq in self.guards.values() or len(ms) != 1:
                    continue
                for f in fs:
                    t = f["t"]
                    if f is m or t.get("rec") in SYNC or t.get("const") or "::Event" in q:
                        continue
                    if q.startswith(("lspserver::DraftStore", "lspserver::OutboundPort", "lspserver::StreamLogger")) and \
                            f["n"] not in ("Pretty", "MinLevel"):
                        self.guards.setdefault(q + "::" + f["n"], mq)

    def has_field(self, q):
        r, n = q.rsplit("::", 1)
        r = self.prog.recs.get(r)
        return bool(r) and any(f["n"] == n for f in r.get("fields", []))

    # -- paths -----------------------------------------------------------
    def path(self, cx, i):
        """The object an expression names: a tuple of steps, or None."""
        fn = cx.fn
        while i is not None and i >= 0:
            n = fn.nodes[i]
            k = n["k"]
            if k in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "ExprWithCleanups",
                     "MaterializeTemporaryExpr", "CXXConstCastExpr", "CXXBindTemporaryExpr"):
                i = n["ch"][0]
                continue
            if k == "UnaryOperator" and n.get("op") in ("*", "&"):
                i = n["ch"][0]
                continue
            if k == "CallExpr" and n.get("q") in ("std::move", "std::forward", "std::ref", "std::as_const", "std::addressof",
                                                  "std::cref"):
                i = n["ch"][-1]
                continue
            if k == "CXXConstructExpr" and n.get("cls") == "std::reference_wrapper" and n["ch"]:
                i = n["ch"][0]
                continue
            if k == "CXXThisExpr":
                return cx.this
            if k == "DeclRefExpr":
                d = n["d"]
                dc = fn.decls[d]
                if d in cx.env:
                    return cx.env[d]
                key = (dc["n"], dc.get("loc"))
                if key in cx.env:
                    return cx.env[key]
                if dc.get("glob"):
                    return ("glob", dc.get("q") or dc["n"])
                return ("local", fn.id, d)
            if k == "MemberExpr":
                dc = fn.decls[n["d"]]
                if dc["k"] not in ("Field", "FieldDecl"):
                    return None
                b = self.path(cx, n["ch"][0]) if n.get("ch") else cx.this
                return (b or ("?",)) + (dc.get("q") or dc["n"],)
            if k in ("CXXOperatorCallExpr",) and n.get("op") in ("*", "->"):
                i = n["ch"][1] if len(n["ch"]) > 1 else None
                continue
            return None
        return None

    def guarded(self, p):
        """(state path, lock path) when p names guarded state or a part of it."""
        if not p:
            return None
        for j, s in enumerate(p):
            if s in self.guards and j > 0:
                return p[:j + 1], p[:j] + (self.guards[s],)
            if isinstance(s, tuple) and s[0] == "guarded":
                return s[1], s[2]
        return None

    def derived(self, cx, i, top=True):
        """Guarded state that the value of expression i refers into."""
        fn = cx.fn
        if i is None or i < 0:
            return None
        n = fn.nodes[i]
        k = n["k"]
        if k == "LambdaExpr":
            return None
        if k == "MemberExpr" or k == "DeclRefExpr" or k == "CXXThisExpr":
            if k == "DeclRefExpr":
                dc = fn.decls[n["d"]]
                a = cx.alias.get(n["d"]) or cx.alias.get((dc["n"], dc.get("loc")))
                if a:
                    return a
                if dc["k"] == "Binding" and dc.get("dd") in cx.alias:
                    return cx.alias[dc["dd"]]
            g = self.guarded(self.path(cx, i))
            if g:
                return g
            if k == "MemberExpr" and n.get("ch"):
                return self.derived(cx, n["ch"][0], False)
            return None
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "InitListExpr"):
            ty = fn.type_of(i)
            if not alias_type(ty) and ty.get("rec") and "Proxy" not in ty.get("s", ""):
                return None
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            f = self.callee(cx, i)
            if f is not None:
                return cx.fn.memo.get(("ret", i)) if False else self.rets.get((fn.id, i))
            ty = fn.type_of(i)
            if not (n.get("lv") or n.get("xv") or alias_type(ty) or pointer(ty) or "Proxy" in ty.get("s", "")):
                return None
        if k == "ImplicitCastExpr" and n.get("ck") == "LValueToRValue" and not (alias_type(fn.type_of(i)) or pointer(fn.type_of(i))):
            return None
        for c in n.get("ch", []):
            g = self.derived(cx, c, False) if c is not None and c >= 0 else None
            if g:
                return g
        return None

    rets = {}

    def callee(self, cx, i):
        n = cx.fn.nodes[i]
        f = self.prog.fns.get(n.get("fn"))
        return f if f is not None and f.cfg and n.get("inrepo", True) else None

    # -- analysis of one function in one context ---------------------------
    def run(self, fn, env, this, lams, held, via):
        key = (fn.id, tuple(sorted(env.items(), key=repr)), this, tuple(sorted(lams.items(), key=repr)), held)
        if key in self.memo:
            return self.memo[key]
        if key in self.stack or len(self.stack) > 40:
            return held, None
        self.memo[key] = (held, None)
        self.stack.append(key)
        self.reached.add(fn.id)
        cx = Ctx(self, fn, env, this, lams)
        cx.via = via
        entry = {fn.cfg["entry"]: (held, frozenset(), frozenset())}
        work = [fn.cfg["entry"]]
        out = None
        n = 0
        while work:
            n += 1
            if n > 4000:
                raise AnalysisBroken("lockset analysis of %s does not end" % fn.q)
            b = work.pop()
            h, vs, al = entry[b]
            blk = fn.blocks[b]
            cx.alias = dict(sorted(al, key=repr))
            h, vs = self.block(cx, blk, h, vs)
            al = frozenset(cx.alias.items())
            if b == fn.cfg["exit"]:
                out = h if out is None else out & h
            for s in blk["s"]:
                if s is None or s not in fn.blocks:
                    continue
                if s == fn.cfg["exit"] and not self.noreturn(fn, blk):
                    for m in h - held:
                        self.fail(cx, None, "a lock is still held when the function returns", m)
                new = (h, vs, al) if s not in entry else (entry[s][0] & h, entry[s][1] | vs, entry[s][2] | al)
                if entry.get(s) != new:
                    entry[s] = new
                    if s not in work:
                        work.append(s)
        self.stack.pop()
        if out is None:
            out = held
        r = (out, cx.ret)
        self.memo[key] = r
        return r

    def noreturn(self, fn, blk):
        if blk.get("nr"):
            return True
        for e in blk["e"]:
            if isinstance(e, int) and (fn.nodes[e]["k"] == "CXXThrowExpr" or fn.nodes[e].get("q") in (
                    "__assert_fail", "std::terminate", "abort", "exit", "_exit", "std::abort", "std::exit",
                    "llvm::llvm_unreachable_internal", "llvm::report_fatal_error", "std::__throw_bad_optional_access")):
                return True
        return False

    def block(self, cx, blk, h, vs):
        fn = cx.fn
        for e in blk["e"]:
            if isinstance(e, int):
                h, vs = self.element(cx, e, h, vs)
            elif e[0] == "dtor":
                for v, m in [x for x in vs if x[0] == e[1]]:
                    h = h - {m}
                vs = frozenset(x for x in vs if x[0] != e[1])
            elif e[0] == "init":
                pass
        return h, vs

    def lock_args(self, cx, i):
        n = cx.fn.nodes[i]
        return [self.path(cx, c) for c in n["ch"] if c >= 0 and self.is_mutex(cx.fn.type_of(c))]

    def is_mutex(self, ty):
        return ty.get("rec") in MUTEX

    def lock_class(self, p):
        q = [s for s in p if isinstance(s, str) and "::" in s]
        return q[-1] if q else repr(p)

    def acquire(self, cx, i, h, m):
        self.acquired += 1
        if m is None:
            return h
        rec = "recursive" in (self.mutex_type(cx, i) or "")
        if m in h and not rec:
            self.fail(cx, i, "a lock is taken that is already held", m)
        for o in h:
            self.edges.setdefault((self.lock_class(o), self.lock_class(m)), (cx.fn, cx.fn.nodes[i].get("l"), cx.via))
        return h | {m}

    def mutex_type(self, cx, i):
        for c in cx.fn.nodes[i].get("ch", []):
            if c >= 0 and self.is_mutex(cx.fn.type_of(c)):
                return cx.fn.type_of(c)["rec"]

    def element(self, cx, i, h, vs):
        fn = cx.fn
        n = fn.nodes[i]
        k = n["k"]
        if k == "DeclStmt":
            for v in n.get("vars", []):
                d, init = v["d"], v.get("init", -1)
                dc = fn.decls[d]
                ty = fn.types[dc["t"]] if dc.get("t", -1) >= 0 else {}
                if init is None or init < 0:
                    continue
                if ty.get("rec") in LOCKS:
                    c = init
                    while fn.nodes[c]["k"] in ("ExprWithCleanups", "CXXBindTemporaryExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr",
                                               "CXXFunctionalCastExpr") and fn.nodes[c]["ch"]:
                        c = fn.nodes[c]["ch"][0]
                    cn = fn.nodes[c]
                    if cn["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                        tags = [fn.type_of(a).get("rec") for a in cn["ch"] if a >= 0]
                        for m in self.lock_args(cx, c):
                            if m is None:
                                continue
                            if "std::defer_lock_t" in tags or "std::try_to_lock_t" in tags:
                                vs = vs | {(d, m)}
                                continue
                            if "std::adopt_lock_t" not in tags:
                                h = self.acquire(cx, c, h, m)
                            vs = vs | {(d, m)}
                    continue
                lam = self.lam_of(cx, init)
                if lam is not None:
                    cx.lams[d] = lam
                    continue
                if ty.get("ref"):
                    p = self.path(cx, init)
                    if p and p[0] != "local" and not self.guarded(p):
                        cx.env[d] = p
                    elif self.guarded(p):
                        cx.env[d] = p
                        continue
                if alias_type(ty) or pointer(ty) or v.get("binds"):
                    g = self.derived(cx, init)
                    if g and (dc["k"] != "Decomposition" or ty.get("ref") or True):
                        cx.alias[d] = g
            return h, vs
        if k == "LambdaExpr":
            self.lambda_made(cx, i, h)
            return h, vs
        if n.get("op") == "=" and k in ("BinaryOperator", "CXXOperatorCallExpr"):
            l, r = n["ch"][-2:]
            ln = fn.nodes[fn.strip(l)]
            if ln["k"] == "DeclRefExpr" and fn.decls[ln["d"]]["k"] == "Var" and not fn.decls[ln["d"]].get("glob"):
                ty = fn.types[fn.decls[ln["d"]]["t"]]
                if not ty.get("ref") and (alias_type(ty) or pointer(ty)):
                    g = self.derived(cx, r)
                    if g:
                        cx.alias[ln["d"]] = g
                    else:
                        cx.alias.pop(ln["d"], None)
        if k in ("MemberExpr", "DeclRefExpr"):
            self.access(cx, i, h)
            return h, vs
        if k == "ReturnStmt":
            rt = fn.types[fn.ret] if isinstance(fn.ret, int) and fn.ret >= 0 else {}
            if n.get("ch") and n["ch"][0] >= 0 and (alias_type(rt) or pointer(rt)):
                g = self.derived(cx, n["ch"][0])
                if g:
                    cx.ret = g
                    if len(self.stack) == 1:
                        self.fail(cx, i, "a reference to guarded state leaves the reach of its lock", g[0])
            return h, vs
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.call(cx, i, h, vs)
        return h, vs

    def arg_nodes(self, fn, i):
        n = fn.nodes[i]
        ch = list(n.get("ch", []))
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return None, ch
        if n["k"] == "CXXMemberCallExpr":
            m = fn.nodes[fn.strip(ch[0])]
            base = m["ch"][0] if m["k"] == "MemberExpr" and m.get("ch") else None
            return base, ch[1:]
        if n["k"] == "CXXOperatorCallExpr":
            f = self.prog.fns.get(n.get("fn"))
            if n.get("cls"):
                return (ch[1] if len(ch) > 1 else None), ch[2:]
            return None, ch[1:]
        return None, ch[1:]

    def lam_of(self, cx, i):
        fn = cx.fn
        while i is not None and i >= 0:
            n = fn.nodes[i]
            if n["k"] == "LambdaExpr":
                return self.closure(cx, i)
            if n["k"] == "DeclRefExpr":
                dc = fn.decls[n["d"]]
                return cx.lams.get(n["d"]) or cx.lams.get((dc["n"], dc.get("loc")))
            if n["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                          "CXXFunctionalCastExpr", "CXXStaticCastExpr") or n["k"] == "CXXConstructExpr" and len(n["ch"]) == 1 and (
                              n.get("copy") or n.get("move") or (n.get("cls") in ERASED)):
                i = n["ch"][0] if n["ch"] else None
                continue
            if n["k"] == "CallExpr" and n.get("q") in ("std::move", "std::forward"):
                i = n["ch"][-1]
                continue
            return None
        return None

    def closure(self, cx, i):
        n = cx.fn.nodes[i]
        f = self.prog.fns.get(n.get("fn"))
        if f is None or not f.cfg:
            return None
        env, lams = [], []
        for c in n.get("caps", []):
            if c["by"] == "this" or "d" not in c:
                continue
            dc = cx.fn.decls[c["d"]]
            key = (dc["n"], dc.get("loc"))
            if c["by"] == "ref":
                p = cx.env.get(c["d"]) or cx.env.get(key)
                if p:
                    env.append((key, p))
            a = cx.alias.get(c["d"]) or cx.alias.get(key)
            if a:
                env.append((key, (("guarded",) + a,)))
            l = cx.lams.get(c["d"]) or cx.lams.get(key)
            if l:
                lams.append((key, l))
        return ("lam", f.id, tuple(env), cx.this, tuple(lams))

    def run_lam(self, cx, lam, h, args=()):
        f = self.prog.fns[lam[1]]
        return self.run(f, dict(lam[2]), lam[3], dict(lam[4]), h, cx.via + ((cx.fn, None),))

    def lambda_made(self, cx, i, h):
        """A closure comes into being: does something keep it?"""
        fn = cx.fn
        par = fn.parents
        c, p = i, par.get(i)
        while p is not None:
            n = fn.nodes[p]
            if n["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                          "CXXFunctionalCastExpr", "CXXStaticCastExpr"):
                pass
            elif n["k"] in ("CXXConstructExpr",) and (n.get("copy") or n.get("move")):
                pass
            elif n["k"] == "CXXConstructExpr" and n.get("cls") in ERASED:
                return self.deferred(cx, i)
            elif n["k"] == "DeclStmt":
                return          # handled where the variable is used
            elif n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXOperatorCallExpr", "CXXTemporaryObjectExpr"):
                return          # handled by the call
            elif n["k"] in ("ReturnStmt", "InitListExpr", "BinaryOperator", "CXXNewExpr", "LambdaExpr"):
                return self.deferred(cx, i)
            else:
                return self.deferred(cx, i)
            c, p = p, par.get(p)
        self.deferred(cx, i)

    def deferred(self, cx, i):
        lam = self.lam_of(cx, i)
        if lam is not None:
            self.run_lam(cx, lam, frozenset())

    def call(self, cx, i, h, vs):
        fn = cx.fn
        n = fn.nodes[i]
        k = n["k"]
        base, args = self.arg_nodes(fn, i)
        q = n.get("q") or ""
        bt = fn.type_of(base) if base is not None and base >= 0 else {}
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.get("cls") in LOCKS:
            return h, vs          # only a variable keeps a lock
        # mutex and lock objects
        if base is not None and base >= 0 and self.is_mutex(bt):
            m = self.path(cx, base)
            if n.get("fnm") in ("lock", "lock_shared"):
                return self.acquire(cx, i, h, m), vs
            if n.get("fnm") in ("unlock", "unlock_shared"):
                return h - {m}, vs
            return h, vs
        if base is not None and base >= 0 and bt.get("rec") in LOCKS:
            b = fn.nodes[fn.strip(base)]
            ms = [m for v, m in vs if b["k"] == "DeclRefExpr" and v == b["d"]]
            for m in ms:
                if n.get("fnm") == "lock":
                    h = self.acquire(cx, i, h, m)
                elif n.get("fnm") in ("unlock", "release"):
                    h = h - {m}
            return h, vs
        if q == "std::lock":
            for a in args:
                m = self.path(cx, a)
                if m and self.is_mutex(fn.type_of(a)):
                    h = self.acquire(cx, i, h, m)
            return h, vs
        # calling a closure
        if n.get("op") == "()" and base is not None:
            lam = self.lam_of(cx, base)
            if lam is not None:
                h2, r = self.run_lam(cx, lam, h)
                if r:
                    self.rets[(fn.id, i)] = r
                return h2, vs
            if bt.get("rec") in ERASED:
                if h and is_cb(bt):
                    self.fail(cx, i, "a callback is called while a lock is held", sorted(h, key=repr)[0])
                return h, vs
        f = self.callee(cx, i)
        lamargs = [(j, self.lam_of(cx, a)) for j, a in enumerate(args) if a >= 0]
        lamargs = [(j, l) for j, l in lamargs if l is not None]
        if f is None:
            for j, l in lamargs:
                later = q.startswith(DEFER) or n.get("cls") in ERASED or (n.get("cls") or "").startswith(DEFER)
                self.run_lam(cx, l, frozenset() if later else h)
            return h, vs
        env, lams = {}, {}
        for j, l in lamargs:
            if j < len(f.params):
                pt = f.types[f.decls[f.params[j]]["t"]]
                if pt.get("rec") in ERASED:
                    self.run_lam(cx, l, frozenset())
                else:
                    lams[f.params[j]] = l
        for j, a in enumerate(args):
            if a < 0 or j >= len(f.params):
                continue
            pd = f.params[j]
            pt = f.types[f.decls[pd]["t"]]
            if pt.get("ref") or pointer(pt):
                p = self.path(cx, a)
                if p and p[0] != "local" and (self.guarded(p) or any(s in self.guards.values() for s in p) or
                                              self.interesting(f.types[f.decls[pd]["t"]])):
                    env[pd] = p
                    continue
            if alias_type(pt) or pointer(pt):
                g = self.derived(cx, a)
                if g:
                    env[pd] = (("guarded",) + g,)
        this = ("?",)
        if base is not None and base >= 0:
            this = self.path(cx, base) or ("?",)
            if this[0] == "local" and len(this) == 3:
                this = ("local",)
        elif f.cls and not f.d.get("static") and k == "CXXMemberCallExpr":
            this = cx.this
        if f.d.get("ctor") or f.n.startswith("~") or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            this = ("new",)
        h2, r = self.run(f, env, this, lams, h, cx.via + ((fn, n.get("l")),))
        if r:
            self.rets[(fn.id, i)] = r
        return h2, vs

    def interesting(self, ty):
        r = self.prog.recs.get(ty.get("rec"))
        return bool(r) and any(g.rsplit("::", 1)[0] == ty.get("rec") for g in self.guards)

    def access(self, cx, i, h):
        fn = cx.fn
        n = fn.nodes[i]
        g = None
        if n["k"] == "MemberExpr":
            dc = fn.decls[n["d"]]
            q = dc.get("q")
            if q not in self.guards:
                return
            g = self.guarded(self.path(cx, i))
        else:
            dc = fn.decls[n["d"]]
            a = cx.alias.get(n["d"]) or cx.alias.get((dc["n"], dc.get("loc")))
            if not a and dc["k"] == "Binding" and dc.get("dd") in cx.alias:
                a = cx.alias[dc["dd"]]
            g = a or self.guarded(cx.env.get(n["d"]) or cx.env.get((dc["n"], dc.get("loc"))))
        if not g:
            return
        if g[0][0] in ("new", "local"):
            return      # nobody else sees the object yet
        if fn.d.get("ctor") or fn.n.startswith("~"):
            return
        if self.passed(cx, i):
            return
        ok = g[1] in h
        self.sites.setdefault((fn.id, i), []).append(ok)
        if not ok:
            self.fail(cx, i, "%s is touched without its lock" % short_field(g[0]), g[1])

    def passed(self, cx, i):
        """Only a reference is handed on; what happens through it counts where it happens."""
        fn = cx.fn
        par = fn.parents
        p = par.get(i)
        c = i
        while p is not None:
            n = fn.nodes[p]
            if n["k"] in ("ImplicitCastExpr",) and n.get("ck") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase") or \
                    n["k"] in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") or \
                    n["k"] == "UnaryOperator" and n.get("op") == "&":
                c, p = p, par.get(p)
                continue
            if n["k"] == "DeclStmt":
                for v in n.get("vars", []):
                    if v.get("init") == c:
                        t = fn.types[fn.decls[v["d"]]["t"]]
                        return bool(t.get("ref"))
                return False
            if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
                f = self.callee(cx, p)
                if f is None:
                    return n.get("q") in ("std::ref", "std::cref", "std::addressof")
                base, args = self.arg_nodes(fn, p)
                if c in args and args.index(c) < len(f.params):
                    t = f.types[f.decls[f.params[args.index(c)]]["t"]]
                    return bool(t.get("ref") or pointer(t))
                return False
            if n["k"] == "LambdaExpr":
                return True
            return False
        return False

    def fail(self, cx, i, msg, m):
        key = (cx.fn.q if not cx.fn.d.get("lambda") else self.outer(cx), msg)
        line = cx.fn.nodes[i].get("l") if i is not None else cx.fn.l
        self.bad.setdefault(key, (cx.fn, line, cx.via, self.lock_class(m) if m else ""))

    def outer(self, cx):
        for f, _ in reversed(cx.via):
            if not f.d.get("lambda"):
                return f.q
        return cx.fn.q


def short_field(p):
    q = [s for s in p if isinstance(s, str) and "::" in s]
    return q[-1].split("::", 1)[1] if q else "shared state"


def cycles(edges):
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    out = []
    for a in sorted(g):
        seen, todo = set(), [(a, (a,))]
        while todo:
            x, path = todo.pop()
            for y in g.get(x, ()):
                if y == a and len(path) > 1 and a == min(path):
                    out.append(path)
                elif y not in seen:
                    seen.add(y)
                    todo.append((y, path + (y,)))
    return out


def run(chk):
    prog = load_prog(["lspserver", "controller", "actions", "eval"])
    an = Locks(prog)
    an.rets = {}
    ours = [f for f in prog.fns.values() if f.cfg and "/nixd/" in f.file]
    called = set()
    for f in ours:
        for n in f.nodes:
            if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if n.get("fn") and n["fn"] != f.id:
                    called.add(n["fn"])
    taken = set()
    for f in ours:
        for n in f.nodes:
            if n["k"] == "UnaryOperator" and n.get("op") == "&":
                c = f.nodes[f.strip(n["ch"][0])]
                if c["k"] == "DeclRefExpr" and f.decls[c["d"]].get("fn"):
                    taken.add(f.decls[c["d"]]["fn"])
    roots = [f for f in ours if not f.d.get("lambda") and (f.id not in called or f.id in taken or f.d.get("virt"))]
    for f in sorted(roots, key=lambda f: f.id):
        an.run(f, {}, ("this", f.cls or ""), {}, frozenset(), ())
    for f in sorted(ours, key=lambda f: f.id):      # only reached through cycles
        if f.id not in an.reached and not f.d.get("lambda"):
            an.run(f, {}, ("this", f.cls or ""), {}, frozenset(), ())
    for (fid, i), oks in sorted(an.sites.items()):
        f = prog.fns[fid]
        chk.obligation("guarded state is touched under its lock", all(oks), f.loc(i))
    cyc = cycles(an.edges)
    for e in sorted(an.edges):
        chk.obligation("locks are taken in one order", not any(set(e) <= set(c) for c in cyc), "%s before %s" % e)
    for c in cyc:
        f, l, via = an.edges[(c[0], c[1])]
        chk.violation("order | " + " < ".join(sorted(c)), "%s:%s" % (f.rel(), l), f.q, "locks are taken in opposite orders: " +
                      ", ".join(short_field((x,)) for x in c), rule="lock order")
    for (q, msg), (f, l, via, m) in sorted(an.bad.items()):
        chk.violation("%s | %s" % (short(q), msg), "%s:%s" % (f.rel(), l), f.q, msg + (" (%s)" % m if m else ""),
                      path=["%s:%s %s" % (g.rel(), ln, g.q) for g, ln in via], rule="lockset")
    chk.count("functions", len(an.reached))
    chk.count("contexts", len(an.memo))
    chk.count("guarded members", len(an.guards))
    chk.count("acquisitions", an.acquired)
    if len(an.guards) < 4 or len(an.sites) < 8:
        raise AnalysisBroken("only %d guarded members, %d accesses" % (len(an.guards), len(an.sites)))
