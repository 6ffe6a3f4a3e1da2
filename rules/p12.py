"""P12: every request is answered exactly once, with its own id.

A request's obligation to answer is a linear resource.  It exists as the id in
the dispatcher of the server, as the reply callback in handlers and adapters,
and as a captured variable in closures.  Every function and closure that owns
such a resource is interpreted abstractly; on every path it must be used up
exactly once: by answering, by handing it to a function that owns it from then
on, or by moving it into a closure that is itself handed over.  Answering sends
one message that carries the id and either the result or the error."""
import absint
from absint import T, C, Engine, deref
from check import load_prog
from facts import AnalysisBroken

EXPLANATION = __doc__
ASSUMPTIONS = ["closures handed to the thread pool or stored are run once; exceptions that leave a handler are outside of the property",
               "controller and evaluator sources are parsed against declarations of the Nix library, the LSP layer as it is built"]
CB = "unique_function<void (llvm::Expected<"
LOG = {"lspserver::log", "lspserver::elog", "lspserver::vlog", "lspserver::detail::log"}


def is_cb(ty):
    return CB in str(ty.get("s", "")) and not ty.get("ref") and not ty.get("ptr") and not ty.get("lambda") and \
        str(ty.get("s", "")).startswith(("llvm::unique_function", "class llvm::unique_function", "lspserver::Callback", "Callback"))


class Linear(absint.Rule):
    """Uses of the tokens of one function."""
    max_states = 200

    def __init__(self, prog):
        super().__init__()
        self.prog = prog
        self.tokens = {}
        self.exits = 0
        self.uses = 0
        self.bad = {}

    def fail(self, where, msg):
        self.bad.setdefault((where[0].q, msg), where)

    def here(self, fr, node):
        return (fr.fn, fr.fn.nodes[node].get("l", fr.fn.l) if node is not None and node >= 0 else fr.fn.l)

    def inline(self, eng, fr, fn):
        if fn.d.get("lambda"):
            return True
        if not fn.file.startswith(("/repo", self.prog_root())):
            return False
        # a function that owns a callback is checked by itself
        return not any(self.is_token_type(fn.types[fn.decls[d]["t"]]) for d in fn.params) and fn.n not in self.opaque

    opaque = frozenset()

    def prog_root(self):
        import facts
        return facts.REPO

    def is_token_type(self, ty):
        return is_cb(ty)

    def on_escape_lambda(self, eng, st, fr, i, lam):
        return False

    def held(self, eng, st, v, d=0):
        """Tokens that v is or holds."""
        if v in self.tokens:
            return {v}
        if v.op == "lam" and d < 4:
            r = set()
            for key, how, x in v.a[2]:
                if how in ("copy", "copyref") and isinstance(x, absint.Term):
                    r |= self.held(eng, st, eng.read(st, x), d + 1)
            return r
        return set()

    def use(self, eng, st, fr, node, toks, how):
        for t in toks:
            n = st.ts.get(("used", t), 0) + 1
            self.uses += 1
            st.ts[("used", t)] = min(n, 2)
            if n > 1:
                self.fail(self.here(fr, node), "%s is answered twice on some path" % self.tokens[t])

    def local(self, loc):
        while loc.op in ("F", "E"):
            loc = loc.a[0]
        return loc.op in ("V", "TMP")

    def on_call(self, eng, st, fr, node, n, this, args):
        q = n.get("q", "")
        if q in LOG:
            return [(st, None)]
        op = n.get("op")
        if op == "()" and this is not None:
            v = eng.read(st, deref(this))
            if v in self.tokens:
                self.use(eng, st, fr, node, {v}, "called")
                return [(st, None)]       # the callback stays what it is
        if op == "=" and this is not None:
            if not self.local(deref(this)):
                self.use(eng, st, fr, node, self.held(eng, st, eng.rv(fr, st, args[-1])), "stored")
            return None
        if q in ("std::move", "std::forward", "std::swap") or self.transparent(fr, node, n):
            return None
        f = self.prog.fns.get(n.get("fn"))
        if op == "()" and this is not None:
            w = eng.read(st, deref(this))
            if w.op == "lam":
                return None        # followed into its body
        if f is not None and f.cfg and not n.get("virt") and self.inline(eng, fr, f):
            return None
        for j, a in enumerate(args):
            if a < 0:
                continue
            toks = self.held(eng, st, eng.rv(fr, st, a))
            if toks and self.hands_over(fr, n, j, a):
                self.use(eng, st, fr, node, toks, "passed")
        return None

    def hands_over(self, fr, n, j, a):
        if n.get("q") == "std::invoke":
            return True
        m = fr.fn.nodes[a]
        return not m.get("lv")

    def transparent(self, fr, node, n):
        """Wrapping a callable keeps what it holds."""
        return n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and \
            self.is_token_type(fr.fn.type_of(node)) or n["k"] == "CXXConstructExpr" and bool(fr.fn.type_of(node).get("lambda"))

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        for t, name in self.tokens.items():
            if not st.ts.get(("used", t)):
                self.fail((fr.fn, fr.fn.l), "%s is never answered on some path" % name)


def owners(prog):
    """(function, [declarations that own a callback])."""
    import facts
    caps = {}
    for f in prog.fns.values():
        for n in f.nodes:
            if n["k"] == "LambdaExpr":
                for c in n.get("caps", []):
                    if "d" in c and c["by"] == "copy":
                        dc = f.decls[c["d"]]
                        if dc["t"] >= 0 and is_cb(f.types[dc["t"]]):
                            caps.setdefault(n["fn"], set()).add((dc["n"], dc.get("loc")))
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.l, f.id)):
        if not f.cfg or not f.file.startswith(facts.REPO):
            continue
        own = [d for d in f.params if is_cb(f.types[f.decls[d]["t"]])]
        ctx = []
        for i, dc in enumerate(f.decls):
            if (dc["n"], dc.get("loc")) in caps.get(f.id, ()):
                ctx.append(i)
        if f.id in caps and len(ctx) < len(caps[f.id]):
            ctx.append(None)      # captured and not even mentioned
        if own or ctx:
            yield f, own, ctx


def linear(chk, prog, cls=Linear):
    n = 0
    for f, own, ctx in owners(prog):
        n += 1
        rule = cls(prog)
        eng = Engine(prog, rule)
        if None in ctx:
            rule.fail((f, f.l), "the reply is captured and never answered")
        else:
            def init(eng, st, fr):
                for d in own + ctx:
                    t = T("tok", f.id, f.decls[d]["n"])
                    st.env[T("V", eng.fid(fr), d)] = t
                    rule.tokens[t] = "the request" if f.decls[d]["n"] == "Reply" else "the request of %s" % f.decls[d]["n"]
            eng.run_root(f, init)
            if not rule.exits and not has_noreturn(f):
                raise AnalysisBroken("no path through %s" % f.q)
        chk.obligation("a reply is used up exactly once", not rule.bad, f.loc())
        chk.count("paths", rule.exits)
        for (q, msg), (g, line) in sorted(rule.bad.items(), key=lambda x: x[0]):
            chk.violation("%s | %s" % (short(f.q), msg), "%s:%s" % (g.rel(), line), f.q, msg, rule="exactly one answer")
    return n


def has_noreturn(f):
    return False


def short(q):
    return q[:80]


def value_arg(v):
    """The string a StringRef or literal term stands for."""
    while v.op in ("mk", "obj", "wrap") and v.a:
        v = next((a for a in v.a[::-1] if isinstance(a, absint.Term)), None)
        if v is None:
            return None
    return v.a[0] if v.op == "str" else None


def mentions(t, pred, d=0):
    if not isinstance(t, absint.Term) or d > 16:
        return False
    return pred(t) or any(mentions(a, pred, d + 1) for a in t.a)


class Json(Linear):
    """Adds the accessors of JSON objects."""
    GET = {"get", "getString", "getObject", "getArray", "getInteger", "getBoolean", "getNumber"}

    def on_call(self, eng, st, fr, node, n, this, args):
        if n.get("cls") == "llvm::json::Object" and n.get("fnm") in self.GET and this is not None and args:
            s = value_arg(eng.rv(fr, st, args[0]))
            if s is not None:
                o = eng.read(st, deref(this)) if this.op == "&" else this
                t = T("call", "field", o, T("str", s, len(s) + 1))
                if fr.fn.type_of(node).get("ptr"):
                    return [(st, t)]
                loc = T("TMP", eng.fid(fr), node)
                eng.write(st, loc, t)
                return [(st, absint.addr(loc))]
        if n.get("fnm") == "value_or" and this is not None and fr.fn.type_of(node).get("rec"):
            loc = T("TMP", eng.fid(fr), node)
            eng.write(st, loc, T("call", "value_or", eng.read(st, deref(this)), eng.rv(fr, st, args[0])))
            return [(st, absint.addr(loc))]
        if n.get("fnm") == "getAsObject" and this is not None:
            return [(st, T("call", "object", eng.read(st, deref(this))))]
        return super().on_call(eng, st, fr, node, n, this, args)


class Dispatched(Json):
    """The id of a request inside the server."""
    opaque = frozenset(["reply"])

    def transparent(self, fr, node, n):
        return json_value(fr.fn.type_of(node)) or super().transparent(fr, node, n)


class Out(Json):
    """What one outgoing message holds."""
    opaque = frozenset(["sendMessage", "encodeError"])

    def __init__(self, prog, fn, id_, result):
        super().__init__(prog)
        self.fn, self.idp, self.result = fn, id_, result
        self.sent = 0

    def after_call(self, eng, st, fr, node, n, this, args, val):
        if n.get("fnm") == "sendMessage":
            st.ts["sent"] = min(st.ts.get("sent", 0) + 1, 2)
        for a in args:
            v = eng.rv(fr, st, a) if a >= 0 else None
            if v is None:
                continue
            if v.op == "str" and not st.ts.get("sent"):
                st.ts[("str", v.a[0])] = True
        # values that become part of the message
        if n["k"] == "CXXConstructExpr" and (n.get("cls") == "llvm::json::Value" or "json::Value" in str(fr.fn.type_of(node).get("s"))) \
                or n.get("op") == "=":
            for a in args:
                v = eng.rv(fr, st, a) if a >= 0 else None
                if v is not None:
                    for i in range(len(self.fn.params)):
                        p = T("param", self.fn.id, i)
                        if mentions(v, lambda x: x == p):
                            st.ts[("in", i)] = True
        if n.get("fnm") == "encodeError":
            st.ts["enc"] = True

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        where = (self.fn, self.fn.l)
        s = {k[1] for k in st.ts if isinstance(k, tuple) and k[0] == "str"}
        nm = self.fn.n
        if st.ts.get("sent", 0) != 1:
            self.fail(where, "not exactly one message is sent on some path")
            return
        need = {"jsonrpc", "2.0"}
        if self.idp is not None:
            need.add("id")
            if not st.ts.get(("in", self.idp)):
                self.fail(where, "a message is sent without the id it was given")
        if nm != "reply":
            need |= {"method", "params"}
        else:
            ok = eng.truth(st, eng.read(st, T("V", eng.fid(fr), self.fn.params[self.result])))
            ok = eng.nullness(st, T("param", self.fn.id, self.result)) if ok is None else ok
            if ok is not None:
                need.add("result" if ok else "error")
                if ("error" if ok else "result") in s:
                    self.fail(where, "a reply holds an error for a result, or both")
                if ok and not st.ts.get(("in", self.result)):
                    self.fail(where, "a reply is sent without the result")
                if not ok and not st.ts.get("enc"):
                    self.fail(where, "a reply is sent without the error")
            elif not {"result", "error"} & s:
                need.add("result")
        for x in sorted(need - s):
            self.fail(where, "a message is sent without %r" % x)


class Decode(Json):
    """decodeError: the error of a reply becomes one with its code and message."""

    def on_call(self, eng, st, fr, node, n, this, args):
        if n.get("fnm") in ("make_error", "LSPError", "StringError", "createStringError", "error"):
            vs = [eng.rv(fr, st, a) for a in args if a >= 0]
            st.ts["made"] = True
            for k in ("message", "code"):
                if any(mentions(v, lambda x: x.op == "call" and x.a[0] == "field" and value_arg(x.a[2]) == k) for v in vs):
                    st.ts[("has", k)] = True
        return super().on_call(eng, st, fr, node, n, this, args)

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        coded = any(k[0] == "nn" and x is True and mentions(k[1], lambda t: t.op == "call" and t.a[0] == "field" and
                                                            value_arg(t.a[2]) == "code") for k, x in st.facts.items())
        nocode = any(k[0] == "nn" and x is False and mentions(k[1], lambda t: t.op == "call" and t.a[0] == "field" and
                                                              value_arg(t.a[2]) == "code") for k, x in st.facts.items())
        where = (fr.fn, fr.fn.l)
        if not st.ts.get(("has", "message")):
            self.fail(where, "the message of an error reply is dropped")
        if not st.ts.get(("has", "code")) and not nocode:
            self.fail(where, "the code of an error reply is dropped")


class Copies(absint.Rule):
    """Which fields of its parameter a closure passes on."""

    def __init__(self, cls):
        super().__init__()
        self.cls, self.missing, self.exits = cls, set(), 0

    def on_call(self, eng, st, fr, node, n, this, args):
        if n.get("op") == "=" or n.get("fnm") in ("assign", "push_back", "emplace", "insert", "swap", "KV", "Value"):
            for a in args:
                if a >= 0:
                    self.put(st, eng.rv(fr, st, a))

    def on_assign(self, eng, st, fr, node, loc, val):
        self.put(st, val)

    def put(self, st, v):
        st.ts["put"] = st.ts.get("put", frozenset()) | {v}

    def on_exit(self, eng, st, fr):
        if fr.parent is None:
            self.exits += 1
            vals = st.ts.get("put", ())
            for f in ("Message", "Code"):
                q = self.cls + "::" + f
                if not any(mentions(v, lambda x: x.op in ("sel", "F") and x.a[1] == q) for v in vals):
                    self.missing.add(f)


def errors(chk, prog):
    E = "lspserver::LSPError"
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not f.cfg or not f.q.startswith("lspserver::"):
            continue
        ps = [str(f.types[f.decls[d]["t"]].get("s")) for d in f.params]
        if f.d.get("lambda") and len(ps) == 1 and E in ps[0] and "Expected" not in ps[0]:
            r = Copies(E)
            Engine(prog, r).run_root(f)
            chk.obligation("code and message of an error are kept", not r.missing, f.loc())
            for m in sorted(r.missing):
                chk.violation("%s | %s" % (short(f.q), m), f.loc(), f.q,
                              "the %s of an error is not put into the reply" % m.lower(), rule="error replies")
        if f.n == "decodeError":
            r = Decode(prog)
            Engine(prog, r).run_root(f)
            report(chk, r, f, "error replies")
        if f.n == "encodeError":
            lits = {n.get("v") for n in f.nodes if n["k"] == "StringLiteral"}
            for k in ("message", "code"):
                chk.obligation("an error reply has its members", k in lits, f.loc())
                if k not in lits:
                    chk.violation("%s | no %s" % (f.q, k), f.loc(), f.q, "an error reply is made without %r" % k, rule="error replies")


def json_value(ty):
    return str(ty.get("s", "")) in ("llvm::json::Value", "json::Value", "const llvm::json::Value")


def outgoing(chk, prog):
    seen = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.cls != "lspserver::OutboundPort" or f.n not in ("notify", "call", "reply") or not f.cfg:
            continue
        seen += 1
        ps = [f.types[f.decls[d]["t"]] for d in f.params]
        vals = [i for i, t in enumerate(ps) if json_value(t)]
        res = next((i for i, t in enumerate(ps) if "Expected" in str(t.get("s"))), None)
        idp = {"notify": None, "call": vals[-1] if vals else None, "reply": vals[0] if vals else None}[f.n]
        r = Out(prog, f, idp, res)
        Engine(prog, r).run_root(f)
        report(chk, r, f, "outgoing message")
    return seen


def report(chk, r, f, rule):
    chk.obligation(rule, not r.bad, f.loc())
    chk.count("paths", r.exits)
    for (q, msg), (g, line) in sorted(r.bad.items(), key=lambda x: x[0]):
        chk.violation("%s | %s" % (short(f.q), msg), "%s:%s" % (g.rel(), line), f.q, msg, rule=rule)


class Dispatch(Json):
    """A message goes to the handler its members call for."""
    KINDS = ("onCall", "onNotify", "onReply")
    opaque = frozenset(KINDS) | {"decodeError"}

    def after_call(self, eng, st, fr, node, n, this, args, val):
        if n.get("fnm") in self.KINDS and n.get("virt"):
            if st.ts.get("went"):
                self.fail(self.here(fr, node), "a message is handed to two handlers")
            st.ts["went"] = n["fnm"]
            st.ts["ret"] = val

    def on_call(self, eng, st, fr, node, n, this, args):
        if n.get("fnm") in self.KINDS and n.get("virt"):
            vs = [eng.rv(fr, st, a) for a in args]

            def field(v, k):
                return mentions(v, lambda x: x.op == "call" and x.a[0] == "field" and value_arg(x.a[2]) == k)
            where = self.here(fr, node)
            k = n["fnm"]
            if k in ("onCall", "onNotify"):
                if not field(vs[0], "method"):
                    self.fail(where, "a handler is given something else for the method")
                if not (field(vs[1], "params") or self.absent(eng, st, "params")):
                    self.fail(where, "a handler is not given the parameters of the message")
            if k == "onCall" and not field(vs[2], "id"):
                self.fail(where, "a request is handled with an id that is not its own")
            if k == "onReply" and not field(vs[0], "id"):
                self.fail(where, "a reply is matched with an id that is not its own")
            has = {m: self.absent(eng, st, m) for m in ("id", "method")}
            want = "onReply" if has["method"] else "onNotify" if has["id"] else "onCall"
            if has["method"] is not None and (has["id"] is not None or want == "onReply") and want != k:
                self.fail(where, "a message goes to %s although its members call for %s" % (k, want))
            if has["method"] is None:
                self.fail(where, "a message is handed on without looking for a method")
        return super().on_call(eng, st, fr, node, n, this, args)

    def absent(self, eng, st, m):
        """True / False / None: the message has no such member."""
        for k, x in st.facts.items():
            t = k[1]
            if k[0] == "nn" and t.op == "call" and t.a[0] == "field" and value_arg(t.a[2]) == m:
                return not x
        return None

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        rv = st.env.get(T("RET", eng.fid(fr)))
        went = st.ts.get("went")
        where = (fr.fn, fr.fn.l)
        if went:
            t = rv is not None and eng.truth(st, rv)
            if rv != st.ts["ret"] and not (t is not None and t == eng.truth(st, st.ts["ret"])):
                self.fail(where, "the answer of the handler whether to go on is dropped")
        else:
            if rv is None or eng.truth(st, rv) is not False:
                self.fail(where, "a message is dropped silently")
            if self.absent(eng, st, "method") is False:
                self.fail(where, "a message with a method is not handled")


def run(chk):
    prog = load_prog(["lspserver", "controller", "eval"])
    n = linear(chk, prog)
    chk.count("owners", n)
    if n < 20:
        raise AnalysisBroken("only %d functions own a reply callback" % n)
    # the id of a request in the server
    m = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.n == "onCall" and f.cfg and f.d.get("virt") and f.params and json_value(f.types[f.decls[f.params[-1]]["t"]]):
            m += 1
            d = f.params[-1]
            name = f.decls[d]["n"]
            todo = [(f, d)] + [(g, i) for g, i in capturing(prog, f, f.decls[d])]
            for g, i in todo:
                r = Dispatched(prog)
                if i is None:
                    r.fail((g, g.l), "the id is captured and never used")
                else:
                    def init(eng, st, fr):
                        t = T("tok", g.id, name)
                        st.env[T("V", eng.fid(fr), i)] = t
                        r.tokens[t] = "a request"
                    Engine(prog, r).run_root(g, init)
                report(chk, r, g, "exactly one answer")
    k = outgoing(chk, prog)
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.cls == "lspserver::InboundPort" and f.n == "dispatch" and f.cfg:
            r = Dispatch(prog)
            Engine(prog, r).run_root(f)
            report(chk, r, f, "dispatch")
            k += 1
    errors(chk, prog)
    if not m or k < 4:
        raise AnalysisBroken("the dispatcher was not found (%d, %d)" % (m, k))


def capturing(prog, f, dc):
    """Closures made in f that capture the declaration by value."""
    out = []
    for n in f.nodes:
        if n["k"] == "LambdaExpr":
            for c in n.get("caps", []):
                if "d" not in c or c["by"] != "copy":
                    continue
                x = f.decls[c["d"]]
                src = x
                if "init" in c:
                    for y in f.walk(c["init"]):
                        if f.nodes[y]["k"] == "DeclRefExpr" and "d" in f.nodes[y]:
                            z = f.decls[f.nodes[y]["d"]]
                            if (z["n"], z.get("loc")) == (dc["n"], dc.get("loc")):
                                src = z
                if (src["n"], src.get("loc")) != (dc["n"], dc.get("loc")):
                    continue
                g = prog.fns.get(n["fn"])
                if g is None:
                    continue
                i = next((i for i, y in enumerate(g.decls) if (y["n"], y.get("loc")) == (x["n"], x.get("loc"))), None)
                out.append((g, i))
    return out
