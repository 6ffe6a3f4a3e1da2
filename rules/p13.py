"""P13: the reply of the client reaches the call that waits for it, once.

Calls to the client wait in tables from ids to callbacks.  Every function that
touches such a table is interpreted abstractly: what is stored under which id,
which entry is taken out, whether it is erased, and how often it is called.
Entering a call must use an id never used before and send that very id;
an answer must take the entry of its own id, if there is one, erase it and call
it once with the result; an entry that is given up must be called as well."""
import absint
import p12
from absint import T, C, Engine, deref
from check import load_prog
from facts import AnalysisBroken
from p12 import mentions, report, json_value, CB

EXPLANATION = __doc__
MAPS = {"std::map", "std::unordered_map", "std::multimap", "llvm::DenseMap", "llvm::StringMap"}


def tables(prog):
    """Fields that map ids to reply callbacks."""
    out = {}
    for r in prog.recs.values():
        for f in r.get("fields", []):
            ty = f.get("type") or f.get("t") or {}
            if isinstance(ty, int):
                ty = r["types"][ty]
            args = ty.get("args") or []
            if ty.get("rec") in MAPS and len(args) > 1 and any(
                    str(a.get("s", "")).startswith(("llvm::" + CB, "lspserver::Callback", "Callback")) for a in args[1:2]):
                out[f.get("q") or r["q"] + "::" + f["n"]] = r["q"] if "q" in r else None
    return out


class Table(p12.Json):
    max_states = 200
    ACC = {"operator[]", "at", "find", "begin", "extract", "lower_bound", "rbegin", "cbegin"}

    def __init__(self, prog, fields, fn):
        super().__init__(prog)
        self.fields, self.fn = fields, fn
        self.touched = 0
        self.overrides_reply = fn.n == "onReply" and bool(fn.d.get("virt"))
        self.own = [i for i, d in enumerate(fn.params) if p12.is_cb(fn.types[fn.decls[d]["t"]])]

    def inline(self, eng, fr, fn):
        return fn.d.get("lambda") or super().inline(eng, fr, fn)

    def on_escape_lambda(self, eng, st, fr, i, lam):
        return False

    def table(self, t):
        return isinstance(t, absint.Term) and mentions(t, lambda x: x.op in ("F", "sel", "obj", "ver", "call", "r") and
                                                       any(a in self.fields for a in x.a if isinstance(a, str)))

    def entry(self, t):
        """Is t (part of) an entry of a table?"""
        return mentions(t, lambda x: x.op == "call" and x.a[0].split("[")[0] in self.ACC | {"operator"} and
                        len(x.a) > 1 and self.table(x.a[1]) or x.op == "ent")

    def is_table(self, this):
        l = deref(this)
        while l.op in ("obj", "ver"):
            l = l.a[0]
        return l.op == "F" and l.a[1] in self.fields

    def on_call(self, eng, st, fr, node, n, this, args):
        op, fnm = n.get("op"), n.get("fnm")
        where = self.here(fr, node)
        if this is not None and self.is_table(this):
            self.touched += 1
            vs = [eng.rv(fr, st, a) for a in args if a >= 0]
            if fnm in ("insert_or_assign", "emplace", "try_emplace") and len(vs) >= 2:
                self.store(st, vs[0], vs[1])
                return [(st, None)]
            if fnm in ("erase", "extract"):
                st.ts["erased"] = True
                if vs:
                    st.ts[("erased", vs[0])] = True
                if fnm == "extract":
                    loc = T("TMP", eng.fid(fr), node)
                    no = st.clone()
                    no.ts.pop("erased")
                    eng.write(no, loc, T("ent", C(0)))
                    eng.write(st, loc, T("ent", vs[0]))
                    return [(st, absint.addr(loc)), (no, absint.addr(loc))]
                return [(st, None)]
            if op == "[]" or fnm in ("find", "at", "contains", "count"):
                st.ts["key"] = vs[0] if vs else None
            if fnm == "clear":
                self.fail(where, "waiting calls are dropped without an answer")
        if this is not None and (fnm == "empty" or n.get("conv")) and not args:
            v = eng.read(st, deref(this))
            if v.op == "ent":
                return [(st, C(int((v.a[0] == C(0)) == (fnm == "empty"))))]
        if op == "=" and this is not None and args:
            v = eng.rv(fr, st, args[-1])
            l = deref(this)
            if self.entry(l):
                self.store(st, self.keyof(l), v)
                return [(st, None)]
            if self.entry(v) and self.callable(fr, args[-1]):
                self.take(eng, st, where, v)
            return None
        if n["k"] == "CXXConstructExpr" and p12.is_cb(fr.fn.type_of(node)) and args and args[0] >= 0 and \
                fr.fn.nodes[args[0]].get("xv"):
            v = eng.rv(fr, st, args[0])
            if self.entry(v):
                self.take(eng, st, where, v)
        if op == "()" and this is not None and p12.CB in str(n.get("cls")) + str(fr.fn.type_of(node)) or \
                op == "()" and this is not None and n.get("cls") == "llvm::unique_function":
            v = eng.read(st, deref(this))
            if self.entry(v) or self.entry(deref(this)) or st.ts.get("taken"):
                k = st.ts.get("called", 0) + 1
                st.ts["called"] = min(k, 2)
                if k > 1:
                    self.fail(where, "a waiting call is answered twice")
                if self.overrides_reply and args:
                    a = eng.rv(fr, st, args[0])
                    p = T("param", self.fn.id, len(self.fn.params) - 1)
                    if not mentions(a, lambda x: x == p):
                        self.fail(where, "a waiting call is answered with something else than the result")
                return [(st, None)]
        return super().on_call(eng, st, fr, node, n, this, args)

    def callable(self, fr, a):
        s = str(fr.fn.type_of(a).get("s", ""))
        return "unique_function" in s

    def root(self, l):
        while l.op in ("F", "E"):
            l = l.a[0]
        return l

    def keyof(self, l):
        r = []
        mentions(l, lambda x: x.op == "call" and x.a[0].startswith("operator[]") and r.append(x.a[2]) or False)
        return r[0] if r else None

    def take(self, eng, st, where, v):
        st.ts["taken"] = True
        st.ts["where"] = where[1]
        if self.overrides_reply:
            p = T("param", self.fn.id, 0)
            if not mentions(v, lambda x: x == p):
                self.fail(where, "an answer is given to the call of another id")

    def store(self, st, key, v):
        st.ts["stored"] = (key, v)

    def after_call(self, eng, st, fr, node, n, this, args, val):
        f = self.prog.fns.get(n.get("fn"))
        if n.get("cls") == "lspserver::LSPServer" and val is not None and any(
                "unique_function" in str(fr.fn.type_of(a).get("s")) for a in args if a >= 0):
            st.ts["bound"] = val
        if n.get("cls") == "lspserver::OutboundPort" and n.get("fnm") == "call":
            b = st.ts.get("bound")
            v = eng.rv(fr, st, args[-1])
            self.touched += 1
            where = self.here(fr, node)
            if b is None:
                self.fail(where, "a call is sent before somebody waits for its answer")
            elif not mentions(v, lambda x: x == b):
                self.fail(where, "a call is sent with another id than the one that waits")

    def on_cast(self, eng, st, fr, node, n, val):
        if n.get("ck") != "IntegralCast" or not self.overrides_reply:
            return
        c = n["ch"][0]
        a, b = fr.fn.type_of(c), fr.fn.type_of(node)
        if not (a.get("int") and b.get("int") and a["int"] > b["int"]):
            return
        v = eng.rv(fr, st, c)
        if not mentions(v, lambda x: x.op == "param"):
            return
        lo, hi = eng.bounds(st, v)
        m = 1 << (b["int"] - 1)
        if lo is None or hi is None or lo < -m or hi > m - 1:
            self.fail(self.here(fr, node), "the id of an answer is cut to fewer bits, it may match another call")

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        where = (fr.fn, st.ts.get("where", fr.fn.l))
        if st.ts.get("taken"):
            if not st.ts.get("called"):
                self.fail(where, "a waiting call is taken out and not answered on some path")
            if not st.ts.get("erased"):
                self.fail(where, "a waiting call is answered and stays in the table")
        elif st.ts.get("called"):
            if not st.ts.get("erased"):
                self.fail(where, "a waiting call is answered and stays in the table")
        elif st.ts.get("erased"):
            self.fail(where, "a waiting call is forgotten without an answer")
        if self.overrides_reply and not st.ts.get("called"):
            for k, x in st.facts.items():
                if k[0] == "nn" and x is True and mentions(k[1], lambda t: t.op == "call" and t.a[0] in ("contains", "count") and
                                                           self.table(t)):
                    self.fail(where, "an answer to a waiting call is ignored on some path")
        if self.own:
            s = st.ts.get("stored")
            p = T("param", self.fn.id, self.own[0])
            rv = st.env.get(T("RET", eng.fid(fr)))
            if s is None:
                if rv is not None and self.touched:
                    self.fail(where, "a call is not entered into the table on some path")
                return
            if s[1] != p:
                self.fail(where, "a call is entered with another callback")
            if rv is not None and s[0] != rv:
                self.fail(where, "a call is entered under another id than the one that is sent")
            # fresh: a counter that is past the id afterwards
            fresh = s[0] is not None and s[0].op == "sel" or s[0] is not None and s[0].op == "+"
            base = s[0]
            ok = False
            if fresh:
                for k, v in st.env.items():
                    if k.op == "F" and k.a[0].op == "D" and isinstance(v, absint.Term):
                        d = eng.diff_lb(st, v, base)
                        if d is not None and d >= (0 if base.op == "+" else 1) and mentions(base, lambda x: x.op == "sel" and x.a[1] == k.a[1]):
                            ok = True
            if not ok:
                self.fail(where, "an id is used for two calls: the counter does not move past it")


def run(chk):
    prog = load_prog(["lspserver", "controller"])
    tabs = tables(prog)
    if not tabs:
        raise AnalysisBroken("no table of waiting calls found")
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not f.cfg or f.d.get("lambda") or not f.q.startswith("lspserver::"):
            continue
        names = set()
        for m in f.nodes:
            if m["k"] == "MemberExpr":
                names.add(f.decls[m["d"]].get("q"))
        if not names & (set(tabs) | {"lspserver::OutboundPort::call"}):
            continue
        if f.d.get("ctor") or f.n.startswith("~"):
            continue
        r = Table(prog, set(tabs), f)
        Engine(prog, r).run_root(f)
        n += r.touched > 0
        report(chk, r, f, "waiting calls")
    chk.count("tables", len(tabs))
    if n < 3:
        raise AnalysisBroken("only %d functions use the table of waiting calls" % n)
