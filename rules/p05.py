"""P05: every problem report is complete and lands on the problem it was made for.

Typestate over report objects (diagnostics, notes and fixes), in every function
of the analysis library that creates one, with the helpers that pass such
handles around inlined.  (1) A report gets exactly as many arguments as the
message of its kind has placeholders, on every path; the messages are read off
the (generated) message tables by evaluating them per kind.  (2) A handle to a
report is not used after the list that owns it may have grown, which moves the
reports: every call is assumed to grow the list if it can reach, through the call
graph, an insertion into a list of reports."""
import absint
from absint import T, C, Rule, Engine, addr, deref
from check import load_prog
from facts import AnalysisBroken

EXPLANATION = __doc__
DIAG, NOTE, FIX, PART = "nixf::Diagnostic", "nixf::Note", "nixf::Fix", "nixf::PartialDiagnostic"
HANDLE = (DIAG, NOTE, FIX, PART)
GROW = ("emplace_back", "push_back", "insert", "emplace", "resize", "reserve", "erase", "clear", "pop_back", "assign", "swap")


def eval_table(prog, fname, enum):
    """kind -> constant result of a table function, by interpreting it with the
    parameter fixed."""
    fs = [f for f in prog.fns.values() if f.q == fname and f.cfg and len(f.params) == 1]
    if len(fs) != 1:
        raise AnalysisBroken("anchor vanished: " + fname)
    out = {}
    for e in enum:
        got = []

        class R(Rule):
            def on_exit(self, eng, st, fr):
                if fr.parent is None:
                    got.append(st.env.get(T("RET", eng.fid(fr))))

            def on_call(self, eng, st, fr, node, n, this, args):
                return [] if n.get("q") == "__assert_fail" else None

        def init(eng, st, fr):
            st.env[T("V", eng.fid(fr), fr.fn.params[0])] = C(e["v"])
        Engine(prog, R()).run_root(fs[0], init)
        vals = {g for g in got}
        out[e["v"]] = vals.pop() if len(vals) == 1 else None
    return out


def enum_of(prog, suffix):
    for q, e in prog.enums.items():
        if q.endswith(suffix):
            return e["vals"]
    raise AnalysisBroken("anchor vanished: " + suffix)


def text(t):
    while t is not None and t.op in ("&", "conv", "cast"):
        t = t.a[0]
    return t.a[0] if t is not None and t.op == "str" else None


def placeholders(s):
    """As simpleFormat reads a message: the two characters `{}`, left to right."""
    n = i = 0
    while i < len(s):
        if s[i:i + 2] == "{}":
            n += 1
            i += 2
        else:
            i += 1
    return n


def list_of(fn, ty):
    """Element type when ty is a vector (or similar) of report objects."""
    r = ty.get("rec", "")
    if not r.startswith("std::"):
        return None
    for a in ty.get("args", []):
        if isinstance(a, dict) and a.get("rec") in (DIAG, NOTE, FIX):
            return a["rec"]
        if isinstance(a, dict) and a.get("s") in (DIAG, NOTE, FIX):
            return a["s"]
    return None


class Reports(Rule):
    max_states = 120
    max_depth = 6
    max_inline_blocks = 900000

    def __init__(self, prog, arity):
        super().__init__()
        self.prog = prog
        self.arity = arity
        self.grow_memo = {}
        self.made = {}      # (fn, node) -> [ok, what]
        self.uses = {}
        self.direct = {f.id for f in prog.fns.values() if f.cfg and self.grows_directly(f)}

    @staticmethod
    def rec_of(fn, i):
        ty = fn.type_of(i)
        return ty

    def elem(self, fn, n):
        """Element class of the report list a member call is made on."""
        if n["k"] != "CXXMemberCallExpr":
            return None
        callee = n["ch"][0]
        while fn.nodes[callee]["k"] in ("ParenExpr", "ImplicitCastExpr"):
            callee = fn.nodes[callee]["ch"][0]
        m = fn.nodes[callee]
        if m["k"] != "MemberExpr" or not m["ch"]:
            return None
        ty = fn.type_of(m["ch"][0])
        if ty.get("ptr") and "pt" in ty:
            ty = ty["pt"]
        return list_of(fn, ty)

    def grows_directly(self, f):
        for i in f.walk():
            n = f.nodes[i]
            if n.get("fnm") in GROW and str(n.get("cls", "")).startswith("std::") and self.elem(f, n) == DIAG:
                return True
        return False

    def grows(self, fid, seen=None):
        if fid in self.grow_memo:
            return self.grow_memo[fid]
        seen, w, r = set(), [fid], False
        while w and not r:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.direct:
                r = True
                break
            f = self.prog.fns.get(x)
            if f is None:
                continue
            for e in f.nodes:
                if e and "fn" in e:
                    w.append(e["fn"])
                if e and e["k"] == "LambdaExpr" and "fn" in e:
                    w.append(e["fn"])
        self.grow_memo[fid] = r
        return r

    def handleish(self, f):
        tys = [f.types[f.decls[p]["t"]] for p in f.params]
        if f.ret >= 0:
            tys.append(f.types[f.ret])
        for t in tys:
            s = t.get("s", "")
            if any(h in s for h in HANDLE) and "vector" not in s:
                return True
            rec = self.prog.recs.get(t.get("rec", ""))
            if rec and any(any(h in x["t"].get("s", "") for h in HANDLE) and "vector" not in x["t"].get("s", "")
                           for x in rec["fields"]):
                return True
        return False

    def inline(self, eng, fr, f):
        c = f.cls or ""
        if c in HANDLE:
            return f.n not in ("note", "fix", "operator<<", "tag", "edit")
        rec = self.prog.recs.get(c)
        if rec and any("Diagnostic" in x["t"].get("s", "") and "vector" not in x["t"].get("s", "") for x in rec["fields"]):
            return True
        return self.handleish(f)

    # -- handles
    def make(self, eng, st, fr, node, cls, kind, owner=None):
        h = T("H", eng.fid(fr), node)
        self.finish(eng, st, h, fr, node)
        st.ts[("h", h)] = (cls, kind, 0, False, owner)
        loc = T("TMP", eng.fid(fr), node)
        return [(st, addr(h))]

    def handle(self, st, v):
        while v is not None and v.op in ("&", "D"):
            v = v.a[0]
        while v is not None and v.op == "F":
            v = v.a[0]
        if v is not None and v.op == "H":
            return v
        return None

    def use(self, eng, st, fr, node, h, what):
        k = ("h", h)
        x = st.ts.get(k)
        if x is None:
            return None
        key = (fr.fn.id, node)
        ok = not x[3]
        u = self.uses.setdefault(key, [True, fr.fn.loc(node)])
        if not ok:
            u[0] = False
            self.alarm(eng, fr, node, "%s through a handle to a report after the list that owns it may have grown" % what,
                       "stale handle")
        return x

    def stale(self, st, pred):
        for k in list(st.ts):
            if isinstance(k, tuple) and k[0] == "h":
                x = st.ts[k]
                if pred(x) and not x[3]:
                    st.ts[k] = x[:3] + (True,) + x[4:]

    def finish(self, eng, st, h, fr=None, node=None):
        x = st.ts.pop(("h", h), None)
        if x is None or x[0] == FIX:
            return
        cls, kind, cnt, _, _ = x
        site = self.site[h]
        key = (site[0].id, site[1], kind)
        want = self.arity[cls].get(kind) if kind is not None else None
        ok = want == cnt
        m = self.made.setdefault(key, [True, site, cls, kind])
        if not ok:
            m[0] = False
            fn, nd = site
            k2 = (fn.id, nd, "arity %s" % kind)
            if k2 not in self.alarms:
                what = "report" if cls == DIAG else "note"
                msg = ("a %s of a kind that is not known here" % what) if want is None else \
                    "a %s whose message has %d placeholder(s) leaves with %d argument(s)" % (what, want, cnt)
                self.alarms[k2] = dict(file=fn.rel(), line=fn.nodes[nd].get("l", fn.l), func=fn.q, msg=msg,
                                       inst="arguments %s" % self.names.get((cls, kind), kind), path=[])

    site = {}

    def on_call(self, eng, st, fr, node, n, this, args):
        fn = fr.fn
        q = n.get("q", "")
        fnm = n.get("fnm")
        if q == "__assert_fail":
            return []
        el = self.elem(fn, n)
        if el and fnm in ("emplace_back", "push_back") and el in (DIAG, NOTE):
            if el == DIAG:
                self.stale(st, lambda x: True)
            kind = None
            if args:
                a = eng.rv(fr, st, args[0])
                kind = a.a[0] if a.op == "c" else None
                if kind is None:
                    d = st.facts.get(("dom", a))
                    if d and d[0] == "in":
                        ar = {self.arity[el].get(x) for x in d[1]}
                        if len(ar) == 1:
                            kind = sorted(d[1])[0]
                    if kind is None and a.op == "sel":
                        kind = None
            if fnm == "push_back":
                return None
            h = T("H", eng.fid(fr), node)
            self.site[h] = (fn, node)
            return self.make(eng, st, fr, node, el, kind)
        if el and fnm in GROW:
            self.stale(st, lambda x: el == DIAG or x[0] == el)
            return None
        h = self.handle(st, this) if this is not None else None
        if h is None and fnm == "operator<<" and args:
            h = self.handle(st, eng.val(fr, st, args[0]))
        if h is not None and ("h", h) in st.ts and not n.get("ctor"):
            if fnm in ("note", "fix", "operator<<", "tag", "edit") or not n.get("mconst"):
                x = self.use(eng, st, fr, node, h, {"note": "a note is added", "fix": "a fix is added",
                                                    "operator<<": "an argument is added", "tag": "a tag is added",
                                                    "edit": "an edit is added"}.get(fnm, "access"))
                if x is None:
                    return None
                if fnm == "operator<<":
                    st.ts[("h", h)] = (x[0], x[1], x[2] + 1) + x[3:]
                    return [(st, addr(h))]
                if fnm == "note" or fnm == "fix":
                    cls = NOTE if fnm == "note" else FIX
                    self.stale(st, lambda y: y[0] == cls and y[4] is h)
                    kind = None
                    if fnm == "note":
                        a = eng.rv(fr, st, args[0])
                        kind = a.a[0] if a.op == "c" else None
                    nh = T("H", eng.fid(fr), node)
                    self.site[nh] = (fn, node)
                    return self.make(eng, st, fr, node, cls, kind, h)
                if fnm == "edit":
                    return [(st, addr(h))]
                if fnm == "tag":
                    return [(st, C(0))]
        g = self.prog.fns.get(n.get("fn"))
        if g is not None and g.cfg and not (self.inline(eng, fr, g)) and self.grows(g.id):
            self.stale(st, lambda x: True)
        if g is not None and g.cfg and self.inline(eng, fr, g) and not eng.may_inline(fr, g):
            # a handle passed to something that is not followed is given up
            for a in args:
                h = self.handle(st, eng.val(fr, st, a))
                if h is not None and ("h", h) in st.ts:
                    if self.grows(g.id):
                        self.stale(st, lambda x: True)
                    st.ts.pop(("h", h))
            if self.grows(g.id):
                self.stale(st, lambda x: True)
        return None

    def dead(self, eng, st):
        hs = {k[1] for k in st.ts if isinstance(k, tuple) and k[0] == "h"}
        if not hs:
            return
        memo = {}

        def mentions(t):
            r = memo.get(t)
            if r is None:
                r = frozenset([t]) if t in hs else frozenset()
                if t.op != "H":
                    for x in t.a:
                        if isinstance(x, absint.Term):
                            r |= mentions(x)
                memo[t] = r
            return r
        used = set()
        for v in st.env.values():
            used |= mentions(v)
        for v in st.vals.values():
            if isinstance(v, absint.Term):
                used |= mentions(v)
        for h in hs - used:
            self.finish(eng, st, h)

    def on_edge(self, eng, st, fr, src, dst):
        self.dead(eng, st)

    def on_exit(self, eng, st, fr):
        if fr.parent is None:
            for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == "h"]:
                self.finish(eng, st, k[1])


def run(chk):
    prog = load_prog(["parse", "basic", "sema", "gen"])
    dk, nk = enum_of(prog, "::DiagnosticKind"), enum_of(prog, "::NoteKind")
    arity, names = {}, {}
    for cls, en in ((DIAG, dk), (NOTE, nk)):
        tab = eval_table(prog, cls + "::message", en)
        arity[cls] = {}
        for e in en:
            t = text(tab[e["v"]])
            names[(cls, e["v"])] = e["n"]
            chk.obligation("every kind has a message", t is not None, e["n"])
            if t is None:
                chk.violation("message %s" % e["n"], "", cls + "::message", "no single message for kind " + e["n"],
                              rule="every kind has a message")
            else:
                arity[cls][e["v"]] = placeholders(t)
    rule = Reports(prog, arity)
    rule.names = names
    roots = [f for f in prog.fns.values() if f.cfg and "/libnixf/src/" in f.file and
             not ((f.cls or "") in HANDLE) and f.ret >= 0 and
             not any(h in f.types[f.ret].get("s", "") for h in HANDLE if "vector" not in f.types[f.ret].get("s", ""))]
    n = 0
    for f in sorted(roots, key=lambda f: f.id):
        if not touches(rule, f):
            continue
        if returns_handle(prog, f):
            continue
        eng = Engine(prog, rule)
        eng.step_budget = 400000
        eng.run_root(f)
        n += 1
        if eng.stats["budget"]:
            raise AnalysisBroken("state budget exhausted in " + f.q)
    for key, (ok, site, cls, kind) in rule.made.items():
        chk.obligation("arguments match the placeholders of the message", ok,
                       "%s %s" % (site[0].loc(site[1]), names.get((cls, kind), "?")))
    for key, (ok, where) in rule.uses.items():
        chk.obligation("handle used while valid", ok, where)
    chk.from_alarms(rule.alarms, "reports")
    chk.need("arguments match the placeholders of the message", 40)
    chk.need("handle used while valid", 40)
    chk.cov.update(functions=n, kinds=len(dk), note_kinds=len(nk))


def touches(rule, f):
    for i in f.walk():
        n = f.nodes[i]
        if "fn" not in n:
            continue
        if rule.elem(f, n) or n.get("cls") in HANDLE:
            return True
        g = rule.prog.fns.get(n["fn"])
        if g is not None and g.cfg and rule.handleish(g):
            return True
    return False


def returns_handle(prog, f):
    t = f.types[f.ret]
    s = t.get("s", "")
    if "vector" in s:
        return False
    if any(h in s for h in HANDLE):
        return True
    rec = prog.recs.get(t.get("rec", ""))
    return bool(rec and any("Diagnostic" in x["t"].get("s", "") for x in rec["fields"]))
