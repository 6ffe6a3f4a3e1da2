"""P10: names are resolved by the scoping rules of the language.

The recursive walk of the variable analysis is interpreted once per kind of
node, with every helper expanded and only the recursion itself kept as an
event "this part is visited in that environment".  Per kind the events are
compared with the scoping rules: which parts exist, which environment each is
visited in, what that environment defines, that no present part is left out or
visited twice.  The search through the environments is checked iteration by
iteration: it stops exactly at the first definition of the name, collects
every with-expression it passes, and records the use."""
import absint
import treesafe
from absint import T, Rule, Engine, deref
from check import load_prog
from facts import AnalysisBroken
from p09 import Base, strip, mentions, mentions_lp

EXPLANATION = __doc__
V = "nixf::VariableLookupAnalysis"
ENV = "nixf::EnvNode"
DEF = "nixf::Definition"
ATTR = "nixf::Attribute"
SEMA = "nixf::SemaAttrs"
E = "nixf::Expr"
SKIP = ("nixf::Diagnostic", "nixf::PartialDiagnostic", "nixf::Fix", "nixf::TextEdit", "nixf::Note")


def dig(v):
    """(root, [field names]) of an access path."""
    fs = []
    while True:
        v = strip(v)
        if v is None or v.op not in ("sel", "F"):
            return v, fs[::-1]
        fs.append(v.a[1])
        v = v.a[0]


def fields_of(t, d=0):
    if not isinstance(t, absint.Term) or d > 12:
        return set()
    r = {t.a[1]} if t.op in ("sel", "F") else set()
    for a in t.a:
        r |= fields_of(a, d + 1)
    return r


def sub(t, pred, d=0):
    if not isinstance(t, absint.Term) or d > 14:
        return False
    return pred(t) or any(sub(a, pred, d + 1) for a in t.a)


def unlist(prog, node, depth=3):
    """Functions from which the recursion is reached."""
    reach, ch = set(), True
    while ch:
        ch = False
        for f in prog.fns.values():
            if f.id not in reach and f.id != node and any(x and (x.get("fn") == node or x.get("fn") in reach) for x in f.nodes):
                reach.add(f.id)
                ch = True
    return reach


class Loops(Base):
    """Recognises loops over a container, however they are written (range,
    iterator, index): the loop is left when its variable equals end(C) or is
    no longer below size(C).  Collects what every iteration did."""

    def __init__(self, cls):
        super().__init__(cls)
        self.begin = {}       # (fid, head) -> {variable: value before the loop}
        self.iters = {}       # (fid, head) -> [what an iteration did]
        self.heads = {}
        self.left = {}
        self.cont_of = {}     # (fid, head) -> container

    def ev(self, st, *e):
        st.ts["ev"] = st.ts.get("ev", frozenset()) | {e}

    def evs(self, st):
        return st.ts.get("ev", frozenset())

    @staticmethod
    def inloop(x, fid, head):
        return sub(x, lambda y: y.op == "lp" and y.a[0] == fid and y.a[1] == head)

    def name_of(self, fr, c):
        """The field a container is, or the function it comes from."""
        root, fs = dig(c)
        if fs:
            return fs[-1]
        if root is not None and root.op == "call":
            return str(root.a[0])
        if root is not None and root.op in ("V", "lp", "this", "param"):
            pass
        if any(n and n.get("fnm") == "children" for n in fr.fn.nodes):
            return "children"
        return str(root)

    def over(self, eng, st, fr, head):
        """(variable, container term) of a loop being left at its head."""
        fid = eng.fid(fr)
        for (kind, t), x in ((k, x) for k, x in st.facts.items() if k[0] in ("eq", "diff")):
            a, b = t.a
            for u, w in ((a, b), (b, a)):
                if kind == "diff" and u is not a:
                    continue
                if u.op == "lp" and u.a[0] == fid and u.a[1] == head and w.op == "call" and len(w.a) > 1:
                    if kind == "eq" and x is True and w.a[0] in ("end", "cend", "size", "length") or \
                            kind == "diff" and w.a[0] in ("size", "length") and x is not None and x >= 0:
                        return u.a[2], w.a[1]
        return None

    def rule_drop(self, st, pred):
        st.ts["ev"] = frozenset(e for e in self.evs(st) if not any(sub(x, pred) for x in e[1:] if isinstance(x, absint.Term)))

    def on_loop_pre(self, eng, st, fr, head, first):
        fid = eng.fid(fr)
        t = fr.info.blocks[head].get("t")
        self.heads[(fid, head)] = (fr.fn, fr.fn.nodes[t].get("l") if t is not None else fr.fn.l)
        if first:
            for k, v in st.env.items():
                if k.op == "V" and k.a[0] == fid:
                    self.begin.setdefault((fid, head), {}).setdefault(k, set()).add(strip(v))

    def on_loophead(self, eng, st, fr, head, first):
        fid = eng.fid(fr)
        self.rule_drop(st, lambda x: x.op == "lp" and x.a[0] == fid and x.a[1] == head)

    def on_backedge(self, eng, st, fr, head):
        fid = eng.fid(fr)
        ok = True
        for k, v in st.env.items():
            if k.op == "V" and k.a[0] == fid and v.op == "+" and v.a[0].op == "lp" and v.a[0].a[2] == k and v.a[1] != 1 and \
                    v.a[0].a[1] == head:
                ok = k
        null = frozenset((dig(k[1])[1] or [""])[-1] for k, x in st.facts.items()
                         if k[0] == "nn" and x is False and self.inloop(k[1], fid, head))
        d = self.iteration(eng, st, fr, head, [e for e in self.evs(st) if any(
            isinstance(x, absint.Term) and self.inloop(x, fid, head) for x in e[1:])])
        d["null"] = null
        d["step"] = ok
        self.iters.setdefault((fid, head), []).append(d)

    def iteration(self, eng, st, fr, head, evs):
        return {}

    def on_call(self, eng, st, fr, node, n, this, args):
        if n.get("fnm") == "for_each" and (n.get("q") or "").startswith(("std::", "llvm::")) and args:
            # what the closure does is seen as an iteration nobody can name
            c = eng.rv(fr, st, args[0])
            if c.op == "call" and c.a[0] in ("begin", "cbegin") and len(c.a) > 1:
                c = c.a[1]
            self.ev(st, "loop", "closure", 0, self.name_of(fr, c), None)
        return super().on_call(eng, st, fr, node, n, this, args)

    def on_edge(self, eng, st, fr, src, dst):
        lb = fr.info.loop_blocks
        for h in lb:
            if src in lb[h] and dst not in lb[h]:
                fid = eng.fid(fr)
                o = self.over(eng, st, fr, h)
                if o is not None:
                    k, c = o
                    root, fs = dig(c)
                    name = self.name_of(fr, c)
                    self.cont_of[(fid, h)] = (k, name, root if not fs else None)
                    self.ev(st, "loop", fid, h, name, root if not fs else None)
                elif src != h and not (dst in fr.info.blocks and fr.info.blocks[dst].get("noret")):
                    self.left[(fid, h)] = self.heads.get((fid, h), (fr.fn, fr.fn.l))

    def starts(self, fid, head):
        """Does the loop start at the first element?"""
        c = self.cont_of.get((fid, head))
        if c is None:
            return True
        vs = self.begin.get((fid, head), {}).get(c[0], set())
        return all(v.op == "call" and v.a[0] in ("begin", "cbegin") or v.op == "c" and v.a[0] == 0 or mentions_lp(v) or
                   v.op not in ("c", "+") for v in vs)

    def every(self, fid, head, pred):
        """Every iteration of the loop satisfies pred (and there is one)."""
        if fid == "closure":
            return True
        its = self.iters.get((fid, head))
        k = self.cont_of.get((fid, head), (None,))[0]
        return bool(its) and all(pred(d) and (d["step"] is True or d["step"] is not k) for d in its) and self.starts(fid, head)


class Scope(Loops):
    max_depth = 9
    max_inline_blocks = 10 ** 5
    max_states = 300

    def __init__(self, cls, walk, reach):
        super().__init__(cls)
        self.cut = frozenset([walk.id])
        self.walk = walk
        self.reach = reach
        self.bad = {}
        self.visits = 0
        self.envs = 0
        self.exits = 0
        self.attr_kinds = {v["n"]: v["v"] for v in cls.prog.enums["nixf::Attribute::AttributeKind"]["vals"]}
        self.kinds = {v["n"]: v["v"] for v in cls.prog.enums["nixf::Node::NodeKind"]["vals"]}
        self.kind = None
        self.p0 = T("param", walk.id, 0)
        self.p1 = T("param", walk.id, 1)
        self.roles = {}
        self.deferred = {}

    def inline(self, eng, fr, fn):
        if fn.cls in SKIP or "lookupGlobal" in fn.n:
            return False
        if fn.id in self.reach or fn.cls == ENV or (fn.cls or "").startswith("(anonymous") or fn.cls == DEF:
            return True
        return len(fn.blocks) <= 8 or not fn.cls and len(fn.blocks) <= 30 and \
            fn.rel().startswith("libnixf/src/Sema/")

    def fail(self, where, msg):
        f, line = where
        self.bad.setdefault((f.q, msg), (f, line))

    def here(self, fr, node):
        """Innermost position outside small helpers."""
        return fr.fn, fr.fn.nodes[node].get("l", fr.fn.l) if node is not None and node >= 0 else fr.fn.l

    # --- events
    def event(self, eng, st, fr, node, n, this, args):
        fnm = n.get("fnm")
        if n.get("fn") == self.walk.id:
            self.visit(eng, st, fr, node, strip(eng.rv(fr, st, args[0])), strip(eng.rv(fr, st, args[1])))
        elif fnm in ("insert", "insert_or_assign", "emplace", "try_emplace") and this is not None and args:
            root, fs = dig(this)
            m = fs[-1] if fs else ""
            if fnm == "insert" or len(args) == 1:
                b = deref(eng.val(fr, st, args[-1]))
                kv = [strip(eng.read(st, T("F", b, x))) for x in absint.PAIR]
            else:
                kv = [strip(eng.rv(fr, st, a)) for a in args[:2]]
                kb = deref(eng.val(fr, st, args[0]))
            ty = n.get("cls") or ""
            if m.endswith("DefBuilder::Def"):
                self.ev(st, "def", kv[0], kv[1])
            elif m == V + "::ToDef":
                self.ev(st, "todef", kv[0], kv[1])
            elif m == V + "::Envs":
                self.ev(st, "env", kv[0], kv[1])
        return None

    def on_construct(self, eng, st, fr, node, cls, loc):
        if cls == ENV:
            self.envs += 1
            x = strip(eng.read(st, loc)) if loc.op != "D" else loc.a[0]
            st.ts[("made", x)] = frozenset(e for e in self.evs(st) if e[0] in ("def", "loop"))

    # --- which environment
    def env_class(self, eng, st, env):
        if env is self.p1 or env == self.p1:
            return "outer"
        if env.op == "new":
            par = strip(eng.read(st, T("F", deref(env), ENV + "::Parent")))
            return "inner" if par == self.p1 else "a detached environment"
        return "an unknown environment"

    def expect(self, eng, st, v, role):
        """(environment class wanted, why) for a visited part."""
        k = self.kind
        last = role.split("::")[-1]
        if k == "NK_ExprWith":
            return {"With": "outer", "E": "inner"}.get(last)
        if k == "NK_ExprLambda":
            return "inner"
        if k in ("NK_ExprLet", "NK_ExprAttrs", "NK_ExprLegacyLet"):
            if not role.startswith(ATTR):
                return "inner" if k == "NK_ExprLet" else "outer"
            rec = self.recursive(eng, st)
            if k == "NK_ExprLet":
                rec = True
            if rec is None:
                return None
            if not rec:
                return "outer"
            if last == "Key" or self.dynamic(eng, v):
                return "inner"
            root, fs = dig(v)
            kt = T("sel", v.a[0], ATTR + "::Kind")
            inh = eng.cmp_truth(st, "==", kt, absint.C(self.attr_kinds["Inherit"]))
            return None if inh is None else "outer" if inh else "inner"
        return "outer"

    def recursive(self, eng, st):
        for t, x in self.recs(eng, st):
            return x
        return None

    def recs(self, eng, st):
        for k, x in st.facts.items():
            if k[0] == "nn" and isinstance(k[1], absint.Term) and k[1].op == "sel" and k[1].a[1] == SEMA + "::Recursive":
                yield k[1], x

    def dynamic(self, eng, v):
        """Does the attribute come from the dynamic ones?"""
        fs = fields_of(v)
        for c in (SEMA + "::Dynamic", SEMA + "::Static"):
            if c in fs:
                return c.endswith("Dynamic")
        for (fid, h), vs in self.begin.items():
            for k, xs in vs.items():
                if sub(v, lambda x: x.op == "lp" and x.a == (fid, h, k)):
                    return any(SEMA + "::Dynamic" in fields_of(x) for x in xs)
        return False

    def visit(self, eng, st, fr, node, v, env):
        self.visits += 1
        where = self.here(fr, node)
        if any(e[0] == "visit" and e[1] == v for e in self.evs(st)):
            self.fail(where, "a part is visited twice")
        self.ev(st, "visit", v, env)
        root, fs = dig(v)
        role = fs[-1] if fs else "child"
        if self.kind in self.SPECIAL:
            want = self.expect(eng, st, v, role)
            got = self.env_class(eng, st, env)
            name = role.split("::")[-1]
            self.roles.setdefault(role, set()).add(got)
            if want is None:
                self.fail(where, "%s of %s: it is not settled which scope it belongs to when it is visited in the %s" % (
                    name, self.kind[3:], got))
            elif want != got:
                self.fail(where, "%s of %s is visited in the %s environment, by the scoping rules it belongs to the %s one%s" % (
                    name, self.kind[3:], got, want, self.why(eng, st, v, role)))
            elif got == "inner":
                self.inner(eng, st, where, env)
        else:
            if env != self.p1:
                self.fail(where, "a child of a node that opens no scope is visited in another environment")

    def why(self, eng, st, v, role):
        return ""

    SPECIAL = ("NK_ExprWith", "NK_ExprLambda", "NK_ExprLet", "NK_ExprAttrs", "NK_ExprLegacyLet")

    def inner(self, eng, st, where, env):
        """What the new environment must define."""
        syn = strip(eng.read(st, T("F", deref(env), ENV + "::Syntax")))
        k = self.kind
        if k == "NK_ExprWith":
            if syn != self.p0:
                self.fail(where, "the environment of a with-expression does not belong to it")
            return
        kt = None
        if syn is None or syn.op == "null":
            self.fail(where, "the environment is not tied to the expression that opens it")
        made = st.ts.get(("made", env), frozenset())
        if k == "NK_ExprLambda":
            arg = T("sel", T("obj", self.p0), "nixf::ExprLambda::Arg")
            ao = deref(eng.read(st, T("F", deref(self.p0), "nixf::ExprLambda::Arg")))
            ident = eng.read(st, T("F", ao, "nixf::LambdaArg::ID"))
            forms = eng.read(st, T("F", ao, "nixf::LambdaArg::F"))
            names = [fields_of(e[1]) for e in made if e[0] == "def"]
            idd = any("nixf::LambdaArg::ID" in x for x in names)
            if eng.nullness(st, forms) is not False:
                self.later(self.loops(made, "nixf::Formals::Dedup", "nixf::Formals::Members"), "defines_all", where,
                           "the formals of a lambda are not defined in its environment")
            if not idd and eng.nullness(st, ident) is not False:
                dup = any(kk[0] == "nn" and x is True and kk[1].op == "call" and kk[1].a[0] in ("contains", "count") and
                          "nixf::Formals::Dedup" in fields_of(kk[1]) for kk, x in st.facts.items())
                if not dup:
                    self.fail(where, "the argument of a lambda is not defined in its environment")
            return
        # let, rec
        attrs = eng.read(st, T("F", deref(self.p0), "nixf::ExprLet::Attrs")) if k == "NK_ExprLet" else None
        if attrs is None or eng.nullness(st, attrs) is not False:
            self.later(self.loops(made, SEMA + "::Static"), "defines_all", where,
                       "not every binding is defined in the environment of a recursive scope")

    @staticmethod
    def loops(evs, *cont):
        return frozenset((e[1], e[2], e[3]) for e in evs if e[0] == "loop" and e[3] in cont)

    def later(self, loops, table, where, msg):
        """Decided when every path has been seen."""
        self.deferred.setdefault((loops, table, where[0].q, msg), where)

    def finish(self):
        for (loops, table, q, msg), where in self.deferred.items():
            if not any(getattr(self, table)(*x) for x in loops):
                self.fail(where, msg)
        for (fid, h), w in self.left.items():
            its = self.iters.get((fid, h), [])
            if any(d["seen"] for d in its):
                self.fail(w, "a loop over parts can end before every element was visited")

    # --- completeness
    def parts(self, cont):
        return {SEMA + "::Static": (ATTR + "::Value",), SEMA + "::Dynamic": (ATTR + "::Key", ATTR + "::Value"),
                "nixf::Formals::Members": ("nixf::Formal::Default",)}.get(cont)

    def iteration(self, eng, st, fr, head, evs):
        where = self.heads[(eng.fid(fr), head)]
        defs = [e for e in evs if e[0] == "def"]
        for d in defs:
            self.recorded(eng, st, where, d, evs)
        seen = set()
        for e in evs:
            if e[0] == "visit":
                seen.add((dig(e[1])[1] or [""])[-1])
        return dict(seen=frozenset(seen), defs=bool(defs))

    def visits_all(self, fid, head, cont):
        def ok(d):
            if cont == "children":
                return "" in d["seen"] or "" in d["null"]
            for p in self.parts(cont):
                if p in d["seen"] or p in d["null"]:
                    continue
                if p == ATTR + "::Key" and ATTR + "::Value" in d["null"]:
                    continue
                return False
            return True
        return self.every(fid, head, ok)

    def defines_all(self, fid, head, cont):
        return self.every(fid, head, lambda d: d["defs"])

    def recorded(self, eng, st, where, d, evs):
        """A definition made in a loop is found by its node later."""
        syn = strip(eng.read(st, T("F", deref(d[2]), DEF + "::Syntax"))) if d[2] is not None else None
        for e in evs:
            if e[0] == "todef" and e[2] == d[2] and (syn is None or e[1] == syn):
                return
        if syn is not None and syn.op == "null":
            return
        self.fail(where, "a definition is not recorded for the node that makes it")

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        evs = self.evs(st)
        where = (fr.fn, fr.fn.l)
        k = self.kind
        name = k[3:]
        if not any(e[0] == "env" and e[1] == self.p0 and e[2] == self.p1 for e in evs):
            self.fail(where, "the environment of a node is not recorded")

        def every(cont, msg):
            self.later(self.loops(evs, cont), "visits_all", where, msg)
        seen = [e[1] for e in evs if e[0] == "visit"]

        def rd(*fs):
            o = deref(self.p0)
            for f in fs[:-1]:
                o = deref(eng.read(st, T("F", o, f)))
            return eng.read(st, T("F", o, fs[-1]))

        def one(*fs):
            v = rd(*fs)
            if eng.nullness(st, v) is not False and strip(v) not in seen:
                self.fail(where, "%s of %s is not visited on some path" % (fs[-1].split("::")[-1], name))

        def attrs(v):
            if v is not None and eng.nullness(st, v) is False:
                return
            for c in ("Static", "Dynamic"):
                every(SEMA + "::" + c, "the %s attributes of %s are not all visited" % (c.lower(), name))
        if k == "NK_ExprVar":
            return
        if k == "NK_ExprWith":
            one("nixf::ExprWith::With")
            one("nixf::ExprWith::E")
        elif k == "NK_ExprLambda":
            body = rd("nixf::ExprLambda::Body")
            if eng.nullness(st, body) is not False:
                one("nixf::ExprLambda::Body")
                f = rd("nixf::ExprLambda::Arg", "nixf::LambdaArg::F")
                if eng.nullness(st, f) is not False:
                    every("nixf::Formals::Members", "the default values of %s are not all visited" % name)
        elif k == "NK_ExprLet":
            one("nixf::ExprLet::E")
            attrs(rd("nixf::ExprLet::Attrs"))
        elif k == "NK_ExprAttrs":
            attrs(None)
        elif k == "NK_ExprLegacyLet":
            v = rd("nixf::ExprLegacyLet::Attrs")
            if strip(v) not in seen:
                attrs(v)
        else:
            every("children", "the children of %s are not all visited" % name)


def walk_fn(prog):
    """The function the recursion goes through."""
    run = [f for f in prog.fns.values() if f.cls == V and f.n == "runOnAST" and f.cfg]
    if not run:
        raise AnalysisBroken("VariableLookupAnalysis::runOnAST not found")
    c = []
    for x in run[0].nodes:
        g = prog.fns.get(x.get("fn")) if x else None
        if g is not None and g.cls == V and g.cfg and len(g.params) == 2:
            if g.types[g.decls[g.params[0]]["t"]].get("rec") == "nixf::Node":
                c.append(g)
    if not c:
        raise AnalysisBroken("no recursive walk called by runOnAST")
    return run[0], c[0]


def scopes(chk, prog, cls):
    run, walk = walk_fn(prog)
    reach = unlist(prog, walk.id)
    vals = prog.enums["nixf::Node::NodeKind"]["vals"]
    bad = {}
    tot = 0
    for v in vals:
        k = v["n"]
        if "Begin" in k or "End" in k or k == "NK_ExprVar":
            continue
        rule = Scope(cls, walk, reach)
        rule.kind = k
        eng = Engine(prog, rule)

        def init(eng, st, fr):
            kt = eng.read(st, T("F", deref(rule.p0), treesafe.KIND))
            eng.set_dom(st, kt, ("in", frozenset([v["v"]])))
        eng.run_root(walk, init)
        rule.finish()
        tot += rule.visits
        if not rule.exits:
            raise AnalysisBroken("no path through the walk for %s" % k)
        chk.obligation("parts visited in the scope they belong to", not rule.bad, k)
        chk.count("visit_events", rule.visits)
        for key, w in rule.bad.items():
            bad.setdefault(key, w)
    for (q, msg), (f, line) in sorted(bad.items()):
        chk.violation("%s | %s" % (q, msg), "%s:%s" % (f.rel(), line), q, msg, rule="scoping")
    if tot < 10:
        raise AnalysisBroken("only %d visits seen" % tot)


class Lookup(Loops):
    """The search for the definition of a variable."""
    max_depth = 9
    max_inline_blocks = 10 ** 5
    max_states = 300

    def __init__(self, cls, walk):
        super().__init__(cls)
        self.cut = frozenset([walk.id])
        self.walk = walk
        self.p0 = T("param", walk.id, 0)
        self.p1 = T("param", walk.id, 1)
        self.bad = {}
        self.chain = {}       # (fid, head) -> variable location
        self.deferred = {}
        self.exits = 0
        ks = cls.prog.enums[V + "::LookupResultKind"]["vals"]
        self.rk = {v["n"]: v["v"] for v in ks}
        self.wk = [v["v"] for v in cls.prog.enums["nixf::Node::NodeKind"]["vals"] if v["n"] == "NK_ExprWith"][0]

    def inline(self, eng, fr, fn):
        if fn.cls in SKIP or "lookupGlobal" in fn.n:
            return False
        return fn.cls == V or len(fn.blocks) <= 8 or fn.rel().startswith("libnixf/src/Sema/")

    def fail(self, where, msg):
        f, line = where
        self.bad.setdefault((f.q, msg), (f, line))

    def event(self, eng, st, fr, node, n, this, args):
        fnm = n.get("fnm")
        if this is None:
            return None
        root, fs = dig(this)
        if fnm in ("emplace_back", "push_back") and args:
            x = strip(eng.rv(fr, st, args[0]))
            if fs and fs[-1] == DEF + "::Uses":
                self.ev(st, "used", dig_parent(this), x)
            elif "DiagnosticKind" in str(fr.fn.type_of(args[0]).get("s")):
                self.ev(st, "diag", x)
            elif not fs and root is not None and root.op == "V":
                self.ev(st, "push", x, root)
        elif fnm in ("insert", "insert_or_assign", "emplace", "try_emplace") and fs and fs[-1] == V + "::Results" and args:
            b = deref(eng.val(fr, st, args[-1]))
            if len(args) == 1:
                k, r = strip(eng.read(st, T("F", b, absint.PAIR[0]))), T("F", b, absint.PAIR[1])
            else:
                k, r = strip(eng.rv(fr, st, args[0])), b
            kind = eng.read(st, T("F", r, V + "::LookupResult::Kind"))
            d = strip(eng.read(st, T("F", r, V + "::LookupResult::Def")))
            self.ev(st, "result", k, kind, d)
        return None

    def after_call(self, eng, st, fr, node, n, this, args, val):
        if this is None or val is None:
            return
        root, fs = dig(this)
        if n.get("fnm") in ("contains", "count", "find") and fs and fs[-1] == ENV + "::Defs" and args:
            nm = strip(eng.rv(fr, st, args[0]))
            if "nixf::Identifier::Name" in fields_of(nm):
                if val.op == "&":
                    val = eng.read(st, val.a[0])
                self.ev(st, "ask", root if len(fs) == 1 else dig_parent(this), val)
        elif n.get("fnm") == "lookupGlobalPrimOpInfo":
            pass

    def nn_default(self, eng, st, t):
        # the maps of definitions hold no null pointers: every insertion is a new object
        if t.op == "call" and str(t.a[0]) == "at" or t.op == "sel" and t.a[1] == absint.PAIR[1]:
            if {ENV + "::Defs", V + "::WithDefs"} & fields_of(t):
                return True
        return super().nn_default(eng, st, t)

    def found(self, eng, st, val):
        v = eng.truth(st, val)
        if v is not None:
            return v
        for k, x in st.facts.items():
            if k[0] == "eq" and val in k[1].a and any(isinstance(y, absint.Term) and y.op == "call" and y.a[0] in ("end", "cend")
                                                     for y in k[1].a):
                return not x
            if k[0] == "nn" and isinstance(k[1], absint.Term) and k[1].op == "call" and val in k[1].a and \
                    str(k[1].a[0]) in ("operator==", "operator!="):
                return x if k[1].a[0] == "operator!=" else not x
        return None

    def steps(self, eng, st, fr, head):
        """Variables that move along the chain in this loop."""
        fid = eng.fid(fr)
        for k, v in st.env.items():
            if k.op == "V" and k.a[0] == fid and v.op == "sel" and ENV + "::Parent" in fields_of(v) and \
                    sub(v, lambda x: x.op == "lp" and x.a[0] == fid and x.a[1] == head and x.a[2] == k):
                yield k, v, T("lp", fid, head, k)

    def iteration(self, eng, st, fr, head, its):
        fid = eng.fid(fr)
        evs = self.evs(st)
        for k, v, cur in self.steps(eng, st, fr, head):
            where = (fr.fn, fr.fn.nodes[fr.info.blocks[head]["t"]].get("l") if fr.info.blocks[head].get("t") is not None else fr.fn.l)
            self.chain[(fid, head)] = (k, where)
            if strip(v) != T("sel", T("obj", cur), ENV + "::Parent"):
                self.fail(where, "the search does not continue at the enclosing environment")
            asks = [e for e in evs if e[0] == "ask" and e[1] == cur]
            if not asks:
                self.fail(where, "an environment is passed without asking it for the name")
            for e in asks:
                if self.found(eng, st, e[2]) is not False:
                    self.fail(where, "the search goes on past an environment that defines the name")
            # with-expressions are remembered
            syn = eng.read(st, T("F", deref(cur), ENV + "::Syntax"))
            if eng.nullness(st, syn) is not False:
                kt = eng.read(st, T("F", deref(syn), treesafe.KIND))
                if eng.cmp_truth(st, "==", kt, absint.C(self.wk)) is not False:
                    if not any(e[0] == "push" and e[1] == cur for e in evs):
                        self.fail(where, "an enclosing with-expression is passed without being remembered")
        return dict(used=any(e[0] == "used" and V + "::WithDefs" in fields_of(e[1]) and strip(e[2]) == self.p0 for e in its))

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        evs = self.evs(st)
        where = (fr.fn, fr.fn.l)
        asks = [(e, self.found(eng, st, e[2])) for e in evs if e[0] == "ask"]
        hit = [e for e, x in asks if x]
        res = [e for e in evs if e[0] == "result"]
        if len(res) != 1:
            self.fail(where, "a variable gets %s result of its lookup" % ("no" if not res else "more than one"))
            return
        _, key, kind, d = res[0]
        if key != self.p0:
            self.fail(where, "the result is not recorded for the variable")

        def iskind(n):
            return eng.cmp_truth(st, "==", kind, absint.C(self.rk[n]))
        if hit:
            e = hit[0][1]
            if iskind("Defined") is not True:
                self.fail(where, "a name that is defined is not resolved to its definition")
            elif not (ENV + "::Defs" in fields_of(d) and sub(d, lambda x: x == e)):
                self.fail(where, "a name is not resolved to the definition in the environment that defines it")
            if not any(u[0] == "used" and u[1] == d and strip(u[2]) == self.p0 for u in evs):
                self.fail(where, "the use of a definition is not recorded")
            if any(u[0] == "used" and u[1] != d for u in evs) or any(
                    u[0] == "loop" and any(d["used"] for d in self.iters.get((u[1], u[2]), ())) for u in evs):
                self.fail(where, "a defined name also counts as a use of a with-expression")
            return
        if iskind("Defined") is not False:
            self.fail(where, "a name no environment defines is resolved to a definition")
        if iskind("FromWith") is True:
            loops = frozenset((e[1], e[2]) for e in evs if e[0] == "loop")
            self.deferred[(loops, fr.fn.q)] = where
        elif not any(k[0] == "nn" and x is True and isinstance(k[1], absint.Term) and k[1].op == "call" and
                     k[1].a[0] == "empty" for k, x in st.facts.items()) and self.chain and \
                not any(k[0] in ("eq", "dom", "hi") and "size" in str(k[1]) for k in st.facts):
            self.fail(where, "a name is called undefined although a with-expression may provide it")
        elif not any(e[0] == "diag" for e in evs):
            self.fail(where, "an undefined name is not reported")

    def finish(self):
        for (loops, q), where in self.deferred.items():
            if not any(self.every(f, h, lambda d: d["used"]) for f, h in loops):
                self.fail(where, "not every enclosing with-expression counts as used by a name it may provide")
        for (fid, h), (k, where) in self.chain.items():
            st = {x for x in self.begin.get((fid, h), {}).get(k, set()) if not mentions_lp(x)}
            if st and st != {self.p1}:
                self.fail(where, "the search does not start at the environment of the variable")


def dig_parent(t):
    t = strip(t)
    return strip(t.a[0]) if t is not None and t.op in ("sel", "F") else t


def lookups(chk, prog, cls):
    run, walk = walk_fn(prog)
    rule = Lookup(cls, walk)
    eng = Engine(prog, rule)
    v = [x["v"] for x in prog.enums["nixf::Node::NodeKind"]["vals"] if x["n"] == "NK_ExprVar"]

    def init(eng, st, fr):
        eng.set_dom(st, eng.read(st, T("F", deref(rule.p0), treesafe.KIND)), ("in", frozenset(v)))
    eng.run_root(walk, init)
    rule.finish()
    chk.count("lookup_paths", rule.exits)
    chk.count("environment_loops", len(rule.chain))
    chk.obligation("nearest definition wins; every passed with is used", not rule.bad, walk.loc())
    for (q, msg), (f, line) in sorted(rule.bad.items()):
        chk.violation("%s | %s" % (q, msg), "%s:%s" % (f.rel(), line), q, msg, rule="lookup")
    if not rule.exits:
        raise AnalysisBroken("no path through the lookup of a variable")


def run(chk):
    prog = load_prog(["parse", "basic", "sema", "gen"])
    cls = treesafe.Classes(prog)
    scopes(chk, prog, cls)
    lookups(chk, prog, cls)
