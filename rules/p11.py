"""P11: a name, with or rec is reported as unused exactly when nothing in its
scope refers to it.

Built on the interpretation of P10.  Every report of the analysis is an event
with the facts known on its path: which definition it is about, what is known
about its uses and where it comes from.  On paths and loop iterations without
a report the opposite must be known.  Uses must not be counted before every
part of the scope was visited, since a use found later would come too late."""
import absint
import treesafe
from absint import T, C, Engine, deref
from check import load_prog
from facts import AnalysisBroken
from p09 import strip
from p10 import Loops, Scope, walk_fn, unlist, dig, fields_of, sub, V, ENV, DEF, SEMA

EXPLANATION = __doc__
DEFS = ENV + "::Defs"
USES = DEF + "::Uses"


class Reports(Scope):
    max_states = 400

    def __init__(self, cls, walk, reach):
        super().__init__(cls, walk, reach)
        dk = cls.prog.enums["nixf::Diagnostic::DiagnosticKind"]["vals"]
        self.dk = {v["v"]: v["n"] for v in dk}
        self.ds = {v["n"]: v["v"] for v in cls.prog.enums[DEF + "::DefinitionSource"]["vals"]}
        self.reports = 0

    def inline(self, eng, fr, fn):
        if fn.cls in ("nixf::Diagnostic", "nixf::PartialDiagnostic", "nixf::Fix", "nixf::TextEdit", "nixf::Note") or \
                "lookupGlobal" in fn.n or fn.n == "isLive":
            return False
        return fn.id in self.reach or fn.cls in (V, ENV, DEF) or (fn.cls or "").startswith("(anonymous") or \
            len(fn.blocks) <= 8 or fn.rel().startswith("libnixf/src/Sema/") or fn.d.get("lambda") or fn.n.startswith("operator()")

    def visit(self, eng, st, fr, node, v, env):
        self.visits += 1
        if st.ts.get("asked") and self.kind in self.SPECIAL:
            self.fail(self.here(fr, node), "uses are counted before every part of the scope was visited")
        self.ev(st, "visit", v, env)

    def about(self, eng, t):
        """The definition a list of uses belongs to."""
        t = strip(t)
        return strip(t.a[0]) if t is not None and t.op in ("sel", "F") and t.a[1] == USES else None

    def event(self, eng, st, fr, node, n, this, args):
        super().event(eng, st, fr, node, n, this, args)
        if n.get("fnm") in ("emplace_back", "push_back") and this is not None and args:
            if "DiagnosticKind" in str(fr.fn.type_of(args[0]).get("s")):
                kd = eng.rv(fr, st, args[0])
                names = None
                if kd.op == "c":
                    names = [self.dk.get(kd.a[0])]
                else:
                    d = eng.dom(st, kd)
                    if d and d[0] == "in":
                        names = [self.dk.get(x) for x in d[1]]
                rg = strip(eng.rv(fr, st, args[1])) if len(args) > 1 else None
                self.report(eng, st, fr, node, names, rg)
        return None

    def after_call(self, eng, st, fr, node, n, this, args, val):
        if this is None or val is None:
            return
        if n.get("fnm") in ("empty", "size") and self.about(eng, this) is not None:
            st.ts["asked"] = True
        if n.get("fnm") == "isLive":
            st.ts["asked"] = True
            st.ts[("live", strip(this))] = val

    def unused(self, eng, st, d=None):
        """What is known about emptiness of the uses of d (any, if None)."""
        r = []
        for k, x in st.facts.items():
            t = k[1]
            if not isinstance(t, absint.Term):
                continue
            if k[0] == "nn" and t.op == "call" and t.a[0] == "empty" and self.about(eng, t.a[1]) is not None:
                r.append((self.about(eng, t.a[1]), x))
            elif t.op == "call" and t.a[0] == "size" and self.about(eng, t.a[1]) is not None:
                o = self.about(eng, t.a[1])
                if k[0] == "dom" and x == ("in", frozenset([0])) or k[0] == "hi" and x == 0:
                    r.append((o, True))
                elif k[0] == "lo" and x >= 1 or k[0] == "dom" and x[0] == "notin" and 0 in x[1]:
                    r.append((o, False))
                elif k[0] == "nn":
                    r.append((o, not x))
        return [(o, x) for o, x in r if d is None or o == d]

    def report(self, eng, st, fr, node, names, rg):
        where = self.here(fr, node)
        if names is None:
            names = ["?"]
        for nm in names:
            if nm is None or not (nm.startswith("DK_UnusedDef") or nm in ("DK_ExtraWith", "DK_ExtraRecursive")):
                continue
            self.reports += 1
            self.ev(st, "report", nm, rg)
            un = [o for o, x in self.unused(eng, st) if x is True]
            if nm.startswith("DK_UnusedDef"):
                mine = [o for o in un if rg is not None and sub(rg, lambda x: x == o or x == T("obj", o))]
                if not mine:
                    self.fail(where, "a definition is reported as unused although it may have uses")
                    continue
                src = eng.read(st, T("F", deref(mine[0]), DEF + "::Source"))
                want = self.ds.get("DS_" + nm[len("DK_UnusedDef"):])
                if want is None or eng.cmp_truth(st, "==", src, C(want)) is not True:
                    self.fail(where, "%s is reported for a definition of another origin" % nm[3:])
            elif nm == "DK_ExtraWith":
                if not any(self.of_with(o) for o in un):
                    self.fail(where, "a with-expression is reported as unused although it may have uses")
            else:
                if not any(eng.truth(st, v) is False for k, v in st.ts.items() if isinstance(k, tuple) and k[0] == "live"):
                    self.fail(where, "rec is reported as unneeded although a binding may be used")

    def of_with(self, o):
        """The definition that stands for the with-expression itself."""
        return o.op == "new" or sub(o, lambda x: x.op == "call" and self.p0 in x.a)

    def iteration(self, eng, st, fr, head, evs):
        d = super().iteration(eng, st, fr, head, evs)
        fid = eng.fid(fr)
        d["report"] = any(e[0] == "report" for e in evs)
        # known reasons not to report the definition of this iteration
        why = d["report"]
        for o, x in self.unused(eng, st):
            if x is False and self.inloop(o, fid, head):
                why = True
        for k, x in list(st.facts.items()):
            t = k[1]
            if isinstance(t, absint.Term) and t.op == "sel" and self.inloop(t, fid, head):
                if t.a[1] == DEF + "::Source" and eng.cmp_truth(st, "==", t, C(self.ds["DS_LambdaArg"])) is True:
                    why = True
                if t.a[1] == DEF + "::Syntax" and eng.nullness(st, t) is False:
                    why = True
        d["why"] = why
        return d

    def reported_all(self, fid, head, cont):
        return self.every(fid, head, lambda d: d["why"]) and any(d["report"] for d in self.iters[(fid, head)])

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        evs = self.evs(st)
        where = (fr.fn, fr.fn.l)
        k = self.kind
        rep = {e[1] for e in evs if e[0] == "report"}

        def rd(f):
            return eng.read(st, T("F", deref(self.p0), f))
        if k == "NK_ExprLet" and eng.nullness(st, rd("nixf::ExprLet::Attrs")) is not False or \
                k == "NK_ExprLambda" and eng.nullness(st, rd("nixf::ExprLambda::Body")) is not False:
            self.later(frozenset((e[1], e[2], e[3]) for e in evs if e[0] == "loop"), "reported_all", where, "an unused definition of %s is not reported on some path" % k[3:])
        if k == "NK_ExprWith" and "DK_ExtraWith" not in rep:
            # looked up in a table that has no entry for it
            absent = any(kk[0] == "eq" and x is True and sub(kk[1], lambda y: y.op == "call" and y.a[0] == "find" and
                                                             self.p0 in y.a) for kk, x in st.facts.items())
            if not absent and not any(x is False and self.of_with(o) for o, x in self.unused(eng, st)):
                self.fail(where, "an unused with-expression is not reported on some path")
        if k == "NK_ExprAttrs" and "DK_ExtraRecursive" not in rep and self.recursive(eng, st) is True:
            if not any(eng.truth(st, v) is True for kk, v in st.ts.items() if isinstance(kk, tuple) and kk[0] == "live"):
                self.fail(where, "an unneeded rec is not reported on some path")


class Live(Loops):
    """isLive: true exactly when some definition has uses."""

    def __init__(self, cls):
        super().__init__(cls)
        self.rets = []

    about = Reports.about
    unused = Reports.unused

    def iteration(self, eng, st, fr, head, evs):
        return dict(none=any(x is True and self.inloop(o, eng.fid(fr), head) for o, x in self.unused(eng, st)))

    def on_exit(self, eng, st, fr):
        if fr.parent is None:
            v = st.env.get(T("RET", eng.fid(fr)))
            self.rets.append((eng.truth(st, v) if v is not None else None,
                              any(x is False for _, x in self.unused(eng, st)),
                              [(e[1], e[2]) for e in self.evs(st) if e[0] == "loop" and e[3] == DEFS]))


def live(chk, prog, cls):
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.cls != ENV or f.n != "isLive" or not f.cfg:
            continue
        r = Live(cls)
        Engine(prog, r).run_root(f)
        msg = None
        if not r.iters:
            continue      # written without a loop of its own
        for t, some, loops in r.rets:
            if t is True and not some:
                msg = "a scope counts as used although no definition with uses was found"
            elif t is False and not any(r.every(a, b, lambda d: d["none"]) for a, b in loops):
                msg = "a scope counts as unused before every definition was asked for uses"
        chk.obligation("a scope is used iff one of its definitions is", msg is None, f.loc())
        if msg:
            chk.violation("%s | live" % f.q, f.loc(), f.q, msg, rule="unused reports")


def run(chk):
    prog = load_prog(["parse", "basic", "sema", "gen"])
    cls = treesafe.Classes(prog)
    _, walk = walk_fn(prog)
    reach = unlist(prog, walk.id)
    bad = {}
    reports = 0
    for k in Reports.SPECIAL:
        rule = Reports(cls, walk, reach)
        rule.kind = k
        val = rule.kinds[k]
        eng = Engine(prog, rule)

        def init(eng, st, fr):
            eng.set_dom(st, eng.read(st, T("F", deref(rule.p0), treesafe.KIND)), ("in", frozenset([val])))
        eng.run_root(walk, init)
        rule.finish()
        reports += rule.reports
        chk.obligation("reported iff unused", not rule.bad, k)
        chk.count("paths", rule.exits)
        chk.count("report_events", rule.reports)
        for key, w in rule.bad.items():
            bad.setdefault(key, w)
    for (q, msg), (f, line) in sorted(bad.items()):
        chk.violation("%s | %s" % (q, msg), "%s:%s" % (f.rel(), line), q, msg, rule="unused reports")
    live(chk, prog, cls)
    if reports < 4:
        raise AnalysisBroken("only %d reports seen" % reports)
