"""P04: switching between the lexing modes loses and repeats no text.

Typestate over the parser: (1) whenever the mode stack changes, the look-ahead
buffer is empty or the lexer was put back to the first buffered token and the
buffer cleared; (2) every mode pushed by a function is popped on every path out
of it, and nothing else is; (3) a token leaves the look-ahead buffer only as the
new "last token"; (4) looking ahead by N returns the N-th buffered token, read in
the current mode; (5) a token is not consumed on
the strength of a look at it in another mode, and no token is waited for in a
mode that cannot produce it; (6) guards that undo something in their destructor are held by
a named variable."""
import absint
import p02
import parsermodel
from absint import T, C, Engine, Rule, addr, deref
from check import load_prog
from facts import AnalysisBroken

EXPLANATION = __doc__


DROPS = ("clear", "pop_back", "erase", "resize", "swap", "assign", "operator=")


class Reset(Rule):
    """Events on the look-ahead buffer before the mode stack changes."""
    max_depth = 6
    max_inline_blocks = 1 << 30
    join_exits = False

    def __init__(self, chk, base):
        super().__init__()
        self.chk = chk
        self.b = base
        self.sites = {}

    def inline(self, eng, fr, f):
        return (f.cls or "").startswith(("nixf::Parser", "nixf::Token")) or "LexerCursor" in (f.cls or "")

    def on_call(self, eng, st, fr, node, n, this, args):
        b = self.b
        if this is not None and b.buf_op(eng, st, this, b.f_buf):
            m = n.get("fnm")
            if m == "empty":
                return [(st, self.empty(st))]
            if m in ("emplace_back", "push_back", "pop_front", "emplace_front", "push_front", "insert"):
                st.ts["grown"] = min(st.ts.get("grown", 0) + 1, 3)
            if m == "front" or m == "operator[]" and eng.rv(fr, st, args[0]) is C(0):
                loc = T("TMP", eng.fid(fr), node)
                eng.write(st, loc, T("tok0"))
                return [(st, addr(loc))]
            if m in DROPS:
                st.ts["clear"] = True
                return [(st, C(0))]
        if n.get("q") == "nixf::Lexer::setCur" and args:
            v = eng.read(st, deref(eng.val(fr, st, args[0])))
            st.ts["set"] = absint.pretty(v)
            ok = v.op == "sel" and v.a[1].endswith("LCur") and v.a[0].op == "sel" and v.a[0].a[0] is T("tok0")
            st.ts["set"] = ok
            self.ob(eng, fr, node, "the lexer goes back to the first buffered token", ok,
                    "the lexer is not put back to the start of the first token that was looked at")
            return [(st, C(0))]
        if this is not None and b.buf_op(eng, st, this, b.f_state) and n.get("fnm") in ("push", "pop", "emplace"):
            empty = eng.truth(st, self.empty(st))
            ok = empty is True and not st.ts.get("clear") or bool(st.ts.get("clear") and st.ts.get("set"))
            self.ob(eng, fr, node, "look-ahead discarded before the mode changes", ok,
                    "the lexing mode changes while tokens of the old mode may still be buffered")
            return [(st, C(0))]
        return None

    def empty(self, st):
        g = st.ts.get("grown", 0)
        return T("bufempty", g) if g < 3 else T("undef", "size of the buffer")

    def on_exit(self, eng, st, fr):
        if fr.parent is None and st.ts.get("clear") and not st.ts.get("set") and \
                eng.truth(st, self.empty(st)) is not True:
            self.lost = True

    def ob(self, eng, fr, node, kind, ok, msg):
        k = (fr.fn.id, node, kind)
        o = self.sites.setdefault(k, [True, fr.fn.loc(node)])
        if not ok:
            o[0] = False
            self.alarm(eng, fr, node, msg, kind)


def run(chk):
    prog = load_prog(["parse"])
    try:
        lr, zero, mo, rule, eng = p02.parser_model(chk, prog)
    except p02.ModeMixed as e:
        pk = prog.one(parsermodel.P + "::peek")
        chk.violation("%s | mixed modes" % pk.q, pk.loc(), pk.q, str(e), rule="a mode reads tokens one way")
        return
    chk.obligation("a mode reads tokens one way", True)
    p02.report(chk, rule, ("mode balance", "removed token is recorded", "consumed in the mode it was read in",
                          "expected token exists in the lexing mode"))
    for c in rule.kinds:
        chk.obligation("mode balance", True, prog.fns[c[0]].q)
    chk.need("removed token is recorded", 1)

    # (1)
    r = Reset(chk, rule)
    roots = []
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if (f.cls or "") == parsermodel.P and f.cfg and not f.d.get("ctor") and f.id in rule.pops | pushes(prog):
            roots.append(f)
            Engine(prog, r).run_root(f)
    for (fid, node, kind), (ok, where) in r.sites.items():
        chk.obligation(kind, ok, where)
    chk.from_alarms(r.alarms, "mode switch")
    chk.need("look-ahead discarded before the mode changes", 2)

    # discarded look-ahead is read again, also where the mode stays
    work, seen = sorted((f for f in prog.fns.values() if (f.cls or "") == parsermodel.P and f.cfg
                         and drops(f, rule)), key=lambda f: f.q), set()
    while work:
        f = work.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        r = Reset(chk, rule)
        r.lost = False
        Engine(prog, r).run_root(f)
        up = [g for g in prog.fns.values() if g.cfg and any(n and n.get("fn") == f.id for n in g.nodes)] if r.lost else []
        reads = any(n and n.get("q") == parsermodel.P + "::peek" for n in f.nodes)
        if up and not reads and not any(g.id in rule.scc for g in up):
            work += up      # a helper: its callers have to put the lexer back
            continue
        chk.obligation("discarded look-ahead is read again", not r.lost, f.loc())
        if r.lost:
            chk.violation("%s | look-ahead lost" % f.q, f.loc(), f.q,
                          "buffered tokens are discarded and the lexer is not put back to the first of them",
                          rule="discarded look-ahead is read again")
    chk.need("discarded look-ahead is read again", 1)

    # (4)
    pk = prog.one(parsermodel.P + "::peek")
    look(chk, prog, rule, pk)

    # (6)
    guards(chk, prog, rule)
    chk.cov.update(contexts=len(rule.kinds), modes={str(k): v for k, v in mo.items()},
                   mode_switches=[f.q for f in roots])


def pushes(prog):
    out = set()
    for f in prog.fns.values():
        if f.cfg:
            for i in f.walk():
                n = f.nodes[i]
                if n.get("fnm") in ("push", "emplace") and n.get("cls") == "std::stack":
                    out.add(f.id)
    return out


def drops(f, rule):
    """Does the function itself take tokens out of the look-ahead buffer, other than one by one at the front?"""
    for i in f.walk():
        n = f.nodes[i]
        if n.get("fnm") in DROPS and n.get("cls") == "std::deque" or \
                n.get("fnm") == "swap" and n["k"] == "CallExpr":
            if any(f.nodes[x].get("d") is not None and f.decls[f.nodes[x]["d"]].get("n") == rule.f_buf.split("::")[-1]
                   for x in f.walk(i)):
                return True
    return False


def look(chk, prog, base, pk):
    class L(Rule):
        max_depth = 2

        def inline(self, eng, fr, f):
            return (f.cls or "").startswith("nixf::Token")

        def on_call(self, eng, st, fr, node, n, this, args):
            if this is not None and base.buf_op(eng, st, this, base.f_buf) and \
                    n.get("fnm") in ("operator[]", "at", "front", "back"):
                k = eng.rv(fr, st, args[0]) if args else T("end")
                loc = T("TMP", eng.fid(fr), node)
                eng.write(st, loc, T("buffered", k))
                return [(st, addr(loc))]
            return None

        def on_exit(self, eng, st, fr):
            v = eng.read(st, T("RET", eng.fid(fr)))
            want = T("buffered", T("param", pk.id, 0))
            ok = v is want
            chk.obligation("looking ahead by N returns token N", ok, pk.loc())
            if not ok:
                chk.violation("%s | wrong token" % pk.q, pk.loc(), pk.q,
                              "looking ahead by N does not return the N-th buffered token", rule="look-ahead")
    Engine(prog, L()).run_root(pk)
    chk.need("looking ahead by N returns token N", 1)


def guards(chk, prog, rule):
    """Calls returning a guard object must initialise a variable."""
    gq = {q for q, r in prog.recs.items() if q.startswith("nixf::Parser::")
          and any(f.cls == q and f.d.get("dtor") for f in prog.fns.values())}
    if not gq:
        raise AnalysisBroken("anchor vanished: parser guards")
    for f in prog.fns.values():
        if not f.cfg or "libnixf" not in f.file:
            continue
        par = f.parents
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] in ("CXXMemberCallExpr", "CallExpr") and f.type_of(i).get("rec") in gq and \
                    not f.type_of(i).get("ref"):
                x = par.get(i)
                while x is not None and f.nodes[x]["k"] in (
                        "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ImplicitCastExpr",
                        "CXXConstructExpr", "ParenExpr"):
                    x = par.get(x)
                ok = x is not None and f.nodes[x]["k"] in ("DeclStmt", "ReturnStmt")
                chk.obligation("guards are held by a variable", ok, f.loc(i))
                if not ok:
                    chk.violation("%s | guard %s dropped" % (f.q, f.type_of(i)["rec"].split("::")[-1]), f.loc(i), f.q,
                                  "the guard returned here is destroyed at once", rule="guards")
    chk.need("guards are held by a variable", 5)
