"""Typestate model of the recursive-descent parser over abstract positions.

The token stream is abstract: `peek(N)` at position p is the symbolic token
tok(mode, p, N); removing the front token of the look-ahead buffer moves p
forward by one if the kind of that token provably is not one of those the
lexer returns without consuming a character, and by an unknown amount >= 0
otherwise.  Functions on a cycle of the call graph are analysed once each and
replaced by summaries (does it return null, did it move forward), computed as a
fixpoint per calling context.  A context is the lexing mode, the constant
arguments and whether a token was consumed before, together with the kinds the
next token may have at the calls seen.
"""
import absint
from absint import T, C, Rule, Engine, addr, deref
from facts import AnalysisBroken

P = "nixf::Parser"
POS = T("G", "#pos")
ENTRY = T("G", "#entry")
MODE = T("G", "#mode")
CAP = 1


def member(prog, cls, pred, what):
    r = prog.recs.get(cls)
    if r is None:
        raise AnalysisBroken("anchor vanished: class " + cls)
    fs = [f for f in r["fields"] if pred(f["t"])]
    if not fs:
        raise AnalysisBroken("anchor vanished: %s of %s" % (what, cls))
    return cls + "::" + fs[0]["n"]


def progressed(st, fid, head, moved):
    """A loop may spend one iteration without consuming anything (it then leaves,
    or consumes in the next one), never two in a row."""
    k = ("idle", fid, head)
    ok = moved or not st.ts.get(k, True)
    st.ts[k] = not moved
    return ok


def left_loops(st, fid, info, dst):
    for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == "idle" and k[1] == fid
              and dst not in info.loop_blocks.get(k[2], ())]:
        del st.ts[k]


class Parser(Rule):
    max_states = 250
    max_depth = 9
    max_inline_blocks = 10 ** 7
    join_exits = True

    def __init__(self, prog, zero, mode_of):
        super().__init__()
        self.prog = prog
        self.zero = zero          # lexer entry -> kinds it may return without progress
        self.mode_of = mode_of    # mode constant -> lexer entry
        self.f_buf = member(prog, P, lambda t: t.get("rec") == "std::deque", "look-ahead buffer")
        self.f_last = member(prog, P, lambda t: t.get("rec") == "std::optional", "last token")
        self.f_state = member(prog, P, lambda t: t.get("rec") == "std::stack", "mode stack")
        self.f_kind = member(prog, "nixf::Token", lambda t: "TokenKind" in t.get("s", ""), "token kind")
        self.summ = {}            # fn id -> {True/False/None: min progress}
        self.kinds = {}           # context -> possible kinds of the next token (None: any)
        self.zero_edges = {}      # context -> {context: where}
        self.sites = {}           # (fn, node, kind) -> [ok, where]
        self.problems = {}        # context -> alarms
        self.deps = {}
        self.scc = self.find_scc()
        self.pops = self.find_pops()
        self.root = None
        self.producible = {}      # lexer entry -> kinds it may return

    # -- static structure
    def find_scc(self):
        out = set()
        for f in self.prog.fns.values():
            if f.cls == P and f.cfg and self.cyc(f):
                out.add(f.id)
        return out

    def cyc(self, f):
        seen, w = set(), [f.id]
        while w:
            g = self.prog.fns.get(w.pop())
            if g is None:
                continue
            for e in g.nodes:
                if e and "fn" in e:
                    if e["fn"] == f.id:
                        return True
                    if e["fn"] not in seen and e["fn"] in self.prog.fns:
                        seen.add(e["fn"])
                        w.append(e["fn"])
        return False

    def find_pops(self):
        """Functions that (transitively) pop the mode stack."""
        base = set()
        for f in self.prog.fns.values():
            if not f.cfg:
                continue
            for i in f.walk():
                n = f.nodes[i]
                if n.get("fnm") == "pop" and n.get("cls") == "std::stack":
                    base.add(f.id)
        return base

    def inline(self, eng, fr, f):
        if f.id in self.scc:
            return False
        c = f.cls or ""
        if c == "nixf::Lexer":
            return False
        return c.startswith(P) or c.startswith("nixf::Token") or "LexerCursor" in c or \
            "libnixf/src/Parse/" in f.file

    # -- helpers
    def this_loc(self, st, fr):
        return None

    def buf_op(self, eng, st, this, fld):
        if this is None:
            return False
        l = deref(this)
        return l.op == "F" and l.a[1] == fld

    def kinds_zero(self, st, mode):
        if mode.op == "c" and mode.a[0] in self.mode_of:
            return self.zero[self.mode_of[mode.a[0]]]
        return set().union(*self.zero.values())

    def token(self, st, eng, n=C(0)):
        return T("tok", eng.read(st, MODE), eng.arith("+", eng.read(st, POS), n))

    def ob(self, eng, fr, node, kind, ok, msg):
        key = (fr.fn.id, node, kind)
        o = self.sites.setdefault(key, [True, fr.fn.loc(node) + " " + kind, fr.fn])
        if not ok:
            o[0] = False
            self.problems.setdefault(self.root, {}).setdefault(
                key, (fr.fn, node, kind, msg, [f.fn.q + ":" + str(f.line) for f in fr.chain()]))

    # -- calls
    def on_call(self, eng, st, fr, node, n, this, args):
        q = n.get("q", "")
        if q == "__assert_fail":
            if self.about_library(fr.fn, node):
                return []
            self.ob(eng, fr, node, "assertion", False, "an assertion can fail on some input")
            return []
        if q == P + "::peek" and fr.fn.q != P + "::peek":
            k = eng.rv(fr, st, args[0]) if args else C(0)
            if k is C(0) and not self.discarded(fr.fn, node):
                st.ts["seen"] = True
                st.ts.pop("stale", None)
            return self.give(eng, st, fr, node, self.token(st, eng, k))
        if this is not None and self.buf_op(eng, st, this, self.f_buf):
            if n.get("fnm") == "front":
                loc = T("TMP", eng.fid(fr), node)
                eng.write(st, loc, self.token(st, eng))
                return [(st, addr(loc))]
            if n.get("fnm") == "pop_front":
                l = eng.read(st, self.last_loc(eng, st, fr))
                got = eng.read(st, T("D", l))
                self.ob(eng, fr, node, "removed token is recorded", got is self.token(st, eng),
                        "a token leaves the look-ahead buffer without becoming the last token")
                self.ob(eng, fr, node, "consumed in the mode it was read in", not st.ts.get("stale"),
                        "a token is consumed that was looked at only in another lexing mode")
                st.ts.pop("seen", None)
                st.ts.pop("stale", None)
                self.advance(eng, st, fr, node)
                return [(st, C(0))]
        if this is not None and self.buf_op(eng, st, this, self.f_state):
            if n.get("fnm") in ("push", "emplace"):
                d = st.ts.get("md", 0) + 1
                st.ts["md"] = d
                self.switched(st)
                m = eng.rv(fr, st, args[0])
                st.env[T("G", "#mode%d" % d)] = eng.read(st, MODE)
                kd = st.facts.get(("dom", T("sel", self.token(st, eng), self.f_kind)))
                om = eng.read(st, MODE)
                st.env[MODE] = m if m.op == "c" else eng.fresh(st, fr, node, "mode")
                if kd and kd[0] == "in" and len(kd[1]) == 1 and om.op == "c" and m.op == "c" and om is not m:
                    # the text of the token in sight is read again in the new mode
                    ks = self.relex(om.a[0], next(iter(kd[1])), m.a[0])
                    if None not in ks:
                        eng.set_dom(st, T("sel", self.token(st, eng), self.f_kind), ("in", frozenset(ks)))
                return [(st, C(0))]
            if n.get("fnm") == "pop":
                self.pop(eng, st, fr, node)
                return [(st, C(0))]
        g = self.prog.fns.get(n.get("fn"))
        if g is not None:
            self.expected(eng, st, fr, node, g, args)
        if g is not None and g.id in self.scc:
            st.ts.pop("seen", None)
            st.ts.pop("stale", None)
            c = self.context(eng, st, fr, node, g, args)
            return self.summary(eng, st, fr, node, c)
        return None

    def about_library(self, fn, node):
        """Assertions on the result of a library conversion (std::errc)."""
        p = fn.parents
        i = node
        while i in p and fn.nodes[i]["k"] not in ("ConditionalOperator", "IfStmt"):
            i = p[i]
        return any("errc" in fn.type_of(x).get("s", "") for x in fn.walk(i))

    def give(self, eng, st, fr, node, val):
        loc = T("TMP", eng.fid(fr), node)
        eng.write(st, loc, val)
        return [(st, addr(loc))]

    def switched(self, st):
        if st.ts.pop("seen", None):
            st.ts["stale"] = True

    def discarded(self, fn, node):
        """The value of the call is not used."""
        par = fn.parents
        x = par.get(node)
        while x is not None and fn.nodes[x]["k"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "ParenExpr",
                                                     "CXXBindTemporaryExpr", "ImplicitCastExpr"):
            x = par.get(x)
        return x is None or fn.nodes[x]["k"] in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt")

    def expected(self, eng, st, fr, node, g, args):
        """A token that is waited for exists in the lexing mode."""
        if not self.producible or (g.cls or "") != P or not any(
                g.nodes[i].get("q") == P + "::peek" for i in g.walk()):
            return
        m = eng.read(st, MODE)
        for j, a in enumerate(args[:len(g.params)]):
            if "TokenKind" in g.types[g.decls[g.params[j]]["t"]].get("s", ""):
                v = eng.rv(fr, st, a)
                if v.op == "c" and m.op == "c" and m.a[0] in self.mode_of:
                    ks = self.producible.get(self.mode_of[m.a[0]], {None})
                    self.ob(eng, fr, node, "expected token exists in the lexing mode", None in ks or v.a[0] in ks,
                            "the token that is waited for does not exist in the lexing mode used here")

    def pop(self, eng, st, fr, node):
        self.switched(st)
        d = st.ts.get("md", 0)
        if d <= 0:
            self.ob(eng, fr, node, "mode balance", False, "a lexing mode is popped that was not pushed here")
            st.env[MODE] = eng.fresh(st, fr, node, "mode")
            return
        st.ts["md"] = d - 1
        st.env[MODE] = st.env.pop(T("G", "#mode%d" % d))

    def on_dtor(self, eng, st, fr, decl, loc):
        ty = fr.fn.types[fr.fn.decls[decl]["t"]]
        rec = ty.get("rec", "")
        if not rec.startswith(P):
            return
        for f in self.prog.fns.values():
            if f.cls == rec and f.d.get("dtor") and self.reach_pop(f):
                self.pop(eng, st, fr, None)
                break

    def reach_pop(self, f, seen=None):
        seen = seen or set()
        if f.id in self.pops:
            return True
        seen.add(f.id)
        for e in f.nodes:
            if e and "fn" in e and e["fn"] in self.prog.fns and e["fn"] not in seen and \
                    (self.prog.fns[e["fn"]].cls or "").startswith(P):
                if self.reach_pop(self.prog.fns[e["fn"]], seen):
                    return True
        return False

    def advance(self, eng, st, fr, node):
        t = self.token(st, eng)
        kind = T("sel", t, self.f_kind)
        mode = eng.read(st, MODE)
        pos = eng.read(st, POS)
        ok = all(eng.truth(st, eng.mkcmp(st, "==", kind, C(z))) is False for z in self.kinds_zero(st, mode))
        if ok:
            st.env[POS] = eng.arith("+", pos, C(1))
        else:
            p = eng.fresh(st, fr, node, "pos")
            self.relate(eng, st, p, pos, 0)
            st.env[POS] = p

    def anchors(self, st):
        return [v for k, v in st.env.items() if k is ENTRY or k.op == "G" and str(k.a[0]).startswith("#head")]

    def relate(self, eng, st, p, old, k):
        """p >= old + k, and the consequences for every anchor."""
        for a in self.anchors(st):
            d = eng.diff_lb(st, old, a)
            if d is not None and d + k >= 0:
                eng.set_diff(st, p, a, min(d + k, CAP))
        eng.set_diff(st, p, old, k)

    def keep_fact(self, k):
        """Facts about tokens behind the current position are dead."""
        return True

    def context(self, eng, st, fr, node, g, args):
        mode = eng.read(st, MODE)
        last = eng.nullness(st, eng.read(st, self.last_loc(eng, st, fr))) is True
        consts = []
        for a in args:
            v = eng.rv(fr, st, a)
            consts.append(v.a[0] if v.op == "c" and g.types[g.decls[g.params[len(consts)]]["t"]].get("s") == "bool"
                          else None)
        c = (g.id, mode.a[0] if mode.op == "c" else None, tuple(consts), last)
        k = T("sel", self.token(st, eng), self.f_kind)
        if k.op == "c":
            ks = frozenset([k.a[0]])
        else:
            d = st.facts.get(("dom", k))
            ks = d[1] if d and d[0] == "in" else None
        if c not in self.kinds:
            self.kinds[c] = ks
        elif ks is None or self.kinds[c] is None:
            self.kinds[c] = None
        else:
            self.kinds[c] = self.kinds[c] | ks
        d = eng.diff_lb(st, eng.read(st, POS), eng.read(st, ENTRY))
        if d is None or d < 1:
            self.zero_edges.setdefault(self.root, {}).setdefault(c, fr.fn.loc(node))
        return c

    def last_loc(self, eng, st, fr):
        return T("F", deref(T("this", P)), self.f_last)

    def summary(self, eng, st, fr, node, c):
        s = self.summ.get(c, {})
        self.deps.setdefault(self.root, set()).add(c)
        out = []
        old = eng.read(st, POS)
        last = self.last_loc(eng, st, fr)
        was = eng.nullness(st, eng.read(st, last)) is True
        items = sorted(s.items(), key=str)
        for j, (nn, prog_) in enumerate(items):
            s2 = st if j == len(items) - 1 else st.clone()
            p = eng.fresh(s2, fr, node, "pos")
            self.relate(eng, s2, p, old, prog_)
            s2.env[POS] = p
            l = eng.fresh(s2, fr, node, "last")
            eng.write(s2, last, l)
            if was or prog_ >= 1:
                s2.facts[("nn", l)] = True
            v = eng.fresh(s2, fr, node, "ret")
            if nn is not None:
                s2.facts[("nn", v)] = nn
            ty = fr.fn.type_of(node)
            if eng.is_class(ty):
                out += self.give(eng, s2, fr, node, v)
            else:
                out.append((s2, v))
        return out

    # -- observations
    def raw_node(self, fn, n):
        """Access through a plain pointer to a syntax node."""
        if "libnixf/src/Parse/" not in fn.file or not n.get("ch"):
            return False
        x = n["ch"][0]
        c = fn.nodes[x]
        if n["k"] == "CXXMemberCallExpr" and c["k"] == "MemberExpr" and c.get("ch"):
            x = c["ch"][0]
        ty = fn.type_of(x)
        return bool(ty.get("ptr")) and ty.get("rec", "").startswith("nixf::") and fn.nodes[x]["k"] != "CXXThisExpr"

    def on_deref(self, eng, st, fr, node, ptr):
        if ptr.op in ("this", "&") or fr.fn.q == P + "::peek":
            return
        n = fr.fn.nodes[node]
        if n.get("cls") in absint.PTR_CLASSES and (fr.fn.cls or "").startswith(P) or self.raw_node(fr.fn, n):
            ok = eng.nullness(st, ptr) is True
            if not ok and ptr.op not in ("r", "sel", "undef", "glob", "null", "lp", "mrg"):
                return
            self.ob(eng, fr, node, "dereference", ok, "dereference of a possibly absent value (%s)" % ptr)

    def on_loop_pre(self, eng, st, fr, head, first):
        h = T("G", "#head%d/%d" % (eng.fid(fr), head))
        pos = eng.read(st, POS)
        if first:
            st.env[h] = pos
            st.ts[("idle", eng.fid(fr), head)] = False
        else:
            ok = self.bounded(fr, head)
            if not ok:
                d = eng.diff_lb(st, pos, st.env[h]) if h in st.env else None
                ok = progressed(st, eng.fid(fr), head, d is not None and d >= 1)
            b = fr.info.blocks[head]
            node = b.get("t")
            if node is None:
                node = next((e for e in b["e"] if isinstance(e, int)), None)
            self.ob(eng, fr, node, "loop progress", ok,
                    "an iteration of this loop may not consume any input")
        self.pend = [(k, eng.diff_lb(st, pos, v)) for k, v in st.env.items()
                     if k is ENTRY or k.op == "G" and str(k.a[0]).startswith("#head") and k is not h]
        self.pend_nn = [loc for loc in (self.last_loc(eng, st, fr),)
                        if eng.nullness(st, eng.read(st, loc)) is True]
        mode = eng.read(st, MODE)
        self.pend_toks = []
        for k, v in st.env.items():
            if v.op == "tok" and v.a[0] is mode and k.op in ("V", "F") and k.root == eng.fid(fr):
                x = eng.arith("-", v.a[1], pos)
                if x.op == "c":
                    self.pend_toks.append((k, x))
        kd = st.facts.get(("dom", T("sel", self.token(st, eng), self.f_kind)))
        self.pend_kind = kd
        self.pend_flags = []
        for k, v in st.env.items():
            if k.op == "V" and k.a[0] == eng.fid(fr):
                lo = eng.diff_lb(st, v, C(0)) if eng.nullness(st, v) is not False else None
                self.pend_flags.append((k, v if v.op == "c" else None, eng.nullness(st, v) if v.op != "c" else None,
                                        lo is not None and lo >= 1, first))

    def on_loophead(self, eng, st, fr, head, first):
        h = T("G", "#head%d/%d" % (eng.fid(fr), head))
        p = T("lp", eng.fid(fr), head, POS)
        st.env[POS] = p
        st.env[h] = p
        for k, d in self.pend:
            if d is not None and d >= 0 and k in st.env:
                eng.set_diff(st, p, st.env[k], min(d, CAP))
        for k, x in self.pend_toks:
            v = st.env.get(k)
            if v is not None and v.op == "lp" and v.a[:2] == (eng.fid(fr), head):
                st.env[k] = self.token(st, eng, x)
        if self.pend_kind is not None:
            st.facts[("dom", T("sel", self.token(st, eng), self.f_kind))] = self.pend_kind
        for loc in self.pend_nn:
            v = eng.read(st, loc)
            if v.op == "glob" or v.op == "sel":
                v = T("lp", eng.fid(fr), head, loc)
                st.env[loc] = v
            st.facts[("nn", v)] = True
        for k, c, nn, pos1, was_first in self.pend_flags:
            v = st.env.get(k)
            if v is not None and v.op == "lp" and v.a[:2] == (eng.fid(fr), head):
                ty = fr.fn.types[fr.fn.decls[k.a[1]]["t"]] if isinstance(k.a[1], int) else {}
                if c is not None and (ty.get("s") == "bool" or was_first and ty.get("int")):
                    st.env[k] = c
                elif ty.get("int") and ty.get("s") != "bool":
                    if pos1:  # a counter that has been incremented
                        eng.tighten(st, v, 1, None)
                elif nn is not None and (ty.get("ptr") or ty.get("rec") in absint.PTR_CLASSES):
                    st.facts[("nn", v)] = nn

    def on_edge(self, eng, st, fr, src, dst):
        left_loops(st, eng.fid(fr), fr.info, dst)

    def bounded(self, fr, head):
        return structurally_bounded(fr.fn, fr.info, head)

    def on_merge(self, eng, st, fr, bid, group):
        anch = [k for k in st.env if k is ENTRY or k.op == "G" and str(k.a[0]).startswith("#head")]
        pos = st.env.get(POS)
        if pos is None:
            return
        kt = [b.facts.get(("dom", T("sel", self.token(b, eng), self.f_kind))) for b in group]
        if all(d is not None and d[0] == "in" for d in kt):
            st.facts[("dom", T("sel", self.token(st, eng), self.f_kind))] = \
                ("in", frozenset().union(*(d[1] for d in kt)))
        elif all(d is not None and d[0] == "notin" for d in kt):
            x = kt[0][1]
            for d in kt:
                x = x & d[1]
            if x:
                st.facts[("dom", T("sel", self.token(st, eng), self.f_kind))] = ("notin", x)
        for k in anch:
            ds = []
            for b in group:
                ds.append(eng.diff_lb(b, eng.read(b, POS), b.env[k]) if k in b.env else None)
            if all(d is not None and d >= 0 for d in ds):
                eng.set_diff(st, pos, st.env[k], min(min(ds), CAP))

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        if st.ts.get("md", 0) != 0:
            self.ob(eng, fr, None, "mode balance", False, "a lexing mode is still pushed when the function returns")
        d = eng.diff_lb(st, eng.read(st, POS), eng.read(st, ENTRY))
        d = 1 if d is not None and d >= 1 else 0
        rv = st.env.get(T("RET", eng.fid(fr)))
        nn = eng.nullness(st, rv) if rv is not None else None
        k = nn
        self.new[k] = min(self.new.get(k, 1), d)

    # -- driver
    def solve(self, eng, entry, mode):
        """Fixpoint over contexts and their summaries, from bottom."""
        self.root_ctx = [(f.id, mode, (), False) for f in entry]
        for c in self.root_ctx:
            self.kinds[c] = None
        rounds = 0
        inputs = {}
        while True:
            rounds += 1
            if rounds > 80:
                raise AnalysisBroken("parser model: no fixpoint after 80 rounds")
            changed = False
            self.used = {}
            for c in sorted(self.kinds, key=str):
                dep = inputs.get(c)
                now = self.inputs_of(c)
                if dep is not None and dep == now:
                    continue
                changed = True
                self.deps[c] = set()
                old = {d: dict(s) for d, s in self.summ.items()}
                k = self.kinds[c]
                self.analyse(eng, c)
                cur, self.summ = self.summ, old
                inputs[c] = (k,) + self.inputs_of(c)[1:]
                self.summ = cur
            if not changed:
                break
        self.rounds = rounds

    def inputs_of(self, c):
        return (self.kinds[c], tuple(sorted((str(d), str(sorted(self.summ.get(d, {}).items(), key=str)))
                                            for d in self.deps.get(c, ()))))

    def analyse(self, eng, c):
        fid, mode, consts, last = c
        f = self.prog.fns[fid]
        self.root = c
        self.new = dict(self.summ.get(c, {}))
        self.problems.pop(c, None)
        self.zero_edges.pop(c, None)

        def init(eng, st, fr):
            pos = T("glob", "#pos")
            st.env[POS] = pos
            st.env[ENTRY] = pos
            st.env[MODE] = C(mode) if mode is not None else T("glob", "#mode")
            l = T("glob", "#last") if last else absint.NULL
            if not last and c not in self.root_ctx:
                l = T("glob", "#maybelast")
            st.env[self.last_loc(eng, st, fr)] = l
            if last:
                st.facts[("nn", l)] = True
            for i, v in enumerate(consts):
                if v is not None:
                    st.env[T("V", eng.fid(fr), fr.fn.params[i])] = C(v)
            if self.kinds[c] is not None:
                eng.set_dom(st, T("sel", self.token(st, eng), self.f_kind), ("in", frozenset(self.kinds[c])))
        eng.run_root(f, init)
        self.summ[c] = self.new


def structurally_bounded(fn, info, head):
    """Range-for loops and counting loops terminate by construction: `for
    (i = ..; i < bound; ++i)` where the body assigns neither i nor the bound
    variable, and loops that grow the container whose size they test."""
    b = info.blocks[head]
    t = b.get("t")
    # the loop statement owning this head
    stmt = None
    body = info.loop_blocks[head]
    for bid in [head] + sorted(body):
        tt = info.blocks[bid].get("t")
        if tt is not None and fn.nodes[tt]["k"] in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt"):
            if bid == head:
                stmt = tt
                break
    if stmt is None:
        return False
    n = fn.nodes[stmt]
    if n["k"] == "CXXForRangeStmt":
        return True
    cond = b.get("tc")
    if cond is None:
        return False
    if n["k"] == "ForStmt":
        c = fn.strip(cond)
        cn = fn.nodes[c]
        if cn["k"] != "BinaryOperator" or cn.get("op") not in ("<", "<=", "!=", ">", ">="):
            return False
        inc = [x for x in fn.walk(stmt) if fn.nodes[x]["k"] == "UnaryOperator" and fn.nodes[x].get("op") in ("++", "--")]
        var = None
        lhs = fn.strip(cn["ch"][0])
        if fn.nodes[lhs]["k"] == "DeclRefExpr":
            var = fn.nodes[lhs]["d"]
        if var is None:
            return False
        writes = []
        for x in fn.walk(stmt):
            m = fn.nodes[x]
            if m["k"] in ("UnaryOperator",) and m.get("op") in ("++", "--", "&") or \
                    m["k"] in ("BinaryOperator", "CompoundAssignOperator") and str(m.get("op", "")).endswith("=") \
                    and m.get("op") not in ("==", "!=", "<=", ">="):
                y = fn.strip(m["ch"][0])
                if fn.nodes[y]["k"] == "DeclRefExpr" and fn.nodes[y]["d"] == var:
                    writes.append(x)
        return len(writes) == 1 and writes[0] in inc
    if n["k"] == "WhileStmt":
        # while (N >= X.size()) X.emplace_back(...)
        sizes = set()
        for x in fn.walk(cond):
            m = fn.nodes[x]
            if m.get("fnm") == "size" and m["k"] == "CXXMemberCallExpr":
                for y in fn.walk(x):
                    if fn.nodes[y]["k"] in ("MemberExpr", "DeclRefExpr") and fn.decl(y)["k"] in ("Field", "Var"):
                        sizes.add(fn.decl(y).get("q") or fn.nodes[y]["d"])
                        break
        # every way round the loop grows it
        grow = set()
        for bid in body:
            for e in info.blocks[bid]["e"]:
                if isinstance(e, int):
                    m = fn.nodes[e]
                    if m.get("fnm") in ("emplace_back", "push_back"):
                        for y in fn.walk(e):
                            if fn.nodes[y]["k"] in ("MemberExpr", "DeclRefExpr") and fn.decl(y)["k"] in ("Field", "Var"):
                                if (fn.decl(y).get("q") or fn.nodes[y]["d"]) in sizes:
                                    grow.add(bid)
                                break
        if grow and head not in grow:
            # a cycle through head avoiding every growing block?
            seen, w = set(), [s for s in b["s"] if s in body]
            while w:
                x = w.pop()
                if x == head:
                    return False
                if x in seen or x in grow:
                    continue
                seen.add(x)
                w.extend(s for s in info.blocks[x]["s"] if s in body)
            return True
        # while (N--) : counts an unsigned/int local down
        c = fn.strip(cond)
        m = fn.nodes[c]
    return False
