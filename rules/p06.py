"""P06: operators nest the way Nix's grammar says.

The Pratt loop of the parser is interpreted abstractly once for every operator
token and every binding power that can arise: is an operator seen under a given
minimum binding power taken or left to the caller, is a non-associativity error
reported, and with which binding power is its right operand parsed.  From these
facts the nesting of `x A y B z` and of `U x B y` follows for every pair of
operators, and is compared with the precedence table of the Nix grammar.  The
operator node must get the operands in source order and the operator's own kind."""
import absint
import p02
import parsermodel
from absint import T, C, Engine
from check import load_prog
from facts import AnalysisBroken

EXPLANATION = __doc__
ASSUMPTIONS = ["the precedence table in rules/p06.py is the %left/%right/%nonassoc table of Nix's parser.y; chains mixing |> and <| are not part of it"]

# (level, associativity); higher binds tighter
TABLE = {"tok_op_pipe_into": (0, "L"), "tok_op_pipe_from": (0, "R"),
         "tok_op_impl": (1, "R"), "tok_op_or": (2, "L"), "tok_op_and": (3, "L"),
         "tok_op_eq": (4, "N"), "tok_op_neq": (4, "N"),
         "tok_op_lt": (5, "N"), "tok_op_le": (5, "N"), "tok_op_ge": (5, "N"), "tok_op_gt": (5, "N"),
         "tok_op_update": (6, "R"), "tok_op_add": (8, "L"), "tok_op_negate": (8, "L"),
         "tok_op_mul": (9, "L"), "tok_op_div": (9, "L"), "tok_op_concat": (10, "R")}
UNARY = {"tok_op_not": 7, "tok_op_negate": 12}
HASATTR = ("tok_question", 11)
SPELL = {"tok_op_pipe_into": "|>", "tok_op_pipe_from": "<|", "tok_op_impl": "->", "tok_op_or": "||",
         "tok_op_and": "&&", "tok_op_eq": "==", "tok_op_neq": "!=", "tok_op_lt": "<", "tok_op_le": "<=",
         "tok_op_ge": ">=", "tok_op_gt": ">", "tok_op_update": "//", "tok_op_add": "+", "tok_op_negate": "-",
         "tok_op_mul": "*", "tok_op_div": "/", "tok_op_concat": "++", "tok_op_not": "!", "tok_question": "?"}
POS = parsermodel.POS


class Pratt(parsermodel.Parser):
    def start(self, first, oper, app):
        self.first, self.oper, self.app = first, oper, app
        self.out = set()      # ("take"|"leave", reported)
        self.rec = set()      # binding powers of right operands
        self.urec = set()     # ... of the unary operator's operand
        self.last_ret = None

    def ob(self, *a):
        pass

    def kind_at(self, st, eng):
        return T("sel", self.token(st, eng), self.f_kind)

    def force(self, eng, st):
        eng.set_dom(st, self.kind_at(st, eng), ("in", frozenset([self.oper])))
        st.ts["ph"] = "op"
        st.ts.pop("rep", None)

    def advance(self, eng, st, fr, node):
        ph = st.ts.get("ph")
        if ph == "op":
            self.out.add(("take", bool(st.ts.get("rep"))))
            st.ts["ph"] = "post"
        st.env[POS] = eng.arith("+", eng.read(st, POS), C(1))

    def on_loop_pre(self, eng, st, fr, head, first):
        self.pend_kind = st.facts.get(("dom", self.kind_at(st, eng)))

    def on_loophead(self, eng, st, fr, head, first):
        st.env[POS] = T("lp", eng.fid(fr), head, POS)
        if self.pend_kind is not None:
            st.facts[("dom", self.kind_at(st, eng))] = self.pend_kind

    def on_merge(self, eng, st, fr, bid, group):
        kt = [b.facts.get(("dom", self.kind_at(b, eng))) for b in group]
        if all(d is not None and d[0] == "in" for d in kt):
            st.facts[("dom", self.kind_at(st, eng))] = ("in", frozenset().union(*(d[1] for d in kt)))

    def on_exit(self, eng, st, fr):
        if fr.parent is None and st.ts.get("ph") == "op":
            rv = st.env.get(T("RET", eng.fid(fr)))
            if rv is None or eng.nullness(st, rv) is not False:
                self.out.add(("leave", bool(st.ts.get("rep"))))

    def on_call(self, eng, st, fr, node, n, this, args):
        q = n.get("q", "")
        if q == "__assert_fail":
            return []
        g = self.prog.fns.get(n.get("fn"))
        if g is not None and g.id in self.scc:
            ph = st.ts.get("ph")
            if g.id == self.app:
                v = eng.rv(fr, st, args[0])
                (self.urec if ph is None else self.rec).add(v.a[0] if v.op == "c" else None)
            p = eng.fresh(st, fr, node, "pos")
            eng.set_diff(st, p, eng.read(st, POS), 1)
            st.env[POS] = p
            v = eng.fresh(st, fr, node, "ret")
            if g.id == self.app and ph is not None:
                st.ts["rhs"] = v
            st.facts[("nn", v)] = True
            l = eng.fresh(st, fr, node, "last")
            eng.write(st, self.last_loc(eng, st, fr), l)
            st.facts[("nn", l)] = True
            self.force(eng, st)
            return self.give(eng, st, fr, node, v)
        if n.get("fnm") in ("emplace_back", "push_back") and args:
            a = eng.rv(fr, st, args[0])
            if a.op == "c" and a.a[0] == self.nonassoc and "DiagnosticKind" in str(fr.fn.type_of(args[0])):
                st.ts["rep"] = 1
        if q == "std::make_shared" and "rhs" in st.ts and "ExprBinOp" in str(fr.fn.type_of(node)):
            vals = [self.ptrval(eng, fr, st, a) for a in args]
            self.nodes.append((fr.fn, node, vals, st.ts["rhs"]))
        if q == "std::make_shared" and "nixf::Op>" in str(fr.fn.type_of(node)):
            ks = [eng.rv(fr, st, a) for a in args]
            self.ops.append((fr.fn, node, any(k is C(self.oper) or eng.truth(st, eng.mkcmp(st, "==", k, C(self.oper))) is True
                                              for k in ks) or st.ts.get("ph") is None))
        return super().on_call(eng, st, fr, node, n, this, args)

    def ptrval(self, eng, fr, st, a):
        try:
            return eng.rv(fr, st, a)
        except Exception:
            return None


def run(chk):
    prog = load_prog(["parse"])
    kinds = p02.enum_kinds(prog)
    P = parsermodel.P
    modes = None
    for qn, e in prog.enums.items():
        if qn == P + "::ParserState":
            modes = {x["n"]: x["v"] for x in e["vals"]}
    if not modes or "PS_Expr" not in modes:
        raise AnalysisBroken("anchor vanished: expression mode")
    dk = None
    for qn, e in prog.enums.items():
        if qn.endswith("::DiagnosticKind"):
            for x in e["vals"]:
                if x["n"] == "DK_OperatorNotAssociative":
                    dk = x["v"]
    if dk is None:
        raise AnalysisBroken("anchor vanished: DK_OperatorNotAssociative")
    mode = modes["PS_Expr"]
    rule = Pratt(prog, {"lex": {kinds["tok_eof"]}}, {mode: "lex"})
    rule.nonassoc = dk
    rule.nodes, rule.ops = [], []
    # the operator parser: calls itself and takes one unsigned parameter
    op = prog.one(P + "::parseExprOp")
    cand = [f for f in prog.fns.values() if f.cls == P and f.cfg and len(f.params) == 1 and
            f.types[f.decls[f.params[0]]["t"]].get("s") in ("unsigned int", "unsigned", "int", "unsigned long") and
            any(e and e.get("fn") == f.id for e in f.nodes)]
    cand = [f for f in cand if any(e and e.get("fn") == f.id for e in op.nodes)]
    if len(cand) != 1:
        raise AnalysisBroken("the operator parser is not one self-recursive function of a binding power: %s" % [f.q for f in cand])
    g = cand[0]
    # binding power parseExprOp starts with
    start = set()

    class S(absint.Rule):
        max_depth = 0

        def on_call(self, eng, st, fr, node, n, this, args):
            if n.get("fn") == g.id:
                start.add(eng.rv(fr, st, args[0]))
            return None
    Engine(prog, S()).run_root(op)
    if len(start) != 1 or next(iter(start)).op != "c":
        raise AnalysisBroken("parseExprOp does not start with one constant binding power")
    bp0 = next(iter(start)).a[0]

    cache = {}

    def run1(bp, k, first=None):
        if (bp, k, first) in cache:
            return cache[bp, k, first]
        rule.start(first, kinds[k], g.id)
        eng = Engine(prog, rule)
        eng.step_budget = 300000

        def init(eng, st, fr):
            pos = T("glob", "#pos")
            st.env[POS] = pos
            st.env[parsermodel.MODE] = C(mode)
            st.env[rule.last_loc(eng, st, fr)] = absint.NULL
            st.env[T("V", eng.fid(fr), fr.fn.params[0])] = C(bp)
            kd = rule.kind_at(st, eng)
            if first is not None:
                eng.set_dom(st, kd, ("in", frozenset([kinds[first]])))
            else:
                eng.set_dom(st, kd, ("in", frozenset([kinds["tok_id"]])))
        eng.run_root(g, init)
        if eng.stats["budget"]:
            raise AnalysisBroken("state budget exhausted")
        cache[bp, k, first] = (set(rule.out), set(rule.rec), set(rule.urec))
        return cache[bp, k, first]

    for k in list(TABLE) + list(UNARY) + [HASATTR[0]]:
        if k not in kinds:
            raise AnalysisBroken("anchor vanished: token " + k)
    missing = [k for k in kinds if k.startswith("tok_op_") and k not in TABLE and k not in UNARY]
    if missing:
        raise AnalysisBroken("operators without a place in the precedence table: %s" % missing)

    def nest(chk, kind, a, b, bp, want, la, lb):
        """want: R (b inside a's operand), L (b outside), N (error reported)."""
        out, rec, _ = run1(bp, b)
        acts = {x for x, _ in out}
        reps = {r for _, r in out}
        desc = ("%s x %s y" if kind == "unary" else "x %s y %s z") % (SPELL[a], SPELL[b])
        if want == "N":
            ok = reps == {True}
            msg = "is not reported as non-associative"
        else:
            ok = acts == {"take" if want == "R" else "leave"} and reps == {False}
            msg = ("reports a non-associativity that the grammar does not have" if True in reps else
                   "nests %s, the Nix grammar nests %s" % (
                       "to the right" if acts == {"take"} else "to the left" if acts == {"leave"} else "either way",
                       "to the right" if want == "R" else "to the left"))
        chk.obligation("nesting of operator pairs", ok, desc)
        if not ok:
            chk.violation("pair %s %s %s" % (kind, SPELL[a], SPELL[b]), g.loc(), g.q, "'%s' %s" % (desc, msg),
                          rule="nesting of operator pairs")

    # binding power of each right operand
    rbp = {}
    for a in TABLE:
        out, rec, _ = run1(bp0, a)
        ok = {x for x, _ in out} == {"take"} and {r for _, r in out} == {False} and len(rec) == 1 and None not in rec
        chk.obligation("every operator is accepted at the top", ok, SPELL[a])
        if not ok:
            chk.violation("top %s" % SPELL[a], g.loc(), g.q, "'x %s y' is not read as one operator applied to two operands"
                          % SPELL[a], rule="every operator is accepted at the top")
            continue
        rbp[a] = next(iter(rec))
    ubp = {}
    for u in UNARY:
        _, _, rec = run1(bp0, "tok_op_impl", u)
        ok = len(rec) == 1 and None not in rec
        chk.obligation("unary operators", ok, SPELL[u])
        if not ok:
            chk.violation("unary %s" % SPELL[u], g.loc(), g.q, "the operand of unary '%s' is not read with one binding power"
                          % SPELL[u], rule="unary operators")
            continue
        ubp[u] = next(iter(rec))
    allb = dict(TABLE)
    allb[HASATTR[0]] = (HASATTR[1], "H")
    for a, (la, asa) in TABLE.items():
        if a not in rbp:
            continue
        for b, (lb, asb) in allb.items():
            if "pipe" in a and "pipe" in b and a != b:
                continue
            want = "R" if lb > la else "L" if lb < la else asa
            nest(chk, "binary", a, b, rbp[a], want, la, lb)
    for u, lu in UNARY.items():
        if u not in ubp:
            continue
        for b, (lb, asb) in allb.items():
            nest(chk, "unary", u, b, ubp[u], "R" if lb > lu else "L", lu, lb)
    # the right operand's binding power must not depend on where the operator stands
    for b in TABLE:
        rs = set()
        for bp in set(rbp.values()) | set(ubp.values()) | {bp0}:
            out, rec, _ = run1(bp, b)
            rs |= rec
        ok = len(rs) <= 1
        chk.obligation("right operand independent of context", ok, SPELL[b])
        if not ok:
            chk.violation("context %s" % SPELL[b], g.loc(), g.q, "the right operand of '%s' is read with binding powers %s"
                          % (SPELL[b], sorted(map(str, rs))), rule="right operand independent of context")
    seen = set()
    for fn, node, vals, rhs in rule.nodes:
        ok = len(vals) >= 2 and vals[-1] is rhs and all(v is not rhs for v in vals[:-1])
        if (fn.id, node) not in seen or not ok:
            seen.add((fn.id, node))
            chk.obligation("operands in source order", ok, fn.loc(node))
        if not ok:
            chk.violation("%s | operand order" % fn.q, fn.loc(node), fn.q,
                          "the operator node does not get its right operand last", rule="operands in source order")
    seen = set()
    for fn, node, ok in rule.ops:
        if (fn.id, node) not in seen or not ok:
            seen.add((fn.id, node))
            chk.obligation("operator node carries the operator read", ok, fn.loc(node))
        if not ok:
            chk.violation("%s | operator kind" % fn.q, fn.loc(node), fn.q,
                          "the operator node does not carry the kind of the operator that was read",
                          rule="operator node carries the operator read")
    chk.need("nesting of operator pairs", 200)
    chk.need("operands in source order", 1)
    chk.need("operator node carries the operator read", 1)
    chk.cov.update(binding_powers={SPELL[a]: rbp[a] for a in rbp}, unary={SPELL[u]: ubp[u] for u in ubp},
                   interpretations=len(cache))
