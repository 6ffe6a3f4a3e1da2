"""P01: the lexer never touches a character outside the source buffer.

Abstract interpretation of every public tokenising operation of the lexer, all
of its helpers inlined, over a difference-bound domain relating the cursor
offset to the length of the source.  Obligations: an indexed or front()/back()
character read must be at an index provably below the length; a substr() start
must be provably at most the length; every update of the cursor must leave it
provably at most the length; an assertion about offsets must be provable (it is
compiled out of release builds).  The cursor invariant "offset <= length" is
assumed only where it was itself an obligation (entry, loop heads, joins)."""
import absint
from absint import T, C, Rule, Engine
from check import load_prog
from facts import AnalysisBroken

SV = ("std::basic_string_view", "std::basic_string")
BIG = 10 ** 7


class Bounds(Rule):
    max_states = 300
    max_depth = 12
    max_inline_blocks = BIG
    join_exits = True
    loop_nullness = True

    @staticmethod
    def keep_fact(k):
        if k[0] in ("dom", "eq"):
            return False
        return k[0] != "nn" or k[1].op not in ("call", "cmp", "not", "and", "or", "un")

    def __init__(self, chk, cls, f_cur, f_off, f_src, f_all=()):
        super().__init__()
        self.chk = chk
        self.cls = cls
        self.this = T("this", cls)
        self.cur = T("F", absint.deref(self.this), f_cur)
        self.off_loc = T("F", self.cur, f_off)
        self.src_loc = T("F", absint.deref(self.this), f_src)
        self.f_cur, self.f_off = f_cur, f_off
        base = absint.deref(self.this)
        self.cursors = [T("F", base, f) for f in f_all]
        self.offs = [T("F", c, f_off) for c in self.cursors]
        self.sites = {}
        self.pend = None

    def inline(self, eng, fr, f):
        return "nixf/Basic/Diagnostic" not in f.file

    def nonneg(self, t):
        return t.op == "call" and t.a[0] == "length" or t.op == "sel" and t.a[1] == self.f_off

    def length(self, eng, st):
        return eng.str_len(st, eng.read(st, self.src_loc))

    def off(self, eng, st):
        return eng.read(st, self.off_loc)

    def invariant(self, eng, st, k=0):
        L = self.length(eng, st)
        for loc in self.offs:
            o = eng.read(st, loc)
            eng.set_diff(st, L, o, k if loc is self.off_loc else 0)
            eng.tighten(st, o, 0, None)

    # obligations are keyed by construct: discharged iff in every state
    def ob(self, eng, fr, node, kind, ok, msg):
        key = (fr.fn.id, node, kind)
        o = self.sites.setdefault(key, [True, fr.fn.loc(node) + " " + kind])
        if not ok:
            o[0] = False
            n = fr.chain()
            self.alarm(eng, fr, node, msg, "%s (via %s)" % (kind, n[0].fn.n))

    def on_call(self, eng, st, fr, node, n, this, args):
        fn = fr.fn
        q = n.get("q", "")
        if q == "__assert_fail":
            if self.offset_assert(fn, node):
                self.ob(eng, fr, node, "assertion", False,
                        "an assertion about the cursor is not provable here (and is absent from release builds)")
            return []
        cls = n.get("cls", "")
        if this is None or not cls.startswith(SV):
            return None
        fnm = n.get("fnm", "")
        v = eng.read(st, absint.deref(this))
        if n.get("op") == "[]" or fnm == "at":
            x = eng.rv(fr, st, args[0])
            d = eng.diff_lb(st, eng.str_len(st, v), x)
            lo = eng.diff_lb(st, x, C(0))
            ok = d is not None and d >= 1 and (lo is None or lo >= 0)
            self.ob(eng, fr, node, "character read", ok,
                    "character read not provably inside the source (index %s)" % x)
        elif fnm in ("front", "back"):
            d = eng.diff_lb(st, eng.str_len(st, v), C(0))
            self.ob(eng, fr, node, "character read", d is not None and d >= 1,
                    "%s() of a possibly empty text" % fnm)
        elif fnm == "substr" and args:
            x = eng.rv(fr, st, args[0])
            d = eng.diff_lb(st, eng.str_len(st, v), x)
            self.ob(eng, fr, node, "substring start", d is not None and d >= 0,
                    "substring start %s not provably within the source" % x)
        elif fnm in ("starts_with", "ends_with", "startswith", "endswith") and len(args) == 1:
            pre = eng.rv(fr, st, args[0])
            pl = C(1) if pre.op == "c" else eng.str_len(st, pre)
            yes = st.clone()
            eng.set_diff(yes, eng.str_len(st, v), pl, 0)
            return [(yes, C(1)), (st, C(0))]
        elif fnm in ("remove_prefix", "remove_suffix") and args:
            x = eng.rv(fr, st, args[0])
            d = eng.diff_lb(st, eng.str_len(st, v), x)
            self.ob(eng, fr, node, "prefix removal", d is not None and d >= 0,
                    "%s beyond the end" % fnm)
        return None

    def offset_assert(self, fn, node):
        p = fn.parents
        i = node
        while i in p and fn.nodes[i]["k"] not in ("ConditionalOperator", "IfStmt"):
            i = p[i]
        for x in fn.walk(i):
            m = fn.nodes[x]
            if m["k"] == "MemberExpr" and fn.decl(x).get("q") == self.f_off:
                return True
        return False

    def on_deref(self, eng, st, fr, node, ptr):
        if ptr.op == "call" and ptr.a[0] in ("begin", "end", "cbegin", "cend", "data") or \
                ptr.op in ("+", "ar") and any(isinstance(x, absint.Term) and x.op == "call" and x.a[0] in
                                              ("begin", "cbegin", "data") for x in ptr.a):
            self.ob(eng, fr, node, "pointer read", self.ptr_ok(eng, st, ptr),
                    "character read through %s not provably inside the source" % ptr)

    def ptr_ok(self, eng, st, ptr):
        d, k = eng.linear(ptr)
        base = [t for t, c in d.items() if t.op == "call" and t.a[0] in ("begin", "cbegin", "data")]
        if len(base) != 1:
            return False
        v = base[0].a[1]
        idx = C(k)
        for t, c in d.items():
            if t is not base[0]:
                for _ in range(abs(c)):
                    idx = eng.arith("+" if c > 0 else "-", idx, t)
        df = eng.diff_lb(st, eng.str_len(st, v), idx)
        return df is not None and df >= 1

    def on_assign(self, eng, st, fr, node, loc, val):
        if loc in self.offs:
            self.cursor_write(eng, st, fr, node, val)

    def after_call(self, eng, st, fr, node, n, this, args, val):
        # whole-cursor assignment happens through operator=
        if this is not None and absint.deref(this) in self.cursors and n.get("fnm") == "operator=":
            self.cursor_write(eng, st, fr, node, eng.read(st, T("F", absint.deref(this), self.f_off)))

    def cursor_write(self, eng, st, fr, node, v):
        d = eng.diff_lb(st, self.length(eng, st), v)
        lo = eng.diff_lb(st, v, C(0))
        self.ob(eng, fr, node, "cursor update", d is not None and d >= 0,
                "cursor may move past the end of the source (to %s)" % v)

    def on_assume(self, eng, st, fr, cond, truth):
        if cond is not None and cond.op == "cmp" and cond.a[0] in ("==", "!=") and \
                truth == (cond.a[0] == "=="):
            for a, b in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
                if a.op == "call" and a.a[0] == "substr" and len(a.a) == 4:
                    L = eng.str_len(st, b)
                    if L.op == "c":
                        eng.set_diff(st, eng.str_len(st, a.a[1]), eng.arith("+", a.a[2], L), 0)
        return True

    # -- loops and joins: keep "offset <= length (- 1)" across renaming
    def on_loop_pre(self, eng, st, fr, head, first):
        d = eng.diff_lb(st, self.length(eng, st), self.off(eng, st))
        self.pend = min(d, 1) if d is not None else None

    def on_loophead(self, eng, st, fr, head, first):
        if self.pend is not None and self.pend >= 0:
            self.invariant(eng, st, self.pend)

    def on_merge(self, eng, st, fr, bid, group):
        self.invariant(eng, st)


def find_lexer(prog):
    """The class holding the source text and a cursor with an offset."""
    for q, r in prog.recs.items():
        if q == "nixf::Lexer":
            return r
    raise AnalysisBroken("anchor vanished: class nixf::Lexer")


def returned_field(prog, q):
    """Field a trivial accessor returns."""
    f = prog.one(q)
    for i in f.walk():
        if f.nodes[i]["k"] == "ReturnStmt":
            for j in f.walk(i):
                if f.nodes[j]["k"] == "MemberExpr" and f.decl(j)["k"] == "Field":
                    return f.decl(j)["q"]
    raise AnalysisBroken("anchor vanished: %s returns no field" % q)


def setup(chk, prog):
    rec = find_lexer(prog)
    src = [f["n"] for f in rec["fields"] if f["t"].get("rec") == "std::basic_string_view"]
    if not src:
        raise AnalysisBroken("anchor vanished: source text of the lexer")
    return Bounds(chk, "nixf::Lexer", returned_field(prog, "nixf::Lexer::cur"),
                  "nixf::LexerCursor::Offset", "nixf::Lexer::" + src[0],
                  ["nixf::Lexer::" + f["n"] for f in rec["fields"] if f["t"].get("rec") == "nixf::LexerCursor"])


def run(chk):
    prog = load_prog(["parse"])
    rule = setup(chk, prog)
    eng = Engine(prog, rule)
    eng.step_budget = 20000000
    roots = []
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.cls == "nixf::Lexer" and f.cfg and f.d.get("acc") == "public" and not f.d.get("ctor") \
                and not f.d.get("static") and not f.d.get("dtor"):
            roots.append(f)
    for f in roots:
        # setCur: only re-establishes a position the lexer itself produced
        takes_cursor = any("LexerCursor" in f.types[f.decls[d]["t"]].get("s", "") for d in f.params)

        def init(eng, st, fr):
            rule.invariant(eng, st)
            if takes_cursor:
                for i, d in enumerate(fr.fn.params):
                    p = T("F", absint.deref(T("param", fr.fn.id, i)), rule.f_off)
                    v = eng.read(st, p)
                    eng.set_diff(st, rule.length(eng, st), v, 0)
        eng.run_root(f, init)
    if eng.stats["budget"]:
        raise AnalysisBroken("P01: state budget exhausted")
    for (fid, node, kind), (ok, where) in rule.sites.items():
        chk.obligation(kind, ok, where)
    chk.from_alarms(rule.alarms, "lexer bounds")
    chk.cov.update(entry_points=[f.q for f in roots], states_blocks=eng.stats["blocks"],
                   calls_inlined=eng.stats["inlined"])
    chk.need("character read", 1)
    chk.need("cursor update", 2)
