"""P16: the server's copy of a document follows the client.

Positions: the loops over the bytes of a line are interpreted with every one of
the 256 byte values; what each variable gains per byte is compared with the
lengths of UTF-8 and UTF-16, which makes the sums over all lines exact.  The
loop over lines is decided the same way (one newline per step).
Edits: the text is a sequence of pieces; on every path that succeeds it must be
the new text alone, or the old one with exactly the range replaced.
Documents: what is stored, read back, parsed and published for a file must be
the text and the version of the last message about that file."""
import absint
from absint import T, C, Engine, deref
from check import load_prog
from facts import AnalysisBroken
from p12 import mentions, report, LOG
from p14 import Base

EXPLANATION = __doc__
ASSUMPTIONS = ["library strings, maps and shared pointers do what their documentation says",
               "an edit's texts are shorter than 2^31 code units per line"]
STR = ("llvm::StringRef", "std::basic_string", "std::basic_string_view", "llvm::StringLiteral")
FAIL = ("error", "takeError", "make_error", "createStringError", "joinErrors")


def u8(b):
    if b < 0x80:
        return 1
    n = 0
    while n < 8 and b & (0x80 >> n):
        n += 1
    return n if 2 <= n <= 4 else 1


def u16(b):
    return 2 if 0xf0 <= b <= 0xf7 else 1


class Strings(Base):
    """Pure operations on strings as terms: sub(base, from, to), until(base, from) is where a line ends."""
    max_states = 8000
    max_inline_blocks = 400
    max_depth = 8
    peel = False
    bytes = False
    opaque = frozenset()

    def S(self, eng, st, v):
        for _ in range(6):
            if v.op == "mk" and len(v.a) >= 2 and isinstance(v.a[1], absint.Term) and v.a[0] in STR:
                if len(v.a) > 2 and isinstance(v.a[2], absint.Term) and v.a[1].op == "call" and v.a[1].a[0] == "data":
                    x = self.S(eng, st, v.a[1].a[1])
                    return self.sub(eng, st, x, C(0), v.a[2])
                v = v.a[1]
            elif v.op == "&":
                v = eng.read(st, deref(v))
            elif v.op == "param" and self.byref(v):
                v = eng.read(st, T("D", v))
            else:
                break
        return v

    def byref(self, v):
        f = self.prog.fns.get(v.a[0])
        if f is None or not isinstance(v.a[1], int) or v.a[1] >= len(f.params):
            return False
        return bool(f.types[f.decls[f.params[v.a[1]]]["t"]].get("ref"))

    def size_of(self, eng, x):
        if x.op == "sub":
            return eng.arith("-", x.a[2], x.a[1])
        return T("call", "size", x)

    def sub(self, eng, st, x, a, b):
        if x.op == "sub":
            o = x.a[1]
            a2 = eng.arith("+", o, a)
            b2 = x.a[2] if b is None else eng.arith("+", o, b)
            x, a, b = x.a[0], a2, b2
        if b is None:
            b = T("call", "size", x)
        if a == C(0) and b == T("call", "size", x):
            return x
        # from a to the first newline after it (or to the end)
        if b.op == "call" and b.a[0] == "find" and b.a[1:] == (x, C(10), a):
            b = T("until", x, a)
        return T("sub", x, a, b)

    def newline_lambda(self, eng, v):
        """+1: the closure tells newlines, -1: everything else, 0: another closure."""
        lam = []
        mentions(v, lambda t: t.op == "lam" and (lam.append(t) or True))
        f = self.prog.fns.get(lam[0].a[0]) if lam else None
        if f is None or not f.cfg:
            return 0

        class One(absint.Rule):
            out = []

            def on_exit(self, e, s, fr):
                if fr.parent is None:
                    self.out.append(s.env.get(T("RET", e.fid(fr))))
        r = One()
        r.out = []
        Engine(self.prog, r).run_root(f)
        if len(r.out) == 1 and r.out[0] is not None and r.out[0].op == "cmp" and C(10) in r.out[0].a[1:]:
            return {"==": 1, "!=": -1}.get(r.out[0].a[0], 0)
        return 0

    def give(self, eng, st, fr, node, n, v):
        if n.get("lv"):
            loc = T("TMP", eng.fid(fr), node)
            eng.write(st, loc, v)
            return absint.addr(loc)
        return v

    def string(self, eng, st, fr, node, n, v):
        loc = T("TMP", eng.fid(fr), node)
        eng.write(st, loc, v)
        return [(st, absint.addr(loc))]

    def on_call(self, eng, st, fr, node, n, this, args):
        q, fnm, op, cls = n.get("q", ""), n.get("fnm"), n.get("op"), n.get("cls") or ""
        if q in LOG:
            return [(st, None)]
        if fnm in ("countl_one", "countLeadingOnes") and args:
            v = eng.rv(fr, st, args[0])
            ty = fr.fn.type_of(args[0])
            if v.op == "c":
                w, k = ty.get("int", 8), 0
                while k < w and (v.a[0] >> (w - 1 - k)) & 1:
                    k += 1
                return [(st, C(k))]
        if fnm in ("countl_zero", "countLeadingZeros") and args:
            v = eng.rv(fr, st, args[0])
            if v.op == "c":
                w, k = fr.fn.type_of(args[0]).get("int", 8), 0
                while k < w and not (v.a[0] >> (w - 1 - k)) & 1:
                    k += 1
                return [(st, C(k))]
        if fnm in ("min", "max") and this is None and len(args) == 2 and q.startswith("std::"):
            x, y = eng.rv(fr, st, args[0]), eng.rv(fr, st, args[1])
            out = []
            for first, v in ((True, x if fnm == "min" else y), (False, y if fnm == "min" else x)):
                s = st.clone()
                c = T("cmp", "<=", x, y)
                if eng.assume(s, c, first) and self.on_assume(eng, s, fr, c, first) is not False:
                    out.append((s, self.give(eng, s, fr, node, n, v)))
            return out
        if fnm in ("count",) and cls not in STR and len(args) == 2 and this is None:
            x = self.S(eng, st, eng.rv(fr, st, args[0]))
            return [(st, T("call", "count", x, eng.rv(fr, st, args[1])))]
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and cls in STR and args:
            real = [a for a in args if fr.fn.nodes[a]["k"] != "CXXDefaultArgExpr" and "allocator" not in str(fr.fn.type_of(a).get("rec"))]
            if len(real) == 1 and not fr.fn.type_of(real[0]).get("int"):
                return self.string(eng, st, fr, node, n, self.S(eng, st, eng.rv(fr, st, real[0])))
        if cls not in STR or this is None:
            return None
        x = self.S(eng, st, eng.read(st, deref(this)))
        a = [eng.rv(fr, st, i) if fr.fn.nodes[i]["k"] != "CXXDefaultArgExpr" else None for i in args]
        npos = lambda v: v is None or v == C(-1) or v == C((1 << 64) - 1)
        if n.get("conv") or fnm in ("str", "operator StringRef", "operator basic_string_view"):
            return self.string(eng, st, fr, node, n, x)
        if fnm in ("size", "length"):
            return [(st, self.size_of(eng, x))]
        if fnm == "data" or fnm == "c_str":
            return [(st, T("call", "data", x))]
        if fnm == "empty":
            n0 = eng.diff_lb(st, self.size_of(eng, x), C(0))
            return [(st, C(0) if n0 is not None and n0 > 0 else T("cmp", "==", self.size_of(eng, x), C(0)))]
        if fnm == "substr":
            to = None if len(a) < 2 or npos(a[1]) else eng.arith("+", a[0] or C(0), a[1])
            return self.string(eng, st, fr, node, n, self.sub(eng, st, x, a[0] or C(0), to))
        if fnm == "slice":
            return self.string(eng, st, fr, node, n, self.sub(eng, st, x, a[0], None if npos(a[1]) else a[1]))
        if fnm == "drop_front":
            return self.string(eng, st, fr, node, n, self.sub(eng, st, x, a[0] or C(1), None))
        if fnm == "take_front":
            return self.string(eng, st, fr, node, n, self.sub(eng, st, x, C(0), a[0] or C(1)))
        if fnm in ("take_until", "take_while"):
            k = self.newline_lambda(eng, eng.rv(fr, st, args[0]))
            if k == (1 if fnm == "take_until" else -1):
                base, o = (x.a[0], x.a[1]) if x.op == "sub" else (x, C(0))
                return self.string(eng, st, fr, node, n, T("sub", base, o, T("until", base, o)))
        if fnm in ("find", "find_first_of", "rfind", "find_last_of", "count") and a and a[0] is not None:
            f = "find" if fnm in ("find", "find_first_of") else "count" if fnm == "count" else "rfind"
            c = a[0]
            if c.op in ("str", "mk"):
                s = []
                mentions(c, lambda t: t.op == "str" and (s.append(t.a[0]) or True))
                c = C(ord(s[0])) if s and len(s[0]) == 1 else c
            r = (T("call", f, x, c) if f == "count" else
                 T("call", f, x, c, (a[1] if len(a) > 1 and a[1] is not None else C(0))) if f == "find" else
                 T("call", f, x, c) if len(a) < 2 or npos(a[1]) else T("call", f, x, c, a[1]))
            if f == "find":
                self.found(eng, st, fr, node, x, c, r.a[3], r)
            return [(st, r)]
        if self.bytes and op == "[]" and args:
            return self.read_byte(eng, st, fr, node, n, x, a[0])
        if self.bytes and fnm == "front":
            return self.read_byte(eng, st, fr, node, n, x, C(0))
        return None

    def found(self, eng, st, fr, node, x, c, frm, r):
        pass

    def subst(self, eng, st, t, f):
        """t with every symbol of a loop head replaced by f(symbol)."""
        if not isinstance(t, absint.Term):
            return t
        if t.op == "lp":
            return f(t)
        a = [self.subst(eng, st, x, f) for x in t.a]
        if t.op == "ar":
            return eng.arith(t.a[0], a[1], a[2])
        if t.op == "+" and isinstance(t.a[1], int):
            return eng.arith("+", a[0], C(t.a[1]))
        return T(t.op, *a) if any(p is not q for p, q in zip(a, t.a)) else t

    def same(self, eng, st, a, b):
        return a is b or eng.diff_lb(st, a, b) == 0 and eng.diff_lb(st, b, a) == 0


class Units(Strings):
    """Loops over bytes and lines."""
    bytes = True
    split_bools = True
    linear_facts = True
    G8, G16 = T("ghost", "u8"), T("ghost", "u16")

    def __init__(self, prog, fn):
        super().__init__(prog)
        self.fn = fn
        self.root = absint.FrameId.get(((fn.id, 0),))
        self.entries, self.reads, self.backs, self.lines, self.rets = {}, {}, [], [], []
        self.narrow = []

    def read_byte(self, eng, st, fr, node, n, x, off):
        out = []
        w = fr.fn.type_of(node)
        self.reads.setdefault((x, off), self.here(fr, node))
        for b in range(256):
            s = st.clone()
            s.ts["byte"] = (u8(b), u16(b))  # states of the same kind of byte join again
            s.ts["at"] = (x, off)
            v = C(b - 256 if b >= 128 else b)
            out.append((s, self.give(eng, s, fr, node, n, v)))
        return out

    def found(self, eng, st, fr, node, x, c, frm, r):
        if c == C(10):
            st.ts["find"] = r

    def on_cast(self, eng, st, fr, node, n, val):
        if n.get("ck") == "IntegralCast" and "cv" not in n:
            to, frm = fr.fn.type_of(node), fr.fn.type_of(n["ch"][0])
            if to.get("int", 64) < 64 <= frm.get("int", 0):
                v = eng.rv(fr, st, n["ch"][0])
                if v.op in ("F", "sel") and v.a[1] in ("lspserver::Position::line", "lspserver::Position::character"):
                    lo, hi = eng.bounds(st, v)
                    if hi is None or hi >= 1 << (to["int"] - 1):
                        self.fail(self.here(fr, node), "a position is cut to %d bits" % to["int"])

    def on_loop_pre(self, eng, st, fr, head, first):
        if first:
            self.entries.setdefault((eng.fid(fr), head), []).append(st.clone())

    def on_loophead(self, eng, st, fr, head, first):
        st.ts["byte"] = None
        st.ts["find"] = None
        if not first:
            st.ts["looped"] = True

    def on_backedge(self, eng, st, fr, head):
        k = (eng.fid(fr), head)
        if st.ts.get("byte") is not None:
            self.backs.append((k, st.ts["byte"], st.clone(), (fr.fn, fr.fn.l)))
        elif st.ts.get("find") is not None:
            self.lines.append((k, st.ts["find"], st.clone(), (fr.fn, fr.fn.l)))

    def on_exit(self, eng, st, fr):
        if fr.parent is None:
            self.exits += 1
            st = st.clone()
            self.rets.append((st, eng.fid(fr)))

    # -- what the loops over bytes compute ------------------------------------------
    def fold(self, eng, rem=()):
        """kind of every variable of the byte loops: u8, u16 or left(term)."""
        self.kind = {}
        gains = {}
        heads = set()
        for k, b, st, where in self.backs:
            heads.add(k)
            for loc, v in st.env.items():
                if loc.op not in ("V", "F", "D", "E"):
                    continue
                h = T("lp", k[0], k[1], loc)
                lin, c = eng.linear(v)
                if lin == {h: 1}:
                    gains.setdefault(h, {}).setdefault(b, set()).add(c)
        for h, g in gains.items():
            if any(len(x) != 1 for x in g.values()):
                continue
            g = {b: next(iter(x)) for b, x in g.items()}
            base = {self.entry(eng, h)}
            if len(base) != 1 or None in base:
                continue
            base = base.pop()
            if len(g) != 4:  # characters of one to three bytes, and of four bytes
                continue
            for k, G in ((0, self.G8), (1, self.G16)):
                if base == C(0) and all(g[b] == b[k] for b in g):
                    self.kind[h] = G
                elif all(g[b] == b[k] for b in g):
                    self.kind[h] = eng.arith("+", base, G)
                elif all(g[b] == -b[k] for b in g):
                    self.kind[h] = eng.arith("-", base, G)
        self.gains = gains
        return heads

    def entry(self, eng, h):
        vs = {eng.read(s, h.a[2]) for s in self.entries.get(h.a[:2], ())}
        vs = {v for v in vs if not (v.op == "lp" and v.a[:2] == h.a[:2])}
        return vs.pop() if len(vs) == 1 else None

    def meaning(self, eng, st, t):
        return self.subst(eng, st, t, lambda h: self.kind.get(h, h))

    def eq(self, eng, st, a, b):
        la, ca = eng.linear(a)
        lb, cb = eng.linear(b)
        return la == lb and ca == cb

    def check_reads(self, eng, base, start, end):
        """Every byte read is the next byte of the text from start to end."""
        for (x, off), where in self.reads.items():
            o = off if x.op != "sub" else eng.arith("+", x.a[1], off)
            x0 = x.a[0] if x.op == "sub" else x
            st = absint.State() if hasattr(absint, "State") else None
            m = self.meaning(eng, st, o)
            if x0 != base or not self.eq(eng, st, m, eng.arith("+", start, self.G8)):
                self.fail(where, "bytes are not looked at one character after the other")
            if end is not None and x.op == "sub" and not self.eq(eng, st, x.a[2], end):
                self.fail(where, "the text that is measured does not end where it should")
            elif end is not None and x.op != "sub" and end != T("call", "size", base):
                self.fail(where, "the text that is measured does not end where it should")


class Length(Units):
    """The number of UTF-16 units of a text."""

    def finish(self, eng):
        text = T("param", self.fn.id, 0)
        heads = self.fold(eng)
        where = (self.fn, self.fn.l)
        if not heads:
            return
        self.check_reads(eng, text, C(0), T("call", "size", text))
        for st, fid in self.rets:
            rv = st.env.get(T("RET", fid))
            if rv is None:
                continue
            b = st.ts.get("byte")
            if b is not None:
                self.fail(where, "counting stops before the end of the text")
            if not self.eq(eng, st, self.meaning(eng, st, rv), self.G16):
                self.fail(where, "the length is not the number of UTF-16 units")


class ToOffset(Units):
    """Where a position is in the text."""
    LINE, CHAR = "lspserver::Position::line", "lspserver::Position::character"

    def on_call(self, eng, st, fr, node, n, this, args):
        if n.get("fnm") in FAIL and this is None or n.get("q", "").startswith("llvm::Error"):
            st.ts["err"] = True
            return None
        return super().on_call(eng, st, fr, node, n, this, args)

    def on_assume(self, eng, st, fr, cond, truth):
        self.room(eng, st, cond, truth)
        # what is known of the counters of lines: they are forgotten afterwards
        if fr.parent is None and cond is not None:
            ln = eng.read(st, T("F", T("V", self.root, self.fn.params[1]), self.LINE))
            hs = set()
            mentions(cond, lambda t: t.op == "lp" and hs.add(t))
            for h in hs:
                d = eng.diff_lb(st, h, ln)
                if d is not None and d >= 0 or eng.cmp_truth(st, "==", h, ln) is True:
                    st.ts["lines"] = st.ts.get("lines", frozenset()) | {(h, 1)}
                _, hi = eng.bounds(st, h)
                if hi is not None and hi <= 0:
                    st.ts["lines"] = st.ts.get("lines", frozenset()) | {(h, -1)}
        return True

    def room(self, eng, st, cond, truth):
        """Remember which x are known to fit: from the start of a line, x bytes later is not behind its end."""
        if cond is None or cond.op != "cmp" or cond.a[0] not in ("<", "<=", ">", ">=", "=="):
            return
        op, a, b = cond.a
        if op == "==":
            if not truth:
                return
            op, truth = "<=", True
        if not truth:
            op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
        if op in (">", ">="):
            a, b = b, a
        for x, y in ((a, b),) + (((b, a),) if cond.a[0] == "==" else ()):
            # x <= y with y the length of the line
            lin, c = eng.linear(eng.arith("-", y, x))
            u = [t for t in lin if t.op == "until" and lin[t] == 1]
            if len(u) == 1 and lin.get(u[0].a[1]) == -1:
                x = eng.arith("-", eng.arith("-", u[0], u[0].a[1]), eng.arith("-", y, x))
                st.ts["room"] = st.ts.get("room", frozenset()) | {(u[0], x)}

    def fits(self, eng, st, v, eol):
        if self.same(eng, st, v, eol) or self.same(eng, st, v, eol.a[1]):
            return True
        d = eng.diff_lb(st, eol, v)
        return d is not None and d >= 0 or any(
            u is eol and self.eq(eng, st, eng.arith("+", u.a[1], x), v) for u, x in st.ts.get("room", ()))

    def on_loophead(self, eng, st, fr, head, first):
        super().on_loophead(eng, st, fr, head, first)
        st.ts.pop("room", None)

    def finish(self, eng):
        fn = self.fn
        where = (fn, fn.l)
        text = T("param", fn.id, 0)
        pos = T("param", fn.id, 1)
        strict = T("param", fn.id, 2)
        heads = self.fold(eng)
        start = None
        steps = {}
        for k, r, st, w in self.lines:
            if r.a[1] != text:
                continue
            frm = r.a[3]
            if frm.op != "lp" or frm.a[:2] != k:
                self.fail(w, "lines are not looked for one after the other")
                continue
            start = frm
            if self.entry(eng, frm) != C(0):
                self.fail(w, "lines are not counted from the start of the text")
            if not self.same(eng, st, eng.read(st, frm.a[2]), eng.arith("+", r, C(1))):
                self.fail(w, "a line does not start after the newline before it")
            if eng.cmp_truth(st, "==", r, C(-1)) is not False:
                self.fail(w, "lines go on after the last newline")
            for loc, v in st.env.items():
                h = T("lp", k[0], k[1], loc)
                lin, c = eng.linear(v)
                if lin == {h: 1} and c in (1, -1):
                    steps.setdefault(h, set()).add(c)
        if start is None:
            return
        counts = []
        for h, d in steps.items():
            e = self.entry(eng, h)
            if len(d) == 1 and e is not None:
                counts.append((h, d.pop(), e))
        self.counts = counts

        def line_of(st):
            return eng.read(st, T("F", T("V", self.root, fn.params[1]), self.LINE))

        def reached(st):
            for h, d, e in counts:
                if (h, d) in st.ts.get("lines", ()) and (d > 0 and e == C(0) or d < 0 and e == line_of(st)):
                    return True
            return False

        def before(st):
            ln = line_of(st)
            for h, d, e in counts:
                done = eng.arith("-", h, e) if d > 0 else eng.arith("-", e, h)
                lb = eng.diff_lb(st, ln, done)
                if lb is not None and lb >= 1 or eng.cmp_truth(st, "==", done, ln) is False:
                    return True
            return False
        for k, r, st, w in self.lines:
            if not before(st):
                self.fail(w, "more lines are skipped than the position says")
        eol = T("until", text, start)
        if heads:
            self.check_reads(eng, text, start, eol)
        for k, b, st, w in self.backs:
            if self.consumed(eng, st, b, pos) is not False:
                self.fail(w, "reading a line goes on after the position")
        for st, fid in self.rets:
            rv = st.env.get(T("RET", fid))
            if rv is None or rv.op == "err" or st.ts.get("err"):
                continue
            v = eng.read(st, T("D", rv))
            if not self.fits(eng, st, v, eol):
                self.fail(where, "the offset may be behind the end of the line")
            ln, ch = line_of(st), eng.read(st, T("F", T("V", self.root, fn.params[1]), self.CHAR))
            for x, nm in ((ln, "line"), (ch, "character")):
                lo, _ = eng.bounds(st, x)
                if lo is None or lo < 0:
                    self.fail(where, "a negative %s is accepted" % nm)
            if not reached(st):
                self.fail(where, "the line that is used is not the line of the position")
            b = st.ts.get("byte")
            m = self.meaning(eng, st, v)
            strictly = eng.truth(st, T("not", strict))
            free = eng.truth(st, strict) is True
            rel = eng.arith("-", m, start)
            if b is None and self.eq(eng, st, rel, self.G8):
                # ran to the end of the line
                if not free and self.consumed(eng, st, None, pos) is not True:
                    self.fail(where, "a position behind the end of its line is accepted")
            elif b is not None and self.eq(eng, st, rel, eng.arith("+", self.G8, C(b[0]))):
                c = self.consumed(eng, st, b, pos)
                if c is not True:
                    self.fail(where, "the offset is before the position")
                if not free and not self.exact(eng, st, b, pos):
                    self.fail(where, "a position inside of a character is accepted")
            elif self.eq(eng, st, rel, C(0)):
                _, hi = eng.bounds(st, ch)
                if hi is None or hi > 0:
                    self.fail(where, "a position is taken for the start of its line")
            elif self.eq(eng, st, rel, eng.arith("-", eol, start)):
                if not free:
                    self.fail(where, "a position behind the end of its line is accepted")
            else:
                self.fail(where, "the offset is not where the position is")

    def lefts(self, eng, st, b, pos):
        """(kind symbol, units the byte takes) of the counters of units."""
        for h, m in self.kind.items():
            lin, c = eng.linear(m)
            if lin.get(self.G16) == -1:
                yield h, "left", m
            elif lin == {self.G16: 1} and c == 0:
                yield h, "done", m

    def consumed(self, eng, st, b, pos):
        """Are all units of the position used up (True/False/None)?"""
        ch = eng.read(st, T("F", T("V", self.root, self.fn.params[1]), self.CHAR))
        n = b[1] if b is not None else 0
        for h, how, m in self.lefts(eng, st, b, pos):
            if how == "left":
                if not self.eq(eng, st, m, eng.arith("-", ch, self.G16)):
                    continue
                lo, hi = eng.bounds(st, h)
                if hi is not None and hi <= n:
                    return True
                if lo is not None and lo > n:
                    return False
            else:
                d = eng.diff_lb(st, eng.arith("+", h, C(n)), ch)
                if d is not None and d >= 0:
                    return True
                d = eng.diff_lb(st, ch, eng.arith("+", h, C(n)))
                if d is not None and d > 0:
                    return False
        return None

    def exact(self, eng, st, b, pos):
        ch = eng.read(st, T("F", T("V", self.root, self.fn.params[1]), self.CHAR))
        n = b[1]
        for h, how, m in self.lefts(eng, st, b, pos):
            if how == "left" and self.eq(eng, st, m, eng.arith("-", ch, self.G16)):
                lo, hi = eng.bounds(st, h)
                if lo is not None and lo >= n:
                    return True
            elif how == "done":
                d = eng.diff_lb(st, ch, eng.arith("+", h, C(n)))
                if d is not None and d >= 0:
                    return True
        return False


class OffsetTo(Strings):
    """The position of an offset: the number of newlines before it, the units since the last one."""
    linear_facts = True

    def __init__(self, prog, fn):
        super().__init__(prog)
        self.fn = fn

    def inline(self, eng, fr, fn):
        return fn.n not in ("lspLength", "positionToOffset") and super().inline(eng, fr, fn)

    def on_call(self, eng, st, fr, node, n, this, args):
        if n.get("fnm") == "lspLength" and args:
            return [(st, T("units", self.S(eng, st, eng.rv(fr, st, args[0]))))]
        return super().on_call(eng, st, fr, node, n, this, args)

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        fn = self.fn
        self.exits += 1
        rv = st.env.get(T("RET", eng.fid(fr)))
        text, where = T("param", fn.id, 0), (fn, fn.l)
        off = T("param", fn.id, 1)
        size = T("call", "size", text)
        loc = T("RET", eng.fid(fr))
        ln, ch = (eng.read(st, T("F", loc, f)) for f in (ToOffset.LINE, ToOffset.CHAR))
        if any(mentions(x, lambda t: t.op in ("lp", "mrg", "r", "undef")) for x in (ln, ch)):
            self.undecided += 1
            return
        at = None
        if ln.op == "call" and ln.a[0] == "count" and ln.a[2] == C(10):
            x = ln.a[1]
            if x is text:
                at = size
            elif x.op == "sub" and x.a[0] is text and x.a[1] == C(0):
                at = x.a[2]
        if at is None:
            self.fail(where, "the line is not the number of newlines before the offset")
            return
        inside = eng.diff_lb(st, size, off)
        beyond = eng.diff_lb(st, off, size)
        if not (at is off and inside is not None and inside >= 0 or
                self.same(eng, st, at, size) and beyond is not None and beyond >= 0):
            self.fail(where, "the place that is looked at is not the offset (or the end of the text)")
        before = self.sub(eng, st, text, C(0), at)
        starts = [(C(0), False)]
        if ch.op == "units":
            x = ch.a[0]
            if x is before:
                x, s, e = text, C(0), at
            elif x.op == "sub":
                x, s, e = x.a
            else:
                s = None
            if s is not None and x is text and self.same(eng, st, e, at):
                last = [T("call", "rfind", before, C(10)), T("call", "rfind", text, C(10), at)]
                if at is size or before is text:
                    last.append(T("call", "rfind", text, C(10)))
                for r in last:
                    none = eng.cmp_truth(st, "==", r, C(-1))
                    if none is True and s == C(0) or none is False and self.same(eng, st, s, eng.arith("+", r, C(1))):
                        return
                    if self.same(eng, st, s, eng.arith("+", r, C(1))):
                        return      # npos + 1 is 0
        self.fail(where, "the column is not the length of the text since the last newline")

    undecided = 0


class Change(Strings):
    """A change turns the text into the new text, or into the old one with its range replaced."""
    linear_facts = True
    EV = "lspserver::TextDocumentContentChangeEvent::"

    def __init__(self, prog, fn):
        super().__init__(prog)
        self.fn = fn

    def inline(self, eng, fr, fn):
        return fn.n not in ("lspLength", "positionToOffset") and super().inline(eng, fr, fn)

    def size_of(self, eng, x):
        if x.op == "cat":
            r = C(0)
            for p in x.a:
                r = eng.arith("+", r, self.size_of(eng, p))
            return r
        if x.op == "lit":
            return C(len(x.a[0]))
        return super().size_of(eng, x)

    def S(self, eng, st, v):
        v = super().S(eng, st, v)
        if v.op == "str":
            return T("lit", v.a[0])
        return v

    def cat(self, *xs):
        out = []
        for x in xs:
            for p in (x.a if x.op == "cat" else (x,)):
                if p == T("lit", ""):
                    continue
                q = out[-1] if out else None
                if q is not None and q.op == "sub" and p.op == "sub" and q.a[0] is p.a[0] and q.a[2] is p.a[1]:
                    out[-1] = T("sub", p.a[0], q.a[1], p.a[2])
                    if q.a[1] == C(0) and p.a[2] == T("call", "size", p.a[0]):
                        out[-1] = p.a[0]
                else:
                    out.append(p)
        return out[0] if len(out) == 1 else T("cat", *out) if out else T("lit", "")

    def part(self, eng, st, x, a, b):
        return self.sub(eng, st, x, a, b)

    def sub(self, eng, st, x, a, b):
        """x from a to b (None: the end)."""
        if b is None:
            b = self.size_of(eng, x)
        if self.eq(eng, a, b):
            return T("lit", "")
        if self.eq(eng, a, C(0)) and self.eq(eng, b, self.size_of(eng, x)):
            return x
        if x.op == "cat":
            at, i, j = C(0), None, None
            for k, p in enumerate(x.a + (None,)):
                if i is None and self.eq(eng, at, a):
                    i = k
                if self.eq(eng, at, b):
                    j = k
                if p is not None:
                    at = eng.arith("+", at, self.size_of(eng, p))
            if i is not None and j is not None and i <= j:
                return self.cat(*x.a[i:j])
            return T("sub", x, a, b)
        return super().sub(eng, st, x, a, b)

    @staticmethod
    def eq(eng, a, b):
        (la, ca), (lb, cb) = eng.linear(a), eng.linear(b)
        return ca == cb and la == lb

    def on_call(self, eng, st, fr, node, n, this, args):
        q, fnm, op, cls = n.get("q", ""), n.get("fnm"), n.get("op"), n.get("cls") or ""
        if fnm == "lspLength" and args:
            return [(st, T("units", self.S(eng, st, eng.rv(fr, st, args[0]))))]
        if fnm == "positionToOffset" and len(args) >= 2:
            text, pos = self.S(eng, st, eng.rv(fr, st, args[0])), eng.rv(fr, st, args[1])
            if pos.op == "&":
                pos = eng.read(st, deref(pos))
            strict = C(0)
            if len(args) > 2:
                strict = eng.rv(fr, st, args[2])
                if fr.fn.nodes[args[2]]["k"] == "CXXDefaultArgExpr":
                    strict = C(1)
            v = T("off", text, pos, strict)
            ok, bad = st.clone(), st.clone()
            ok.facts[("nn", v)] = True
            bad.facts[("nn", v)] = False
            bad.ts["poserr"] = bad.ts.get("poserr", ()) + (pos,)
            return self.string(eng, ok, fr, node, n, v) + self.string(eng, bad, fr, node, n, v)
        if cls.startswith("llvm::Expected") and (op == "*" or fnm == "get") and this is not None:
            v = eng.read(st, deref(this))
            if v.op == "off":
                return [(st, self.give(eng, st, fr, node, n, v))]
        if q == "llvm::Error::success" or fnm == "success":
            return self.string(eng, st, fr, node, n, T("ok"))
        if cls.startswith("std::basic_string") and "view" not in cls and this is not None and \
                (op in ("=", "+=") or fnm in ("assign", "append", "push_back", "replace", "insert", "erase", "back", "clear")):
            loc = deref(this)
            x = self.S(eng, st, eng.read(st, loc))
            a = [eng.rv(fr, st, i) if fr.fn.nodes[i]["k"] != "CXXDefaultArgExpr" else None for i in args]
            b = [self.S(eng, st, v) if v is not None else None for v in a]
            ch = lambda i: T("lit", chr(a[i].a[0])) if a[i].op == "c" and fr.fn.type_of(args[i]).get("int") == 8 else b[i]
            r = None
            if fnm == "back":
                last = x.a[-1] if x.op == "cat" else x
                r = C(ord(last.a[0][-1])) if last.op == "lit" and last.a[0] else T("call", "back", x)
                return [(st, self.give(eng, st, fr, node, n, r))]
            if fnm == "clear":
                r = T("lit", "")
            elif op == "=" or fnm == "assign" and len(a) == 1:
                r = ch(0)
            elif op == "+=" or fnm in ("append", "push_back") and len(a) == 1:
                r = self.cat(x, ch(0))
            elif fnm == "append" and len(a) == 2 and a[1].op == "call" and a[0].op == "call":
                r = None
            elif fnm == "insert" and len(a) == 2:
                r = self.cat(self.part(eng, st, x, C(0), a[0]), b[1], self.part(eng, st, x, a[0], None))
            elif fnm == "erase" and len(a) <= 2:
                e = None if len(a) < 2 or a[1] is None else eng.arith("+", a[0], a[1])
                r = self.part(eng, st, x, C(0), a[0])
                if e is not None:
                    r = self.cat(r, self.part(eng, st, x, e, None))
            elif fnm == "replace" and len(a) == 3 and b[2] is not None:
                r = self.cat(self.part(eng, st, x, C(0), a[0]), b[2],
                             self.part(eng, st, x, eng.arith("+", a[0], a[1]), None))
            if r is not None and mentions(r, lambda t: t.op == "&"):
                r = None
            if r is None:
                r = eng.fresh(st, fr, node, "text")
            eng.drop_overlay(st, loc)
            eng.write(st, loc, r)
            self.appended(eng, st, fr, node, x, r)
            return [(st, this if n.get("lv") else r)]
        if op == "+" and this is None and len(args) == 2:
            x, y = (self.S(eng, st, eng.rv(fr, st, i)) for i in args)
            if not any(v.op in ("c", "&") for v in (x, y)):
                return self.string(eng, st, fr, node, n, self.cat(x, y))
        return super().on_call(eng, st, fr, node, n, this, args)

    def appended(self, eng, st, fr, node, x, r):
        """A newline that the client did not send may be added only where it refers to the line after it."""
        if r is not self.cat(x, T("lit", "\n")) or x is not T("obj", T("param", self.fn.id, 0)):
            return
        for p in st.ts.get("poserr", ()):
            line, col = (T("sel", p, f) for f in (ToOffset.LINE, ToOffset.CHAR))
            lo, hi = eng.bounds(st, col)
            d = eng.dom(st, col)
            if (lo == hi == 0 or d and d[0] == "in" and d[1] == {0}) and \
                    eng.cmp_truth(st, "==", line, eng.arith("+", T("call", "count", x, C(10)), C(1))) is True:
                return
        self.fail(self.here(fr, node), "a newline is added that the client does not have")

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        fn = self.fn
        self.exits += 1
        where = (fn, fn.l)
        rv = st.env.get(T("RET", eng.fid(fr)))
        if rv is not None and rv.op == "&":
            rv = eng.read(st, deref(rv))
        ev = T("param", fn.id, 1)
        field = lambda b, *fs: [b := T("F", b, f) for f in fs][-1]
        rng = field(T("D", ev), self.EV + "range")
        rng = eng.read(st, rng)
        rlen = eng.read(st, field(T("D", ev), self.EV + "rangeLength"))
        newtext = self.S(eng, st, eng.read(st, field(T("D", ev), self.EV + "text")))
        orig = T("obj", T("param", fn.id, 0))
        text = self.S(eng, st, eng.read(st, T("D", orig.a[0])))
        has = eng.nullness(st, rng)
        if rv is None or rv.op != "ok":
            if has is False:
                self.fail(where, "a new text is refused")
            elif not st.ts.get("poserr") and not st.ts.get("why"):
                self.fail(where, "a change is refused that has a good range")
            return
        if has is None:
            self.fail(where, "a change is made without asking for its range")
            return
        if has is False:
            if text is not newtext:
                self.fail(where, "the text is not the new text")
            return
        if text.op != "cat":
            self.fail(where, "the text is not the old one with the range replaced")
            return
        base, ok = None, False
        for b in (orig, self.cat(orig, T("lit", "\n"))):
            for s, e in self.ranges(eng, st, b, rng):
                want = self.cat(self.part(eng, st, b, C(0), s), newtext, self.part(eng, st, b, e, None))
                if self.same_text(eng, st, text, want):
                    base, ok = (b, s, e), True
                    break
        if not ok:
            self.fail(where, "the text is not the old one with the range replaced")
            return
        b, s, e = base
        d = eng.diff_lb(st, e, s)
        if d is None or d < 0:
            self.fail(where, "a range that ends before its start is replaced")
        known = eng.nullness(st, rlen)
        if known is None:
            self.fail(where, "the length of the range is not asked for")
        elif known:
            have = eng.read(st, T("D", rlen))
            part = self.part(eng, st, b, s, e)
            agree = False
            for (kind, t), v in st.facts.items():
                if kind == "eq" and v is True:
                    for x, u in (t.a, t.a[::-1]):
                        agree = agree or x in (have, rlen) and u.op == "units" and self.same_text(eng, st, u.a[0], part)
            # nothing replaced: the length is a constant
            agree = agree or part == T("lit", "") and eng.cmp_truth(st, "==", have, C(0)) is True
            if not agree:
                self.fail(where, "a change is made although its length differs")

    def same_text(self, eng, st, a, b):
        if a is b:
            return True
        if a.op != b.op or len(a.a) != len(b.a):
            return False
        if a.op == "sub":
            return a.a[0] is b.a[0] and all(self.same(eng, st, x, y) for x, y in zip(a.a[1:], b.a[1:]))
        if a.op == "cat":
            return all(self.same_text(eng, st, x, y) for x, y in zip(a.a, b.a))
        return False

    def ranges(self, eng, st, b, rng):
        """(start, end) a range may have in the text b."""
        orig = T("obj", T("param", self.fn.id, 0))
        out = []
        for f in ("start", "end"):
            p = T("sel", T("obj", rng), "lspserver::Range::" + f)
            c = [T("off", x, p, C(0)) for x in (orig, b)]
            if b is not orig and any(q is p for q in st.ts.get("poserr", ())):
                c.append(self.size_of(eng, b))
            out.append(c)
        return [(s, e) for s in out[0] for e in out[1]]

    def on_assume(self, eng, st, fr, cond, truth):
        # reasons to refuse a change
        if cond is not None and cond.op == "cmp":
            if mentions(cond, lambda t: t.op == "units") or mentions(cond, lambda t: t.op == "off"):
                a, b = cond.a[1:]
                if mentions(cond, lambda t: t.op == "units"):
                    if eng.cmp_truth(st, "==", a, b) is False:
                        st.ts["why"] = True
                else:
                    for x, y in ((a, b), (b, a)):
                        d = eng.diff_lb(st, x, y)
                        if d is not None and d >= 1 and \
                                str(x.a[1] if x.op == "off" else "").endswith("range.start"):
                            st.ts["why"] = True
        return True


class Store(Strings):
    """What is stored for a file is what is read back for it."""
    linear_facts = True

    def __init__(self, prog, fn):
        super().__init__(prog)
        self.fn = fn

    def on_call(self, eng, st, fr, node, n, this, args):
        q, fnm, op, cls = n.get("q", ""), n.get("fnm"), n.get("op"), n.get("cls") or ""
        if q in LOG:
            return [(st, None)]
        if fnm in ("make_shared", "allocate_shared") and args:
            return self.string(eng, st, fr, node, n, T("box", self.S(eng, st, eng.rv(fr, st, args[-1]))))
        if fnm == "erase" and cls.startswith("llvm::StringMap") and args:
            st.ts["erased"] = self.S(eng, st, eng.rv(fr, st, args[0]))
        return super().on_call(eng, st, fr, node, n, this, args)

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        fn = self.fn
        where = (fn, fn.l)
        P = [T("param", fn.id, i) for i in range(len(fn.params))]
        rl = T("RET", eng.fid(fr))
        ret = st.env.get(rl)
        at = lambda v, p: mentions(v, lambda t: t is p)
        if fn.n == "addDraft":
            found = {}
            for k, v in st.env.items():
                for f in ("Contents", "Version"):
                    if k.op == "F" and str(k.a[1]).endswith("Draft::" + f) and k.root is None:
                        found.setdefault(f, []).append((k, v))
            c = [k for k, v in found.get("Contents", ()) if at(k, P[0]) and v == T("box", P[2])]
            if not c or len(found["Contents"]) != 1:
                self.fail(where, "the text is not stored for its file")
                return
            ver = eng.read(st, T("F", c[0].a[0], c[0].a[1].replace("Contents", "Version")))
            if ret is None or self.S(eng, st, ret) is not self.S(eng, st, ver):
                self.fail(where, "the version that is returned is not the one that is stored")
            empty = eng.cmp_truth(st, "==", T("call", "size", P[1]), C(0))
            if (self.S(eng, st, ver) is P[1]) == (empty is True) or empty is None:
                self.fail(where, "the version is not the one that was given")
        elif fn.n == "getDraft":
            hit = []
            for v in st.facts:
                mentions(v[1], lambda t: t.op == "call" and t.a[0] == "find" and hit.append(t))
            if ret is not None and ret.op == "null":
                if not any(at(t, P[0]) and eng.cmp_truth(st, "==", t, T("call", "end", t.a[1])) is True for t in hit):
                    self.fail(where, "a draft is not found although it is there")
            elif ret is None or not at(eng.read(st, T("D", ret)), P[0]):
                self.fail(where, "the draft of another file is returned")
        elif fn.n == "removeDraft":
            if st.ts.get("erased") is not P[0]:
                self.fail(where, "the draft stays after it was removed")


class Docs(Base):
    """Open, change and close messages reach the stored text, and the stored text reaches the parser."""
    max_states = 400
    max_inline_blocks = 400
    EVENTS = ("addDraft", "getDraft", "removeDraft", "applyChange", "actOnDocumentAdd", "removeDocument",
              "publishDiagnostics", "encodeVersion", "parse")

    def __init__(self, prog, fn):
        super().__init__(prog)
        self.fn = fn
        self.cut = frozenset(g.id for g in prog.fns.values() if g.n in self.EVENTS and g.id != fn.id)

    def inline(self, eng, fr, fn):
        return fn.n not in self.EVENTS and super().inline(eng, fr, fn)

    def val(self, eng, st, fr, a):
        v = eng.rv(fr, st, a)
        for _ in range(4):
            if v.op == "&":
                v = eng.read(st, deref(v))
            elif v.op == "mk" and len(v.a) == 2 and v.a[0] in STR:
                v = v.a[1]
            else:
                break
        return v

    def on_call(self, eng, st, fr, node, n, this, args):
        q, fnm = n.get("q", ""), n.get("fnm")
        if q in LOG:
            return [(st, None)]
        if fnm == "operator bool" and n.get("cls") == "llvm::Error" and this is not None:
            return [(st, T("nonnull", eng.read(st, deref(this))))]
        if fnm in self.EVENTS and n["k"] != "CXXConstructExpr":
            vs = tuple(self.val(eng, st, fr, a) for a in args)
            if fnm == "encodeVersion":
                return [(st, T("enc", *vs))]
            if fnm == "applyChange":
                loc = eng.rv(fr, st, args[0])
                loc = deref(loc) if loc.op == "&" else None
                ok, bad = st.clone(), st.clone()
                v = T("chg", vs[0] if vs[0].op in ("lp", "chg") else vs[0], vs[1] if len(vs) > 1 else None)
                r = eng.fresh(ok, fr, node, "ret")
                if loc is not None:
                    eng.write(ok, loc, T("text", v))
                ok.facts[("nn", r)] = False
                bad.facts[("nn", r)] = True
                ok.ts["changed"] = loc
                bad.ts["bad"] = True
                tmp = T("TMP", eng.fid(fr), node)
                eng.write(ok, tmp, r)
                eng.write(bad, tmp, r)
                return [(ok, absint.addr(tmp)), (bad, absint.addr(tmp))]
            st.ts["ev"] = st.ts.get("ev", ()) + ((fnm,) + vs,)
        return None

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        fn, nm = self.fn, self.fn.n
        where = (fn, fn.l)
        ev = st.ts.get("ev", ())
        names = [e[0] for e in ev]
        p0 = T("param", fn.id, 0)
        of = lambda v, s: mentions(v, lambda t: t.op == "sel" and str(t.a[1]).endswith(s))
        from_params = lambda v: mentions(v, lambda t: t is p0)
        if nm == "removeDocument":
            if not any(e[0] == "removeDraft" and e[1] is p0 for e in ev):
                self.fail(where, "the text of a removed document stays")
            if not any(e[0] == "publishDiagnostics" and e[1] is p0 for e in ev):
                self.fail(where, "the diagnostics of a removed document stay")
        elif nm == "onDocumentDidClose":
            if not any(e[0] in ("removeDocument", "removeDraft") and of(e[1], "::uri") for e in ev):
                self.fail(where, "a closed document is not removed")
        elif nm in ("onDocumentDidOpen", "onDocumentDidChange"):
            adds = [e for e in ev if e[0] == "addDraft"]
            acts = [e for e in ev if e[0] == "actOnDocumentAdd"]
            if st.ts.get("bad"):
                if adds or "removeDocument" not in names and "removeDraft" not in names:
                    self.fail(where, "after a change that cannot be made the document is kept")
                return
            if nm == "onDocumentDidChange" and not adds:
                if not any(not v for (k, t), v in st.facts.items() if k == "nn"):
                    self.fail(where, "a change is dropped")
                return
            if len(adds) != 1 or len(acts) != 1 or names.index("addDraft") > names.index("actOnDocumentAdd"):
                self.fail(where, "the text is not stored and then analysed")
                return
            a, b = adds[0], acts[0]
            if not of(a[1], "::uri") or b[1] is not a[1]:
                self.fail(where, "the text is stored for another file")
            if len(b) < 3 or not of(b[2], "::version") or not mentions(a[2], lambda t: t.op == "enc" and of(t, "::version")):
                self.fail(where, "the version is not the one of the message")
            if nm == "onDocumentDidOpen":
                if not (a[3].op == "sel" and str(a[3].a[1]).endswith("TextDocumentItem::text")):
                    self.fail(where, "the text that is stored is not the one of the message")
            elif not mentions(a[3], lambda t: t.op in ("lp", "text")):
                self.fail(where, "the text that is stored is not the changed one")
        elif nm == "actOnDocumentAdd":
            parse = [e for e in ev if e[0] == "parse"]
            pub = [e for e in ev if e[0] == "publishDiagnostics"]
            if len(parse) != 1 or not mentions(parse[0][1], lambda t: str(t.a[-1]).endswith("Contents") if t.op == "sel" else False):
                self.fail(where, "the text that is parsed is not the stored one")
            if len(pub) != 1 or len(pub[0]) < 3 or pub[0][2] is not T("param", fn.id, 1):
                self.fail(where, "diagnostics are not published with the version of their text")


def run(chk):
    prog = load_prog(["lspserver"])
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not f.cfg or f.d.get("lambda") or not f.q.startswith("lspserver::"):
            continue
        r = None
        if f.n == "lspLength":
            r = Length(prog, f)
        elif f.n == "positionToOffset":
            r = ToOffset(prog, f)
        elif f.n == "offsetToPosition":
            r = OffsetTo(prog, f)
        elif f.n == "applyChange":
            r = Change(prog, f)
        elif f.n in ("addDraft", "getDraft", "removeDraft") and f.q.startswith("lspserver::DraftStore::"):
            r = Store(prog, f)
        if r is None:
            continue
        e = Engine(prog, r)
        e.run_root(f)
        if isinstance(r, Units):
            r.finish(e)
            chk.count("kinds of bytes decided", len(r.backs))
        report(chk, r, f, "positions")
    prog = load_prog(["controller"])
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.cfg and not f.d.get("lambda") and f.n in (
                "onDocumentDidOpen", "onDocumentDidChange", "onDocumentDidClose", "removeDocument", "actOnDocumentAdd"):
            r = Docs(prog, f)
            Engine(prog, r).run_root(f)
            report(chk, r, f, "documents")
