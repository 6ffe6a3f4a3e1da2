"""P14: messages are framed and read exactly.

Output: the functions that write to the outgoing stream are interpreted with the
stream, the buffers and formatted text as sequences of pieces; what reaches the
stream must be a header announcing the size of exactly the bytes written after
it, these bytes must be the one message, and a flush must follow.

Input: the reader is interpreted with every read as an event.  The bytes read
into the buffer stay inside it, go to consecutive places, and the message is
parsed only when as many were read as the header (closed by a blank line) said;
a failed or empty read ends the input; a line is all bytes up to its newline."""
import re
import absint
from absint import T, C, Engine, deref
from check import load_prog
from facts import AnalysisBroken
from p12 import mentions, report, LOG

EXPLANATION = __doc__
BUFS = ("llvm::SmallVector", "llvm::SmallString", "std::basic_string", "llvm::SmallVectorImpl", "std::vector")
MEMSTREAM = ("llvm::raw_svector_ostream", "llvm::raw_string_ostream", "llvm::buffer_ostream")


class Base(absint.Rule):
    max_states = 300

    def __init__(self, prog):
        super().__init__()
        self.prog = prog
        self.bad, self.exits = {}, 0

    def fail(self, where, msg):
        self.bad.setdefault((where[0].q, msg), where)

    def here(self, fr, node):
        return (fr.fn, fr.fn.nodes[node].get("l", fr.fn.l))

    def inline(self, eng, fr, fn):
        import facts
        return bool(fn.d.get("lambda")) or fn.file.startswith(facts.REPO) and fn.n not in self.opaque

    opaque = frozenset()


def root(l):
    while l.op in ("F", "E", "obj", "ver"):
        l = l.a[0]
    return l


class Writer(Base):
    """Text is txt(piece, ...): str, dec(term), val(term) or all(term) pieces."""
    STREAM = "lspserver::OutboundPort::Outs"

    def __init__(self, prog, fn, stream):
        super().__init__(prog)
        self.fn, self.stream = fn, stream
        self.frames = 0

    def is_out(self, st, v):
        return isinstance(v, absint.Term) and v.op in ("F", "D", "sel", "&", "ver", "obj") and \
            mentions(v, lambda x: x.op in ("F", "sel") and x.a[1] == self.stream)

    def text(self, eng, st, fr, a):
        """Pieces of the text an argument denotes."""
        v = eng.rv(fr, st, a)
        return self.pieces(eng, st, v, fr.fn.type_of(a))

    def pieces(self, eng, st, v, ty=None):
        if v.op == "txt":
            return v.a
        if v.op == "str":
            return (v,)
        if v.op == "mk" or v.op in ("wrap", "obj"):
            inner = [x for x in v.a if isinstance(x, absint.Term)]
            if len(inner) >= 1:
                x = inner[0]
                if x.op == "&":
                    x = eng.read(st, deref(x))
                if x.op == "call" and x.a[0] in ("data", "c_str", "begin"):
                    if len(inner) > 1 and inner[1] != T("call", "size", x.a[1]):
                        return (T("val", v),)
                    x = x.a[1]
                p = self.pieces(eng, st, x)
                if p is not None:
                    return p
        if v.op == "c" and isinstance(v.a[0], int):
            return (T("dec", v),)
        if v.op == "call" and v.a[0] in ("size", "length"):
            return (T("dec", v),)
        if v.op in ("F", "V", "TMP"):
            return self.pieces(eng, st, eng.read(st, v))
        return (T("val", v),)

    def fmt(self, f, args):
        out = []
        for lit, num, spec in re.findall(r"([^{]*)(?:\{(\d+)([^}]*)\})?", f):
            if lit:
                out.append(T("str", lit, len(lit) + 1))
            if num:
                if int(num) >= len(args):
                    return (T("val", T("str", f, 0)),)
                out.extend(x if not spec or x.op == "str" else T("val", T("styled", x, spec)) for x in args[int(num)])
        return tuple(out)

    def set_text(self, eng, st, fr, node, p):
        loc = T("TMP", eng.fid(fr), node)
        eng.write(st, loc, T("txt", *p))
        return [(st, absint.addr(loc))]

    def mem(self, eng, st, l):
        """The buffer a memory stream at l writes to."""
        v = eng.read(st, l)
        if v.op == "mem":
            return v.a[0]
        return None

    def on_call(self, eng, st, fr, node, n, this, args):
        q, fnm, op, cls = n.get("q", ""), n.get("fnm"), n.get("op"), n.get("cls") or ""
        if q in LOG:
            return [(st, None)]
        where = self.here(fr, node)
        if cls in MEMSTREAM and n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and args:
            loc = T("TMP", eng.fid(fr), node)
            eng.write(st, loc, T("mem", deref(eng.val(fr, st, args[0]))))
            return [(st, absint.addr(loc))]
        if fnm in ("formatv", "format") and args:
            vs = [eng.rv(fr, st, a) for a in args]
            k = 0
            if vs[0].op != "str" and len(vs) > 1 and vs[1].op == "str":
                k = 1
            if vs[k].op == "str":
                return self.set_text(eng, st, fr, node, self.fmt(vs[k].a[0], [self.text(eng, st, fr, a) for a in args[k + 1:]]))
        if fnm in ("to_string", "utostr", "itostr") and args:
            return self.set_text(eng, st, fr, node, (T("dec", eng.rv(fr, st, args[0])),))
        # writing
        dst = None
        if op == "<<":
            dst, src = (this, args[-1]) if this is not None else (eng.val(fr, st, args[0]), args[1])
        elif fnm in ("write",) and this is not None and args:
            dst, src = this, args[0]
        if dst is not None:
            l = deref(dst)
            if self.is_out(st, dst) or self.is_out(st, l):
                if fnm == "write" and len(args) > 1:
                    v = eng.rv(fr, st, args[0])
                    c = eng.rv(fr, st, args[1])
                    if v.op == "call" and v.a[0] in ("data", "c_str", "begin") and c == T("call", "size", v.a[1]):
                        p = self.pieces(eng, st, v.a[1])
                    else:
                        p = (T("val", v),)
                else:
                    p = self.text(eng, st, fr, src)
                st.ts["out"] = st.ts.get("out", ()) + tuple(p) + (T("end"),)
                st.ts["dirty"] = True
                return [(st, dst)]
            b = self.mem(eng, st, l)
            if b is not None:
                old = eng.read(st, b)
                old = old.a if old.op == "txt" else (T("old", old),)
                eng.write(st, b, T("txt", *(old + tuple(self.text(eng, st, fr, src)))))
                return [(st, dst)]
        if fnm == "flush" and this is not None and (self.is_out(st, this) or self.is_out(st, deref(this))):
            st.ts["dirty"] = False
            return [(st, None)]
        if fnm == "str" and this is not None:
            b = self.mem(eng, st, deref(this))
            if b is not None:
                return [(st, absint.addr(b))]
            v = eng.read(st, deref(this))
            if v.op == "txt":
                return self.set_text(eng, st, fr, node, v.a)
        # buffers
        ty = fr.fn.type_of(node)
        if cls in BUFS and this is not None:
            l = deref(this)
            if fnm == "clear":
                eng.write(st, l, T("txt"))
                return [(st, None)]
            if fnm in ("append", "operator+=", "assign") and args:
                old = eng.read(st, l)
                old = old.a if old.op == "txt" else (T("old", old),)
                if fnm == "assign":
                    old = ()
                eng.write(st, l, T("txt", *(old + tuple(self.text(eng, st, fr, args[0])))))
                return [(st, this)]
            v = eng.read(st, l)
            if fnm == "str" and v.op == "txt":
                return self.set_text(eng, st, fr, node, v.a)
            if fnm in ("size", "length"):
                return [(st, T("call", "size", v))]
            if fnm in ("data", "c_str", "begin"):
                return [(st, T("call", "data", v))]
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and cls in BUFS:
            real = [a for a in args if a >= 0 and fr.fn.nodes[a]["k"] != "CXXDefaultArgExpr" and
                    "allocator" not in str(fr.fn.type_of(a).get("rec"))]
            if not real:
                return self.set_text(eng, st, fr, node, ())
            if len(real) == 1 and not fr.fn.type_of(real[0]).get("int"):
                return self.set_text(eng, st, fr, node, self.text(eng, st, fr, real[0]))
        if op == "+" and ty.get("rec") in ("std::basic_string", "llvm::Twine"):
            a = ([this] if this is not None else []) + list(args)
            ps = ()
            for x in a:
                ps += tuple(self.text(eng, st, fr, x) if isinstance(x, int) else self.pieces(eng, st, eng.read(st, deref(x))))
            return self.set_text(eng, st, fr, node, ps)
        if n.get("conv") and this is not None and ("basic_string" in str(ty.get("rec")) or "StringRef" in str(ty.get("rec"))):
            v = eng.read(st, deref(this))
            if v.op == "txt":
                return self.set_text(eng, st, fr, node, v.a)
        return None

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        where = (self.fn, self.fn.l)
        out = st.ts.get("out", ())
        if not out:
            return
        self.frames += 1
        # text with every value replaced by a mark
        vals, s = [], ""
        for p in out:
            if p.op == "end":
                continue
            if p.op == "str":
                s += p.a[0]
            else:
                s += "\0%d\0" % len(vals)
                vals.append(p)
        m = re.fullmatch(r"(?:[A-Za-z-]+: [^\r\n\0]*\r\n)*Content-Length: \0(\d+)\0\r\n(?:[A-Za-z-]+: [^\r\n\0]*\r\n)*\r\n((?s:.*))", s)
        if not m:
            self.fail(where, "what is written is no header with the length, a blank line and the message")
            return
        d = vals[int(m.group(1))]
        body = []
        for part in re.split("(\0\\d+\0)", m.group(2)):
            if not part:
                continue
            body.append(vals[int(part.strip("\0"))] if part[0] == "\0" else T("str", part, len(part) + 1))
        n = d.a[0] if d.op == "dec" else None
        if n is None or n.op != "call" or n.a[0] not in ("size", "length"):
            self.fail(where, "the length in the header is not the size of the message")
            return
        if list(self.pieces(eng, st, n.a[1])) != body:
            self.fail(where, "the length in the header is not the size of what is written after it")
        if any(x.op == "old" for x in body):
            self.fail(where, "bytes of an earlier message are written again")
        ps = [T("param", self.fn.id, i) for i in range(len(self.fn.params))]
        hits = [x for x in body if x.op == "val" and any(mentions(x, lambda t: t == p) for p in ps) or x.op == "val"]
        if len(body) != 1 or len(hits) != 1:
            self.fail(where, "not just the message follows the header")
        if st.ts.get("dirty"):
            self.fail(where, "a message is written and not flushed")


class Read(Base):
    """The outcome of the last read, kept over loop heads in st.ts: good, bad, or not looked at."""

    def did_read(self, eng, st, fr, node, hi):
        r = T("rd", eng.fid(fr), node, st.ts.get("n", 0))
        st.ts["n"] = (st.ts.get("n", 0) + 1) % 2
        for k in [k for k in st.facts if mentions(k[1], lambda x: x.op == "rd")]:
            del st.facts[k]
        st.facts[("hi", r)] = hi
        st.facts[("lo", r)] = -1
        st.ts["last"] = r
        st.ts["got"] = None
        st.ts["eintr"] = False
        return r

    def on_edge(self, eng, st, fr, src, dst):
        r = st.ts.get("last")
        if r is not None and st.ts.get("got") is None:
            lo, hi = eng.bounds(st, r)
            if lo is not None and lo >= 1:
                st.ts["got"] = True
            elif hi is not None and hi <= 0:
                st.ts["got"] = False

    def is_good(self, eng, st):
        self.on_edge(eng, st, None, None, None)
        return st.ts.get("got") is True

    def interrupted(self, st, t, tr):
        if t.op == "cmp" and any(x == C(4) for x in t.a[1:]) and (t.a[0] == "==") == tr and mentions(
                t, lambda x: x.op in ("r", "D")):
            st.ts["eintr"] = True


class Reader(Read):
    """Reading one message.  offs: the places (offsets in the buffer) the reads of
    the first interpretation went to, as terms over the values at loop heads."""
    opaque = frozenset(["readLine"])
    split_bools = True

    def __init__(self, prog, fn, offs):
        super().__init__(prog)
        self.fn, self.offs = fn, offs
        self.nreads = 0
        self.found, self.entries, self.parses, self.sizes, self.lens = set(), {}, [], [], set()

    def on_call(self, eng, st, fr, node, n, this, args):
        q, fnm, cls = n.get("q", ""), n.get("fnm"), n.get("cls") or ""
        where = self.here(fr, node)
        if q in LOG:
            return [(st, None)]
        if fnm == "readLine":
            st.ts["blank"] = False
            st.ts["line"] = True
            return None
        if fnm in ("getAsUnsignedInteger", "getAsInteger", "to_integer", "consumeInteger", "consumeUnsignedInteger", "getAsSignedInteger"):
            for a in args:
                if fr.fn.nodes[a].get("lv"):
                    v = eng.val(fr, st, a)
                    if v.op == "&" and root(deref(v)).op == "V":
                        self.lens.add(deref(v))
            return None
        if cls in BUFS and this is not None and fnm in ("resize", "resize_for_overwrite", "assign"):
            self.size(eng, st, where, deref(this), eng.rv(fr, st, args[0]))
            return [(st, None)]
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and cls in BUFS and this is not None and args and \
                fr.fn.type_of(args[0]).get("int"):
            self.size(eng, st, where, deref(this), eng.rv(fr, st, args[0]))
            return None
        if cls in BUFS and this is not None and fnm in ("data", "begin", "size", "length"):
            k = deref(this)
            if ("cap", k) in st.ts:
                return [(st, T("call", "data", k) if fnm in ("data", "begin") else st.ts[("cap", k)])]
        if n.get("op") == "[]" and this is not None and cls in BUFS:
            k = deref(this)
            if ("cap", k) in st.ts:
                return [(st, absint.addr(T("elem", k, eng.rv(fr, st, args[0]))))]
        if q in ("read", "::read", "recv") and len(args) >= 3:
            self.read_event(eng, st, fr, where, eng.rv(fr, st, args[1]), eng.rv(fr, st, args[2]))
            for k in st.ts:
                if isinstance(k, tuple) and k[0] == "since":
                    st.ts[k] = True
            return [(st, self.did_read(eng, st, fr, node, (1 << 63) - 1))]
        if fnm == "parse" and q.endswith("json::parse"):
            self.on_edge(eng, st, fr, None, None)
            self.parses.append((st.clone(), where))
        return None

    def size(self, eng, st, where, k, v):
        st.ts[("cap", k)] = v
        st.ts["full"] = False
        st.ts["cap"] = v
        if not st.ts.get("blank"):
            self.fail(where, "the message is read before the blank line that ends the headers")
        self.sizes.append((v, where, st.clone()))

    def read_event(self, eng, st, fr, where, ptr, cnt):
        self.nreads += 1
        if st.ts.get("last") is not None:
            if not self.is_good(eng, st) and not st.ts.get("eintr"):
                self.fail(where, "reading goes on after the input has ended or failed")
        d = []
        mentions(ptr, lambda x: x.op == "call" and x.a[0] == "data" and (d.append(x) or True) or
                 x.op == "elem" and (d.append(x) or True))
        st.ts["off"] = None
        if not d:
            return
        k = d[0].a[1] if d[0].op == "call" else d[0].a[0]
        cap = st.ts.get(("cap", k))
        if cap is None:
            self.fail(where, "bytes are read into a buffer that was not given the announced size")
            return
        lin, c = eng.linear(ptr if ptr.op != "&" else ptr.a[0])
        off = C(c)
        base = 0
        for t, m in sorted(lin.items(), key=str):
            if t is d[0] and m == 1:
                base = 1
                if t.op == "elem":
                    off = eng.arith("+", off, t.a[1])
            elif m == 1:
                off = eng.arith("+", off, t)
            elif m == -1:
                off = eng.arith("-", off, t)
            else:
                return
        if not base:
            return
        st.ts["off"], st.ts["cap"] = off, cap
        self.found.add((off, where))
        over = eng.diff_lb(st, cap, eng.arith("+", off, cnt))
        if over is None or over < 0:
            self.fail(where, "bytes are read past the end of the buffer")

    def on_loop_pre(self, eng, st, fr, head, first):
        if first:
            self.entries.setdefault((eng.fid(fr), head), []).append(st.clone())

    def on_loophead(self, eng, st, fr, head, first):
        st.ts[("since", eng.fid(fr), head)] = False

    def subst(self, eng, st, t, fid, head):
        if not isinstance(t, absint.Term):
            return t
        if t.op == "lp" and t.a[0] == fid and t.a[1] == head:
            l = t.a[2]
            return eng.read(st, l if isinstance(l, absint.Term) else T("V", fid, l))
        a = [self.subst(eng, st, x, fid, head) for x in t.a]
        if t.op == "ar":
            return eng.arith(t.a[0], a[1], a[2])
        if t.op == "+" and isinstance(t.a[1], int):
            return eng.arith("+", a[0], C(t.a[1]))
        return T(t.op, *a) if any(x is not y for x, y in zip(a, t.a)) else t

    def same(self, eng, st, a, b):
        return a is b or eng.diff_lb(st, a, b) == 0 and eng.diff_lb(st, b, a) == 0

    def on_backedge(self, eng, st, fr, head):
        fid = eng.fid(fr)
        off, r = st.ts.get("off"), st.ts.get("last")
        if off is None or r is None or not st.ts.get(("since", fid, head)):
            return
        want = eng.arith("+", off, r) if self.is_good(eng, st) else off
        if not self.same(eng, st, self.subst(eng, st, off, fid, head), want):
            self.fail((fr.fn, fr.fn.l), "the place for the next bytes does not follow the bytes that were read")

    def on_assume(self, eng, st, fr, cond, truth):
        t, tr = cond, truth
        if t is None:
            return True
        while t.op == "not":
            t, tr = t.a[0], not tr
        if tr and t.op == "call" and t.a[0] == "empty" or t.op == "cmp" and tr and t.a[0] == "==" and any(
                isinstance(x, absint.Term) and (x.op == "str" and x.a[0].strip() == "" or x.op == "mk" and mentions(
                    x, lambda y: y.op == "str" and y.a[0].strip() == "")) for x in t.a[1:]) or \
                t.op == "call" and t.a[0] in ("==", "operator==") and tr and mentions(
                    t, lambda y: y.op == "str" and y.a[0].strip() == "") or \
                t.op == "cmp" and tr and t.a[0] == "==" and t.a[2] == C(0) and mentions(t.a[1], lambda x: x.op == "call" and x.a[0] == "size"):
            if st.ts.get("line"):
                st.ts["blank"] = True
        self.interrupted(st, t, tr)
        self.full(eng, st)
        return True

    def on_edge(self, eng, st, fr, src, dst):
        super().on_edge(eng, st, fr, src, dst)
        self.full(eng, st)

    def full(self, eng, st):
        if st.ts.get("full") or st.ts.get("cap") is None:
            return
        cap = st.ts["cap"]
        cands = list(self.offs)
        if st.ts.get("off") is not None and st.ts.get("got") is True:
            cands.append(eng.arith("+", st.ts["off"], st.ts["last"]))
        for c in cands:
            d = eng.diff_lb(st, c, cap)
            if d is not None and d >= 0 or c.op != "c" and eng.cmp_truth(st, "==", c, cap) is True:
                st.ts["full"] = True

    def on_exit(self, eng, st, fr):
        if fr.parent is None:
            self.exits += 1

    def finish(self, eng):
        if not self.parses or not self.nreads:
            return
        for v, where, st in self.sizes:
            if self.lens and v != C(0):
                if not any(v == eng.read(st, l) for l in self.lens):
                    self.fail(where, "the buffer gets another size than the header announced")
        for off, where in self.found:
            heads = set()
            mentions(off, lambda x: x.op == "lp" and heads.add(x.a[:2]))
            for fid, head in heads:
                for st in self.entries.get((fid, head), ()):
                    v = self.subst(eng, st, off, fid, head)
                    if mentions(v, lambda x: x.op == "lp" and x.a[:2] in heads):
                        continue
                    if not self.same(eng, st, v, C(0)):
                        self.fail(where, "the bytes do not go to the start of the buffer")
        for st, where in self.parses:
            caps = [v for k, v in st.ts.items() if isinstance(k, tuple) and k[0] == "cap"]
            if not caps:
                self.fail(where, "a message is parsed that was never read")
                continue
            _, hi = eng.bounds(st, caps[0])
            if not (hi is not None and hi <= 0) and not st.ts.get("full"):
                self.fail(where, "a message is parsed before all its bytes were read")


def eng_kill(eng, st, t):
    for k in [k for k in st.facts if mentions(k[1], lambda x: x == t) or len(k) > 2 and mentions(k[2], lambda x: x == t)]:
        del st.facts[k]


class Line(Read):
    """Reading one line, byte by byte."""
    max_states = 400

    def on_call(self, eng, st, fr, node, n, this, args):
        q, fnm = n.get("q", ""), n.get("fnm")
        where = self.here(fr, node)
        if q in LOG:
            return [(st, None)]
        if q in ("read", "::read", "recv") and len(args) >= 3:
            if st.ts.get("last") is not None:
                if self.is_good(eng, st):
                    if not st.ts.get("kept"):
                        self.fail(where, "a byte of a line is dropped")
                elif not st.ts.get("eintr"):
                    self.fail(where, "reading goes on after the input has ended or failed")
            p = eng.rv(fr, st, args[1])
            c = eng.rv(fr, st, args[2])
            r = self.did_read(eng, st, fr, node, 1)
            b = T("byte", eng.fid(fr), node, st.ts["n"])
            eng_kill(eng, st, b)
            if c != C(1):
                self.fail(where, "more than one byte is read although only one is looked at")
            if p.op == "&":
                eng.write(st, deref(p), b)
            st.ts["byte"] = b
            st.ts["kept"] = st.ts["nl"] = False
            return [(st, r)]
        if this is not None and (n.get("op") == "+=" or fnm in ("push_back", "append", "operator+=")) and args:
            v = [eng.rv(fr, st, a) for a in args]
            b = st.ts.get("byte")
            if b is not None and any(x == b for x in v):
                self.good(eng, st, where)
                st.ts["kept"] = True
                return [(st, this)]
        return None

    def good(self, eng, st, where):
        if not self.is_good(eng, st):
            self.fail(where, "a byte is used although the read gave none")

    def on_assume(self, eng, st, fr, cond, truth):
        t, tr = cond, truth
        if t is None:
            return True
        while t.op == "not":
            t, tr = t.a[0], not tr
        b = st.ts.get("byte")
        if t.op == "cmp" and b is not None and mentions(t, lambda x: x == b):
            self.good(eng, st, (fr.fn, fr.fn.l))
            if any(x == C(10) for x in t.a[1:]) and (t.a[0] == "==") == tr:
                st.ts["nl"] = True
            elif any(x == C(13) for x in t.a[1:]) and (t.a[0] == "==") == tr:
                st.ts["kept"] = True        # a carriage return means nothing in a header
        else:
            self.interrupted(st, t, tr)
        return True

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        rv = st.env.get(T("RET", eng.fid(fr)))
        t = eng.truth(st, rv) if rv is not None else None
        where = (fr.fn, fr.fn.l)
        if t is not False and not st.ts.get("nl"):
            self.fail(where, "a line is given out that has not ended")
        if t is False and st.ts.get("nl"):
            self.fail(where, "a whole line is thrown away")


class Loop(Base):
    """One message after the other, until the input or the handler ends."""
    split_bools = True
    opaque = frozenset(["readMessage", "dispatch"])

    def on_call(self, eng, st, fr, node, n, this, args):
        if n.get("q") in LOG:
            return [(st, None)]
        f = n.get("fnm")
        where = self.here(fr, node)
        if f == "readMessage":
            if st.ts.get("read"):
                self.on_edge(eng, st, fr, None, None)
                if st.ts.get("disp") is None:
                    self.fail(where, "reading goes on after the input has ended, or a message is not handled")
                elif st.ts.get("go") is not True:
                    self.fail(where, "reading goes on although the handler said to stop")
            st.ts["read"] = True
            st.ts["disp"] = st.ts["go"] = None
        return None

    def on_edge(self, eng, st, fr, src, dst):
        v = st.ts.get("disp")
        if v is not None and st.ts.get("go") is None:
            st.ts["go"] = eng.truth(st, v)

    def on_assume(self, eng, st, fr, cond, truth):
        self.on_edge(eng, st, fr, None, None)
        return True

    def after_call(self, eng, st, fr, node, n, this, args, val):
        if n.get("fnm") == "dispatch":
            if st.ts.get("disp") is not None:
                self.fail(self.here(fr, node), "a message is handled twice")
            st.ts["disp"] = val

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        self.on_edge(eng, st, fr, None, None)
        if st.ts.get("disp") is not None and st.ts.get("go") is not False:
            self.fail((fr.fn, fr.fn.l), "reading ends although the handler said to go on")


def run(chk):
    prog = load_prog(["lspserver"])
    # every function that writes to the stream
    streams = [r["q"] + "::" + f["n"] for r in prog.recs.values() if r["q"] == "lspserver::OutboundPort" for f in r["fields"]
               if "raw_ostream" in f["t"].get("s", "")]
    if not streams:
        raise AnalysisBroken("the outgoing stream was not found")
    writers = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.cls != "lspserver::OutboundPort" or not f.cfg or f.d.get("ctor") or f.d.get("lambda") or f.n.startswith("~"):
            continue
        if not any(n["k"] == "MemberExpr" and f.decls[n["d"]].get("q") in streams for n in f.nodes):
            continue
        r = Writer(prog, f, streams[0])
        Engine(prog, r).run_root(f)
        writers += r.frames
        report(chk, r, f, "framing of output")
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not f.cfg or not f.q.startswith("lspserver::") or f.d.get("lambda"):
            continue
        r = None
        if f.n == "readStandardMessage":
            e = Engine(prog, Reader(prog, f, ()))
            e.run_root(f)
            r = Reader(prog, f, {o for o, _ in e.rule.found})
        elif f.n == "readLine":
            r = Line(prog)
        elif f.cls == "lspserver::InboundPort" and f.n == "loop":
            r = Loop(prog)
        if r is None:
            continue
        e = Engine(prog, r)
        e.run_root(f)
        if isinstance(r, Reader):
            r.finish(e)
        n += 1
        report(chk, r, f, "reading")
    if n < 2 or not writers:
        raise AnalysisBroken("%d readers, %d writers" % (n, writers))
