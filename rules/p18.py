"""P18: code actions write well-formed Nix text.

Every text of an edit is followed through the functions that build it as a
sequence of pieces (literal characters, source of nodes, names, escaped or
unescaped content) and read by a pushdown for the brackets, quotes and bindings
of Nix (rules/nixtext.py).  The functions that escape text or tell identifiers
are decided over all bytes: their loops are turned into a table from (byte, next
byte) to what is appended, and the table is compared with how Nix reads strings."""
import absint
import nixtext
from absint import T, C, Engine, deref
from check import load_prog
from facts import AnalysisBroken
from p12 import mentions, report, LOG
from p14 import Base

EXPLANATION = __doc__
ASSUMPTIONS = ["source text of a syntax node is what the parser read for it",
               "the content the parser gives for a string is what Nix reads",
               "a path does not end before a part of it begins",
               "a container of names other than attribute names (variables of a scope) holds identifiers"]
STR = ("std::basic_string", "llvm::StringRef", "std::basic_string_view", "llvm::StringLiteral", "llvm::SmallString", "llvm::Twine",
       "llvm::SmallVector", "llvm::SmallVectorImpl")
STREAM = ("std::basic_ostringstream", "std::basic_stringstream", "llvm::raw_string_ostream", "llvm::raw_svector_ostream")
OUT = STREAM + ("std::basic_ostream", "llvm::raw_ostream", "std::basic_string")
ATOMS = ("ExprParen", "ExprAttrs", "ExprList", "ExprString", "ExprVar", "ExprInt", "ExprFloat", "ExprPath", "ExprSPath")
ESCAPE = {"escapeNixString": "esc", "escapeForIndentedString": "esci"}


def node_kind(cls):
    n = str(cls).split("::")[-1]
    if n in ("AttrPath", "AttrName"):
        return "path"
    if n == "Identifier":
        return "id"
    if n == "Interpolation":
        return "interp"
    if n in ("Binding", "Inherit", "Binds"):
        return "bind"
    if n == "Formal":
        return "formal"
    if n in ("Node", "Interpolable"):
        return "node"
    if n in ATOMS:
        return "atom"
    if n.startswith("Expr"):
        return "expr"
    return "any"


def kind_values(prog, names):
    """Values of NodeKind of these nodes."""
    return frozenset(x["v"] for e in prog.enums.values() for x in e["vals"] if x["n"].startswith("NK_") and x["n"][3:] in names)


class Text(Base):
    max_states = 400
    max_inline_blocks = 400
    max_depth = 6
    split_bools = True
    opaque = frozenset(["generateFilename", "makeUniqueFilename", "stripFileScheme", "toLSPRange", "toLSPPosition",
                        "isValidNixIdentifier"]) | frozenset(ESCAPE)

    def __init__(self, prog, fn, summary):
        super().__init__(prog)
        self.fn, self.summary = fn, summary
        # these have a meaning here, their bodies do not count
        self.cut = frozenset(f.id for f in prog.fns.values() if f.id != fn.id and (
            f.n in ESCAPE or f.n in ("isValidNixIdentifier", "staticName", "src", "toLSPRange", "toLSPPosition",
                                     "generateFilename", "makeUniqueFilename", "stripFileScheme")))
        self.sinks, self.unknown, self.returned = 0, 0, set()
        self.selects = kind_values(prog, ("ExprSelect",))
        self.operands = kind_values(prog, ATOMS) | self.selects

    # -- the text of a value ---------------------------------------------------
    def text(self, eng, st, v, d=0):
        """Pieces of a value, or None."""
        if d > 8 or not isinstance(v, absint.Term):
            return None
        if v.op == "tx":
            return v.a
        if v.op == "str":
            return (("lit", v.a[0]),) if v.a[0] else ()
        if v.op == "&":
            l = deref(v)
            x = eng.read(st, l)
            return self.text(eng, st, x, d + 1) if x.op not in ("undef",) else None
        if v.op == "mk":
            inner = [x for x in v.a[1:] if isinstance(x, absint.Term) and not (x.op == "mk" and "allocator" in str(x.a[0]))]
            if v.a[0] in STR + STREAM and not inner:
                return ()
            if inner:
                x = inner[0]
                if x.op == "call" and x.a[0] in ("data", "c_str", "begin") and len(x.a) > 1:
                    x = x.a[1]
                return self.text(eng, st, x, d + 1)
        if v.op == "c" and isinstance(v.a[0], int) and 0 < v.a[0] < 128:
            return (("lit", chr(v.a[0])),)
        if v.op == "obj":
            x = eng.read(st, v.a[0]) if v.a[0].op in ("F", "V", "D") else v.a[0]
            if x is not v:
                r = self.text(eng, st, x, d + 1) if x.op in ("tx", "str", "&", "mk") else None
                if r is not None:
                    return r
        k = self.origin(eng, st, v)
        if k == "any":
            w = v
            while w.op in ("&", "obj", "D", "mk") and w.a and isinstance(w.a[-1], absint.Term):
                w = w.a[-1]
            if w.op in ("r", "call", "hv"):
                return (("st", ("unk",)),)        # made by a function that is not followed
        return (("op", k),)

    def origin(self, eng, st, v):
        k = self.raw(v)
        if k:
            if self.is_ident(eng, st, v):
                return "id"
            return "raw"
        if mentions(v, lambda x: x.op == "idname"):
            return "id"
        if mentions(v, lambda x: x.op == "filename"):
            return "file"
        return "any"

    def raw(self, v):
        """name or text if v is content that may hold any characters."""
        r = [None]

        def look(x):
            if x.op == "rawname":
                r[0] = r[0] or "name"
            elif x.op == "rawtext":
                r[0] = "text"
            elif x.op in ("F", "sel") and str(x.a[1]).startswith("std::pair") and str(x.a[1]).endswith("::first"):
                r[0] = r[0] or "name"       # the key of a map of attributes
            return False
        mentions(v, look)
        return r[0]

    def core(self, v):
        """The term that stands for the content of v."""
        r = []
        mentions(v, lambda x: x.op in ("rawname", "rawtext", "idname") and (r.append(x) or True))
        if not r:
            mentions(v, lambda x: x.op in ("F", "sel") and str(x.a[1]).startswith("std::pair") and str(x.a[1]).endswith("::first") and
                     (r.append(T("rawname", x)) or True))
        return r[0] if r else v

    def is_ident(self, eng, st, v):
        return eng.truth(st, T("call", "isIdent", self.core(v))) is True

    def give(self, eng, st, fr, node, v):
        loc = T("TMP", eng.fid(fr), node)
        eng.write(st, loc, v)
        return [(st, absint.addr(loc))]

    def fold(self, p):
        if p == (("op", "float"),):
            return p                # it may still be looked at
        return nixtext.fold(p)

    def tx(self, p):
        return T("tx", *p)

    def content(self, eng, st, fr, node, n, v):
        """A call that gives content as an object or a reference to one."""
        if n.get("lv"):
            loc = T("D", v)
            return [(st, absint.addr(loc))]
        return self.give(eng, st, fr, node, v)

    def obj_class(self, fr, n):
        """The static class of the object a member function is called on."""
        fn = fr.fn
        i = n["ch"][0] if n.get("ch") else -1
        while i >= 0:
            m = fn.nodes[i]
            if m["k"] in ("MemberExpr", "ImplicitCastExpr", "ParenExpr") and m.get("ch"):
                if m["k"] == "ImplicitCastExpr" and m.get("ck") not in ("UncheckedDerivedToBase", "DerivedToBase", "NoOp"):
                    break
                i = m["ch"][0]
                continue
            break
        if i < 0:
            return None
        ty = fn.type_of(i)
        p = ty.get("pointee") or ty.get("ptr")
        return ty.get("rec") or (p.get("rec") if isinstance(p, dict) else None) or str(ty.get("s", "")).replace("const ", "").strip(" *&")

    def node_this(self, eng, st, fr, n, this):
        if mentions(this, lambda x: x.op == "selbase"):
            return "atom"
        k = node_kind(self.obj_class(fr, n) or n.get("cls") or "")
        if k == "expr":
            # what is known about its kind
            base = {this, deref(this) if this.op == "&" else absint.addr(this)}
            base |= {T("obj", t) for t in base}
            x = eng.read(st, deref(this)) if this.op == "&" else this
            base |= {x, x.a[0]} if x.op == "obj" else {x}
            for f, d in st.facts.items():
                if f[0] == "dom" and d[0] == "in" and d[1] <= self.operands and isinstance(f[1], absint.Term):
                    g = f[1]
                    if g.op == "call" and g.a[0] == "kind" and g.a[1] in base or g.op == "F" and str(g.a[1]).endswith("::Kind") and g.a[0] in base \
                            or g.op == "sel" and str(g.a[1]).endswith("::Kind") and g.a[0] in base:
                        # "a.b or c" is no operand
                        if not d[1] & self.selects or any(k[0] == "nn" and v is False and isinstance(k[1], absint.Term) and k[1].op in ("F", "sel")
                                                          and str(k[1].a[1]).startswith("nixf::ExprSelect::") for k, v in st.facts.items()):
                            return "atom"
        return k

    # -- calls -------------------------------------------------------------------
    def recursive(self, fr, n):
        f = n.get("fn")
        while fr is not None:
            if fr.fn.id == f or fr.fn.q == n.get("q"):
                return True
            fr = fr.parent
        return False

    def on_call(self, eng, st, fr, node, n, this, args):
        q, fnm, op, cls = n.get("q", ""), n.get("fnm"), n.get("op"), n.get("cls") or ""
        if q in LOG:
            return [(st, None)]
        val = lambda a: eng.rv(fr, st, a)
        real = [a for a in args if a >= 0 and fr.fn.nodes[a]["k"] != "CXXDefaultArgExpr" and
                "allocator" not in str(fr.fn.type_of(a).get("rec"))]
        ctor = n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr")
        # where pieces come from
        if fnm == "staticName":
            return self.content(eng, st, fr, node, n, T("rawname", this))
        if fnm == "name" and cls == "nixf::Identifier":
            return self.content(eng, st, fr, node, n, T("idname", this))
        if fnm == "escaped":
            return self.content(eng, st, fr, node, n, T("rawtext", this))
        if cls == "llvm::json::ObjectKey" and this is not None and (fnm in ("str", "operator StringRef") or n.get("conv")):
            return self.content(eng, st, fr, node, n, T("rawname", T("call", "key", this)))
        if fnm == "getAsString" and this is not None:
            return self.give(eng, st, fr, node, T("rawtext", this))
        if op == "*" and n["k"] == "CXXOperatorCallExpr" and fr.fn.type_of(node).get("rec") == "std::basic_string":
            it = this if this is not None else eng.val(fr, st, args[0])
            return self.content(eng, st, fr, node, n, T("idname", eng.read(st, deref(it)) if it.op == "&" else it))
        if fnm == "expr" and cls == "nixf::ExprSelect":
            return [(st, absint.addr(T("D", T("selbase", this))))]
        if fnm == "src" and cls.startswith("nixf::") and this is not None:
            return self.give(eng, st, fr, node, self.tx((("op", self.node_this(eng, st, fr, n, this)),)))
        if fnm in ("lCur", "rCur", "range") and cls.startswith("nixf::") and this is not None:
            x = eng.read(st, deref(this))
            if cls == "nixf::LexerCursorRange":
                r = T("rng", fnm, x.a[1], x.a[2]) if x.op == "rng" else T("rng", fnm, "any", x)
            else:
                r = T("rng", fnm, self.node_this(eng, st, fr, n, this), this)
            return self.content(eng, st, fr, node, n, r)
        if fnm == "offset" and this is not None and cls == "nixf::LexerCursor":
            x = eng.read(st, deref(this))
            if x.op == "obj":
                x = x.a[0]
            if x.op == "rng":
                return [(st, T("off", x))]
        if fnm == "toLSPRange":
            r = []
            for a in real:
                mentions(self.deep(eng, st, val(a)), lambda x: x.op == "rng" and (r.append(x) or True))
            return self.give(eng, st, fr, node, T("edit", r[0].a[1] if r and r[0].a[0] == "range" else "any"))
        if fnm == "toLSPPosition":
            # a place before or after a formal argument
            r = []
            for a in real:
                mentions(self.deep(eng, st, val(a)), lambda x: x.op == "rng" and (r.append(x) or True))
            if r and r[0].a[1] == "formal" and r[0].a[0] in ("lCur", "rCur"):
                return self.give(eng, st, fr, node, T("edit", "formal" + r[0].a[0]))
        if fnm in ("generateFilename", "makeUniqueFilename", "stripFileScheme"):
            return self.give(eng, st, fr, node, T("filename", fnm))
        if fnm in ESCAPE and real:
            v = self.deep(eng, st, val(real[0]))
            k = ESCAPE[fnm]
            return self.give(eng, st, fr, node, self.tx((("op", "escname" if k == "esc" and self.raw(v) == "name" else k),)))
        if fnm == "isValidNixIdentifier" and real:
            v = self.core(self.deep(eng, st, val(real[0])))
            return [(st, C(1) if v.op == "idname" else T("call", "isIdent", v))]
        if fnm in ("to_string", "itostr", "utostr") and real:
            lo, _ = eng.bounds(st, val(real[0]))
            return self.give(eng, st, fr, node, self.tx((("op", "nat" if fnm == "utostr" or lo is not None and lo >= 0 else "num"),)))
        if n["k"] in ("CallExpr", "CXXMemberCallExpr") and (q in self.summary or self.recursive(fr, n)):
            return self.recursion(eng, st, fr, node, n, args)
        # the same name
        if op in ("==", "!=") and len(([] if this is None else [this]) + list(args)) == 2 and not cls.startswith("llvm::Expected"):
            a = [self.deep(eng, st, x if isinstance(x, absint.Term) else val(x)) for x in ([this] if this is not None else []) + list(args)]
            cs = [self.core(x) for x in a]
            if any(x.op in ("rawname", "idname") for x in cs):
                t = T("same", *cs)
                return [(st, t if op == "==" else T("not", t))]
        # slices of the source
        if cls in STR and this is not None and fnm in ("slice", "substr") and len(real) >= 1:
            x = self.text(eng, st, eng.read(st, deref(this)))
            a, b = val(real[0]), val(real[1]) if len(real) > 1 else None
            k = self.slice(eng, a, b, fnm)
            return self.give(eng, st, fr, node, self.tx((("op", k),)))
        # building
        if ctor and cls in STR:
            if not real:
                return self.give(eng, st, fr, node, self.tx(()))
            v = val(real[0])
            if fr.fn.type_of(real[0]).get("int"):
                c = val(real[1]) if len(real) > 1 else None
                if c is not None and c == C(32):
                    return self.give(eng, st, fr, node, self.tx((("lit", " "),)))
                return self.give(eng, st, fr, node, self.tx((("op", "any"),)))
            v = self.deep(eng, st, v)
            if self.raw(v) or v.op in ("idname", "filename"):
                return self.give(eng, st, fr, node, self.core(v))
            p = self.text(eng, st, v)
            return self.give(eng, st, fr, node, self.tx(p if p is not None else (("op", "any"),)))
        if ctor and cls in STREAM:
            if real and cls.startswith("llvm::"):
                return self.give(eng, st, fr, node, T("mem", deref(eng.val(fr, st, real[0]))))
            return self.give(eng, st, fr, node, self.tx(()))
        dst = src = None
        if op == "<<" and args:
            dst, src = (this, args[-1]) if this is not None else (eng.val(fr, st, args[0]), args[1])
        elif this is None and op == "+=" and len(args) == 2 and fr.fn.type_of(args[0]).get("rec") in STR:
            dst, src = eng.val(fr, st, args[0]), args[1]
        elif this is not None and cls in OUT and (op == "+=" or fnm in ("append", "push_back", "write", "put")) and real:
            dst, src = this, real[0]
        if dst is not None:
            l = self.target(eng, st, dst)
            if l is None:
                return None
            old = self.text(eng, st, eng.read(st, l)) if eng.read(st, l).op == "tx" else None
            if old is None:
                return None
            p = self.piece(eng, st, fr, src)
            if len(real) > 1 and this is not None and op is None and fnm == "append" and fr.fn.type_of(real[0]).get("int"):
                p = self.piece(eng, st, fr, real[1])
            eng.write(st, l, self.tx(self.fold(old + p)))
            return [(st, dst if fnm not in ("push_back",) else None)]
        if this is not None and cls in OUT:
            l = self.target(eng, st, this)
            x = eng.read(st, l) if l is not None else None
            if x is not None and (x.op == "tx" or self.raw(x)):
                if fnm in ("reserve", "shrink_to_fit", "flush"):
                    return [(st, None)]
                if fnm == "clear" and x.op == "tx":
                    eng.write(st, l, self.tx(()))
                    return [(st, None)]
                if fnm in ("str", "c_str", "data") and cls in STREAM:
                    return self.give(eng, st, fr, node, x)
                if fnm == "assign" and real:
                    eng.write(st, l, self.tx(self.piece(eng, st, fr, real[0])))
                    return [(st, this)]
                if fnm == "empty" and x.op == "tx":
                    S = x.a
                    if S == ():
                        return [(st, C(1))]
                    if S[0][0] != "st" or S[0][1][0] in ("bad", "unk") or nixtext.whole(S[0][1]) != "":
                        return [(st, C(0))]
                    return [(st, T("call", "empty", x))]
                if fnm == "operator=" or op == "=":
                    v = self.deep(eng, st, val(real[0]))
                    eng.write(st, l, self.core(v) if self.raw(v) or v.op == "idname" else self.tx(self.piece(eng, st, fr, real[0])))
                    return [(st, this)]
                if fnm in ("front", "starts_with", "startswith") or op == "[]" and val(real[0]) == C(0) or fnm == "at" and val(real[0]) == C(0):
                    # a number is negative when it starts with a minus
                    pre = None
                    if fnm and fnm.startswith("starts"):
                        s = self.text(eng, st, val(real[0]))
                        pre = s[0][1] if s and s[0][0] == "lit" else ""
                    give = lambda s, c: (s, C(int(chr(c) == pre)) if pre is not None else self.as_byte(eng, s, fr, node, n, C(c)))
                    if x.op == "tx" and x.a == (("op", "num"),) and pre in (None, "-"):
                        s2 = st.clone()
                        eng.write(s2, l, self.tx((("op", "nat"),)))
                        return [give(st, 45), give(s2, 48)]
                    v = eng.fresh(st, fr, node)
                    return [(st, v if pre is not None else self.as_byte(eng, st, fr, node, n, v))]
                if x.op == "tx" and x.a == (("op", "float"),) and real:
                    # 1e+20 is no number, 1.0e+20 is one
                    t = self.text(eng, st, val(real[0])) or self.text(eng, st, val(real[-1]))
                    dot = fnm in ("find", "contains", "find_first_of") and t and t[0][0] == "lit" and "." in t[0][1]
                    if dot:
                        s2 = st.clone()
                        eng.write(s2, l, self.tx((("op", "num"),)))
                        yes, no = (C(1), C(0)) if fnm == "contains" else (C(1), C(-1))
                        return [(s2, yes), (st, no)]
                    if fnm in ("insert", "replace"):
                        eng.write(st, l, self.tx((("op", "num"),)))
                        return [(st, this)]
                if fnm in ("insert", "replace", "erase", "pop_back", "resize"):
                    eng.write(st, l, self.tx((("st", ("unk",)),)))
                    return [(st, this)]
        if op == "=" and this is not None and cls in STR and real:
            l = self.target(eng, st, this)
            if l is not None:
                v = self.deep(eng, st, val(real[0]))
                eng.write(st, l, self.core(v) if self.raw(v) or v.op == "idname" else self.tx(self.piece(eng, st, fr, real[0])))
                return [(st, this)]
        if op == "+" and str(fr.fn.type_of(node).get("rec")) in STR:
            p = ()
            for x in ([this] if this is not None else []) + list(args):
                p += self.piece(eng, st, fr, x) if isinstance(x, int) else self.text(eng, st, x) or (("op", "any"),)
            return self.give(eng, st, fr, node, self.tx(p))
        if this is not None and cls in STR and (fnm in ("str", "operator StringRef", "operator basic_string_view") or n.get("conv")):
            v = self.deep(eng, st, this)
            if v.op == "tx" or self.raw(v) or v.op in ("idname", "filename"):
                return self.give(eng, st, fr, node, v if v.op == "tx" else self.core(v))
        return None

    def as_byte(self, eng, st, fr, node, n, v):
        if n.get("lv"):
            loc = T("TMP", eng.fid(fr), node)
            eng.write(st, loc, v)
            return absint.addr(loc)
        return v

    def deep(self, eng, st, v, d=0):
        """v with what it points to or was made from."""
        if d > 8 or not isinstance(v, absint.Term):
            return v
        if v.op == "&":
            x = eng.read(st, deref(v))
            return self.deep(eng, st, x, d + 1) if x.op not in ("undef",) else v
        if v.op == "obj":
            if isinstance(v.a[0], absint.Term) and v.a[0].op in ("rawname", "rawtext", "idname", "filename", "tx"):
                return v.a[0]
            return v
        if v.op == "mk" and len(v.a) > 1 and isinstance(v.a[1], absint.Term):
            return self.deep(eng, st, v.a[1], d + 1)
        if v.op == "param":
            x = st.env.get(T("D", v))
            return x if x is not None else v
        return v

    def target(self, eng, st, dst):
        l = deref(dst)
        for _ in range(4):
            x = eng.read(st, l)
            if x.op == "mem":
                l = x.a[0]
            elif x.op == "&":
                l = deref(x)
            else:
                break
        return l

    def piece(self, eng, st, fr, a):
        v = eng.rv(fr, st, a)
        ty = fr.fn.type_of(a)
        if "setprecision" in str(ty.get("s")) or "_Set" in str(ty.get("s")) or ty.get("fn") or "ios_base" in str(ty.get("s")):
            return ()
        x = self.deep(eng, st, v)
        if str(ty.get("s", "")).replace("const ", "").strip() in ("double", "float", "long double"):
            return (("op", "float"),)
        if ty.get("int") and ty["int"] > 8:
            lo, _ = eng.bounds(st, v)
            return (("op", "nat" if lo is not None and lo >= 0 or ty.get("unsigned") else "num"),)
        p = self.text(eng, st, x)
        if p is not None and len(p) == 1 and p[0] == ("op", "any"):
            p2 = self.text(eng, st, v)
            p = p2 if p2 is not None else p
        return p if p is not None else (("op", "any"),)

    def slice(self, eng, a, b, fnm):
        lin, c = eng.linear(a)
        offs = [t for t in lin if t.op == "off"]
        if len(offs) != 1 or c != 0 or offs[0].a[0].a[0] != "lCur":
            return "any"
        first = offs[0].a[0]
        if b is None:
            return "any"
        lin, c = eng.linear(b if fnm == "slice" else eng.arith("+", a, b))
        ends = [t for t in lin if lin[t] == 1]
        if len(ends) != 1 or ends[0].op != "off" or ends[0].a[0].a[0] != "rCur":
            return "any"
        last = ends[0].a[0]
        if first.a[1:] == last.a[1:] or last.a[1] == first.a[1] == "path":
            return first.a[1]
        return "any"

    def recursion(self, eng, st, fr, node, n, args):
        ty = fr.fn.type_of(node)
        if str(ty.get("rec")) == "std::basic_string":
            k = self.summary.get(n.get("q")) or "any"
            out = []
            s = st.clone()
            out += self.give(eng, s, fr, node, self.tx(()))
            out += self.give(eng, st, fr, node, self.tx((("op", k),)))
            return out
        for a in args:
            if fr.fn.nodes[a].get("lv"):
                v = eng.val(fr, st, a)
                if v.op == "&":
                    l = self.target(eng, st, v)
                    x = eng.read(st, l)
                    if x.op == "tx":
                        k = self.summary.get(n.get("q")) or "any"
                        eng.write(st, l, self.tx(self.fold(x.a + (("op", k),))))
        return [(st, None if ty.get("void") else eng.fresh(st, fr, node))]

    # -- refinement ----------------------------------------------------------------
    def on_assume(self, eng, st, fr, cond, truth):
        t, tr = cond, truth
        if t is None:
            return True
        while t.op == "not":
            t, tr = t.a[0], not tr
        if t.op == "cmp" and all(isinstance(x, absint.Term) and x.op == "off" for x in t.a[1:3]):
            # a path does not end before a part of it begins
            r, l = (x.a[0] for x in t.a[1:3])
            op = t.a[0]
            if r.a[0] == "lCur" and l.a[0] == "rCur":
                r, l, op = l, r, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if r.a[0] == "rCur" and l.a[0] == "lCur" and r.a[1] == l.a[1] == "path" and (op, tr) in (("<", True), (">=", False)):
                return False
        if t.op == "same" and tr:
            ids = [x for x in t.a if x.op == "idname"]
            if ids:
                for x in t.a:
                    if x.op == "rawname":
                        st.facts[("nn", T("call", "isIdent", x))] = True
        return True

    # -- texts are kept apart over joins and loops -----------------------------------
    def texts(self, st):
        return frozenset((k, v) for k, v in st.env.items() if v.op == "tx" and k.op in ("V", "D"))

    def on_loop_pre(self, eng, st, fr, head, first):
        st.ts["keep"] = self.texts(st)

    def on_loophead(self, eng, st, fr, head, first):
        for k, v in st.ts.pop("keep", ()):
            if k in st.env or k.op == "D":
                st.env[k] = v

    def on_edge(self, eng, st, fr, src, dst):
        st.ts["tx"] = self.texts(st)

    # -- edits -------------------------------------------------------------------------
    def on_element(self, eng, st, fr, node, n):
        if n["k"] == "InitListExpr" and fr.fn.type_of(node).get("rec") == "lspserver::TextEdit":
            ch = n["ch"]
            if len(ch) >= 2:
                self.sink(eng, st, fr, node, eng.val(fr, st, ch[1]), eng.val(fr, st, ch[0]))

    def on_assign(self, eng, st, fr, node, loc, val):
        if loc.op == "F" and loc.a[1] == "lspserver::TextEdit::newText":
            self.sink(eng, st, fr, node, val, None)

    def sink(self, eng, st, fr, node, v, rng):
        v = self.deep(eng, st, v)
        p = self.text(eng, st, v)
        self.sinks += 1
        f = fr
        while f.parent is not None and f.fn.n == "createSingleEditAction":
            node, f = f.node, f.parent
        where = (f.fn, f.fn.nodes[node].get("l", f.fn.l) if isinstance(node, int) and node < len(f.fn.nodes) else f.fn.l)
        if p is None:
            self.unknown += 1
            return
        S = nixtext.read(p)
        m = nixtext.final(S)
        if m:
            self.fail(where, m)
            return
        if S[0] == "unk":
            self.unknown += 1
            return
        k = "any"
        if rng is not None:
            r = []
            mentions(self.deep(eng, st, rng), lambda x: x.op == "edit" and (r.append(x.a[0]) or True))
            if not r:
                l = deref(rng) if rng.op == "&" else rng
                mentions(eng.read(st, T("F", l, "lspserver::Range::start")), lambda x: x.op == "edit" and (r.append(x.a[0]) or True))
            k = r[0] if r else "any"
        s = S[0][0][1]
        if k == "bind" and s not in ("B", "E0") or k in ("expr", "atom") and s in ("B", "E0", "TF", "TFI") or k == "path" and s not in ("P", "Pq"):
            self.fail(where, {"bind": "a binding is replaced by something else than bindings",
                              "path": "a name is replaced by something else than a name"}.get(k, "an expression is replaced by something else than one"))

        if k == "formallCur" and s != "TF" or k == "formalrCur" and s != "TFI":
            self.fail(where, "a formal argument is written next to another one without a comma between them")

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        rv = st.env.get(T("RET", eng.fid(fr)))
        got = [self.deep(eng, st, rv)] if rv is not None else []
        got += [eng.read(st, l) for l in self.outs]
        for x in got:
            if x.op == "tx":
                S = nixtext.read(x.a)
                self.returned.add(S if S[0] in ("bad", "unk") else nixtext.whole(S))
                m = nixtext.final(S)
                if m:
                    self.fail((self.fn, self.fn.l), m)

    outs = ()

    def own(self, eng, st, fr):
        """Start with empty texts in the parameters that texts are added to."""
        f = self.fn
        self.outs = []
        for i, d in enumerate(f.params):
            ty = f.types[f.decls[d]["t"]]
            if ty.get("ref") and "const" not in str(ty.get("s")).split("basic_string")[0] and "basic_string<" in str(ty.get("s")):
                l = T("D", T("param", f.id, i))
                st.env[l] = self.tx(())
                self.outs.append(l)


# -- functions over bytes ---------------------------------------------------------------
SPECIAL = "\"\\${}'\n\r\tnrt a"
FIRST = frozenset(map(ord, "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))
REST = FIRST | frozenset(map(ord, "0123456789'-"))
KEYWORDS = ("if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or")


def ascii(p):
    return lambda b: b < 128 and p(chr(b))


CTYPE = {"isalnum": ascii(str.isalnum), "isAlnum": ascii(str.isalnum), "isalpha": ascii(str.isalpha), "isAlpha": ascii(str.isalpha),
         "isdigit": ascii(str.isdigit), "isDigit": ascii(str.isdigit), "islower": ascii(str.islower), "isupper": ascii(str.isupper),
         "isspace": ascii(lambda c: c in " \t\n\v\f\r"), "isSpace": ascii(lambda c: c in " \t\n\v\f\r"),
         "isprint": lambda b: 32 <= b < 127, "isPrint": lambda b: 32 <= b < 127,
         "isLower": ascii(str.islower), "isUpper": ascii(str.isupper),
         "ispunct": lambda b: 32 < b < 127 and not chr(b).isalnum(), "isPunct": lambda b: 32 < b < 127 and not chr(b).isalnum()}


class Bytes(Text):
    """Reads of the bytes of the parameter by index; other strings as in Text."""
    opaque = frozenset()
    max_states = 20000

    def is_input(self, eng, st, v):
        if v.op == "&":
            v = eng.read(st, deref(v))
        return mentions(v, lambda x: x == T("param", self.fn.id, 0))

    def read_at(self, eng, st, fr, node, n, off):
        raise NotImplementedError

    def on_call(self, eng, st, fr, node, n, this, args):
        fnm, op, cls = n.get("fnm"), n.get("op"), n.get("cls") or ""
        if this is not None and cls in STR and self.is_input(eng, st, this) and not (
                n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr")):
            if fnm in ("size", "length"):
                return [(st, T("call", "size", T("in")))]
            if fnm == "empty":
                return [(st, T("cmp", "==", T("call", "size", T("in")), C(0)))]
            if op == "[]" or fnm in ("at", "front"):
                return self.read_at(eng, st, fr, node, n, eng.rv(fr, st, args[0]) if fnm != "front" else C(0))
            if fnm in ("begin", "end") and fr.parent is None:
                return [(st, T("it", C(0) if fnm == "begin" else T("call", "size", T("in"))))]
        if fnm in CTYPE and this is None and args:
            v = eng.rv(fr, st, args[0])
            if v.op == "c":
                return [(st, C(int(CTYPE[fnm](v.a[0] & 255))))]
        if op in ("*", "++", "!=", "==") and (this is not None or args):
            a = [this] if this is not None else []
            a = [x if x.op != "&" else eng.read(st, deref(x)) for x in a]
            vs = a + [eng.rv(fr, st, x) for x in args]
            if vs and vs[0].op == "it":
                if op == "*" and n["k"] == "CXXOperatorCallExpr":
                    return self.read_at(eng, st, fr, node, n, vs[0].a[0])
                if op == "++" and this is not None and this.op == "&":
                    eng.write(st, deref(this), T("it", eng.arith("+", vs[0].a[0], C(1))))
                    return [(st, this)]
                if op in ("!=", "==") and len(vs) > 1 and vs[1].op == "it":
                    t = T("cmp", "==", vs[0].a[0], vs[1].a[0])
                    return [(st, t if op == "==" else T("not", t))]
        return super().on_call(eng, st, fr, node, n, this, args)

    def byte(self, eng, st, fr, node, n, b):
        return self.as_byte(eng, st, fr, node, n, C(b - 256 if b >= 128 else b))

    def step(self, eng, st, fid, head):
        """(symbol of the position at the loop head, its value now)."""
        out = []
        for loc, v in st.env.items():
            if loc.op == "V" and loc.a[0] == fid:
                h = T("lp", fid, head, loc)
                w = v.a[0] if v.op == "it" else v
                lin, c = eng.linear(w)
                if lin == {h: 1}:
                    out.append((h, c))
        return out

    def rel(self, eng, off):
        """(loop symbol or None, distance)."""
        if off.op == "c":
            return None, off.a[0]
        lin, c = eng.linear(off)
        if len(lin) == 1:
            t, m = next(iter(lin.items()))
            if m == 1 and t.op == "lp":
                return t, c
        return None


class Escaper(Bytes):
    """(byte, next byte or END) -> (bytes used, text)."""
    END = "end"

    def __init__(self, prog, fn):
        super().__init__(prog, fn, {})
        self.table, self.odd = {}, None
        self.heads = set()

    def read_at(self, eng, st, fr, node, n, off):
        r = self.rel(eng, off)
        if r is None or r[0] is None or r[1] not in (0, 1):
            self.odd = "a byte elsewhere is looked at"
            return None
        h, d = r
        got = st.ts.get("b", {})
        got = dict(got)
        if d in got:
            if got[d] == self.END:
                return []
            return [(st, self.byte(eng, st, fr, node, n, got[d]))]
        out = []
        for b in (range(1, 256) if d == 0 else sorted({ord(c) for c in SPECIAL} | {0x80})):
            s = st.clone()
            g = dict(got)
            g[d] = b
            s.ts["b"] = tuple(sorted(g.items()))
            s.ts["h"] = h
            out.append((s, self.byte(eng, s, fr, node, n, b)))
        return out

    def on_assume(self, eng, st, fr, cond, truth):
        h = st.ts.get("h")
        t, tr = cond, truth
        while t is not None and t.op == "not":
            t, tr = t.a[0], not tr
        if h is not None and t is not None and t.op == "cmp" and t.a[0] in ("==", "!="):
            size = T("call", "size", T("in"))
            lin, c = eng.linear(eng.arith("-", t.a[1], t.a[2]))
            if lin in ({h: 1, size: -1}, {h: -1, size: 1}):
                d = c if lin[h] == 1 else -c        # whether h + d is the end
                tr = tr == (t.a[0] == "==")
                nxt = dict(st.ts["b"]).get(1)
                if d == 0 and tr or d == 1 and nxt is not None and tr != (nxt == self.END):
                    return False
                if d == 1 and nxt is None and tr:
                    st.ts["b"] = tuple(sorted(dict(st.ts["b"]).items()) + [(1, self.END)])
        if h is not None and dict(st.ts.get("b", ())).get(1) is None:
            d = eng.diff_lb(st, eng.arith("+", h, C(1)), T("call", "size", T("in")))
            if d is not None and d >= 0:
                st.ts["b"] = tuple(sorted(dict(st.ts["b"]).items()) + [(1, self.END)])
        b = dict(st.ts.get("b", ())) if h is not None else {}
        if b.get(1, self.END) != self.END and 2 not in b:
            # does anything follow the two bytes?
            size, two = T("call", "size", T("in")), eng.arith("+", h, C(2))
            e = eng.cmp_truth(st, "<", two, size)
            if e is not None:
                st.ts["b"] = tuple(sorted(list(b.items()) + [(2, "more" if e else self.END)]))
        return True

    def on_loophead(self, eng, st, fr, head, first):
        keep = st.ts.pop("keep", ())
        for k, v in keep:
            if k in st.env:
                st.env[k] = self.tx(()) if fr.parent is None else v
                if first and fr.parent is None and v.a not in ((), (("st", nixtext.START),)):
                    self.odd = "something is written before the loop"
        st.ts["b"], st.ts["h"] = (), None
        if fr.parent is None:
            self.heads.add(head)

    def written(self, eng, st, fid):
        t = [v for k, v in st.env.items() if v.op == "tx" and k.op == "V" and k.a[0] == fid and v.a]
        if len(t) > 1:
            return None
        s = ""
        for p in t[0].a if t else ():
            if p[0] != "lit":
                return None
            s += p[1]
        return s

    def on_backedge(self, eng, st, fr, head):
        if fr.parent is not None:
            return
        self.row(eng, st, fr, head)

    def row(self, eng, st, fr, head):
        b = dict(st.ts.get("b", ()))
        w = self.written(eng, st, eng.fid(fr))
        k = [c for h, c in self.step(eng, st, eng.fid(fr), head) if h == st.ts.get("h")]
        if 0 not in b or w is None or len(k) != 1:
            self.odd = "a step of the loop is not understood"
            return
        key = (b[0], b.get(1)) + ((b[2],) if 2 in b else ())
        if self.table.setdefault(key, (k[0], w)) != (k[0], w):
            self.odd = "what is written depends on more than two bytes"

    def fold(self, p):
        if all(x[0] == "lit" for x in p):
            s = "".join(x[1] for x in p)
            return (("lit", s),) if s else ()
        return nixtext.fold(p)

    # what the pieces mean here: characters
    def text(self, eng, st, v, d=0):
        if v.op == "c" and isinstance(v.a[0], int):
            return (("lit", chr(v.a[0] & 255)),)
        return super().text(eng, st, v, d)

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        rv = st.env.get(T("RET", eng.fid(fr)))
        x = self.deep(eng, st, rv) if rv is not None else None
        if st.ts.get("b") and dict(st.ts["b"]).get(0) is not None:
            self.fail((self.fn, self.fn.l), "the text is not escaped to its end")
        if x is None or x.op != "tx" or x.a:
            self.odd = "the result is not the text written in the loop"

    def apply(self, s):
        out, i = [], 0
        while i < len(s):
            n = s[i + 1] if i + 1 < len(s) else self.END
            e = self.END if i + 2 >= len(s) else "more"
            r = self.table.get((s[i], n)) or self.table.get((s[i], n, e)) or self.table.get((s[i], None))
            if r is None and n != self.END:
                r = self.table.get((s[i], 0x80)) or self.table.get((s[i], 0x80, e))
            if r is None or r[0] < 1:
                return None
            out.append(r[1])
            i += r[0]
        return "".join(out)


def read_dq(t):
    """Content of the text after an opening double quote and where it ends."""
    out, i = [], 0
    while i < len(t):
        c, d = t[i], t[i + 1] if i + 1 < len(t) else ""
        if c == '"':
            return "".join(out), i
        if c == "\\":
            out.append({"n": "\n", "r": "\r", "t": "\t"}.get(d, d))
            i += 2
        elif c == "$" and d == "{":
            return "".join(out), i
        elif c == "$" and d and d not in '{"\\':
            out.append(c + d if d != "\r" else "$\n")
            i += 2
        else:
            out.append("\n" if c == "\r" else c)
            i += 1
    return "".join(out), i


def read_ind(t):
    out, i = [], 0
    while i < len(t):
        c, d, e = t[i], t[i + 1:i + 2], t[i + 2:i + 3]
        if c == "'" and d == "'":
            if e == "'":
                out.append("''")
                i += 3
            elif e == "$":
                out.append("$")
                i += 3
            elif e == "\\":
                f = t[i + 3:i + 4]
                out.append({"n": "\n", "r": "\r", "t": "\t"}.get(f, f))
                i += 4
            else:
                return "".join(out), i
        elif c == "$" and d == "{":
            return "".join(out), i
        elif c == "$" and d and d != "'" or c == "'" and d and d != "$":
            out.append(c + d)
            i += 2
        else:
            out.append(c)
            i += 1
    return "".join(out), i


def check_escaper(r, kind):
    """First text that does not read back, or None."""
    import itertools
    read, close = (read_dq, '"') if kind == "esc" else (read_ind, "''")
    abc = [ord(c) for c in "\"\\${'\n\ra"]
    n = 0

    def texts():
        for b in range(1, 256):
            yield (b,)
        for b in range(1, 256):
            for c in abc:
                yield (b, c)
                yield (c, b)
        for k in (0, 3, 4, 5):
            for t in itertools.product(abc, repeat=k):
                yield t
    for t in texts():
        if kind == "esci" and 13 in t:
            continue
        s = "".join(map(chr, t))
        w = r.apply(t)
        if w is None:
            r.odd = "a step of the loop is not understood"
            return None, n
        for after in (close, "${"):
            n += 1
            if read(w + after) != (s, len(w)):
                return (s, w + after), n
    return None, n


class Ident(Bytes):
    """Which texts are taken for identifiers."""

    def __init__(self, prog, fn):
        super().__init__(prog, fn, {})
        self.looked, self.pos = 0, {}
        self.max_states = 60
        self.words = set()
        self.some = set(map(ord, " !\"#$%&'()*+,-./059:;<=>?@AMZ[\\]^_`amz{|}~\0\t\n\r")) | {1, 31, 127, 128, 192, 255}
        for n in fn.nodes:
            if n["k"] in ("CharacterLiteral", "IntegerLiteral") and isinstance(n.get("cv"), int) and 0 <= n["cv"] < 256:
                self.some |= {max(n["cv"] - 1, 0), n["cv"], min(n["cv"] + 1, 255)}
        self.some = sorted(self.some)
        for n in fn.nodes:
            if n["k"] == "StringLiteral" and "v" in n:
                self.words.add(n["v"])

    def read_at(self, eng, st, fr, node, n, off):
        r = self.rel(eng, off)
        if r is None:
            return None
        self.looked += 1
        out = []
        w = ("at", r[0], r[1])
        if r == (None, 0) or r[0] is not None and eng.bounds(st, off)[1] == 0:
            w = ("at", None, 0)
        for b in self.some:
            ok = b in FIRST, b in REST
            if st.ts.get(w) not in (None, ok):
                continue
            s = st.clone()
            s.ts[w] = ok
            s.ts["byte"] = b
            out.append((s, self.byte(eng, s, fr, node, n, b)))
        return out

    def is_bool(self, fr, l):
        try:
            d = fr.fn.decls[l.a[1]]
            return str(fr.fn.types[d["t"]].get("s")).replace("const ", "") == "bool"
        except (KeyError, IndexError, TypeError):
            return False

    def on_loop_pre(self, eng, st, fr, head, first):
        super().on_loop_pre(eng, st, fr, head, first)
        if first and fr.parent is None:
            for loc, v in st.env.items():
                if loc.op == "V" and v.op in ("c", "it"):
                    st.ts[("entry", loc)] = v.a[0] if v.op == "c" else v.a[0].a[0] if v.a[0].op == "c" else None

    def on_loophead(self, eng, st, fr, head, first):
        super().on_loophead(eng, st, fr, head, first)
        st.ts.pop("byte", None)
        if fr.parent is None:
            st.ts["head"] = True
        for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == "at" and k[1] is not None]:
            del st.ts[k]

    def on_backedge(self, eng, st, fr, head):
        if fr.parent is not None:
            return
        where = (self.fn, self.fn.l)
        at = [(k, v) for k, v in st.ts.items() if isinstance(k, tuple) and k[0] == "at" and k[1] is not None]
        st.ts["loop"] = True
        steps = dict(self.step(eng, st, eng.fid(fr), head))
        seen = False
        for (_, h, d), ok in at:
            if d != 0 or h not in steps:
                continue
            seen = True
            if steps[h] != 1:
                self.fail(where, "not every character of a name is looked at")
            e = st.ts.get(("entry", h.a[2]))
            st.ts["from"] = e
            self.pos[h] = e
            rejected = any(l.op == "V" and v == C(0) and self.is_bool(fr, l) for l, v in st.env.items())
            if not ok[1] and not rejected:
                self.fail(where, "a character that no identifier holds is accepted")
        if not seen and not any(k == ("at", None, 0) for k in st.ts):
            self.fail(where, "not every character of a name is looked at")

    def on_call(self, eng, st, fr, node, n, this, args):
        fnm, op = n.get("fnm"), n.get("op")
        if fnm in ("find", "contains", "count") and this is not None and (n.get("cls") or "") not in STR and args and \
                self.is_input(eng, st, eng.rv(fr, st, args[0])):
            m = T("call", "member")
            return [(st, T("found", "it") if fnm == "find" else m)]
        if fnm in ("end", "cend") and (n.get("cls") or "").startswith(("std::set", "std::unordered_set", "llvm::StringSet", "std::_")):
            return [(st, T("found", "end"))]
        if op in ("==", "!="):
            vs = [x if isinstance(x, absint.Term) else eng.rv(fr, st, x) for x in ([this] if this is not None else []) + list(args)]
            fl = set()
            for v in vs:
                v = eng.read(st, deref(v)) if v.op == "&" else v
                mentions(v, lambda x: x.op == "found" and fl.add(x.a[0]))
            if fl == {"it", "end"}:
                m = T("call", "member")
                return [(st, T("not", m) if op == "==" else m)]
        return super().on_call(eng, st, fr, node, n, this, args)

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        where = (self.fn, self.fn.l)
        v = st.env.get(T("RET", eng.fid(fr)))
        if v is None or eng.truth(st, v) is False or not self.looked:
            return
        s = st.clone()
        if not eng.assume(s, v, True):
            return
        if not st.ts.get("loop") and st.ts.get(("at", None, 0)) is None and st.ts.get("from") is None:
            _, hi = eng.bounds(s, T("call", "size", T("in")))
            if hi == 0 or not self.is_loop:
                self.fail(where, "the empty name is taken for an identifier")
        f = st.ts.get(("at", None, 0))
        if st.ts.get("head") and self.pos:
            size = T("call", "size", T("in"))
            if not any((eng.diff_lb(s, h, size) or 0) >= 0 and eng.diff_lb(s, h, size) is not None for h in self.pos):
                self.fail(where, "not every character of a name is looked at")
            if all(isinstance(e, int) and e > 1 for e in self.pos.values()):
                self.fail(where, "not every character of a name is looked at")
        if f is not None and not f[0]:
            self.fail(where, "a name that starts like no identifier is taken for one")
        if f is None and st.ts.get("loop"):
            self.fail(where, "a name that starts like no identifier is taken for one")
        if eng.truth(s, T("call", "member")) is not False:
            self.fail(where, "a keyword is taken for an identifier")
        else:
            miss = [w for w in KEYWORDS if w not in self.words]
            if miss:
                self.fail(where, "a keyword is taken for an identifier")

    is_loop = True


def builders(prog):
    return [f for f in sorted(prog.fns.values(), key=lambda f: f.id)
            if f.cfg and "/CodeActions/" in f.file and not f.d.get("lambda")]


def run(chk):
    prog = load_prog(["actions"])
    fns = builders(prog)
    if not fns:
        raise AnalysisBroken("no code action was found")
    # functions that call themselves and give a text: what kind of text, each complete in itself
    summary = {}
    rec = [f for f in fns if any(n.get("q") == f.q and n["k"] in ("CallExpr", "CXXMemberCallExpr") for n in f.nodes)]
    for last in (False, True):
        for f in rec:
            r = Text(prog, f, dict(summary))
            e = Engine(prog, r)
            e.run_root(f, r.own)
            ks = {k for k in r.returned if isinstance(k, str) and k}
            if not r.returned:
                continue
            summary[f.q] = ks.pop() if len(ks) == 1 else "expr" if "expr" in ks else "num" if "num" in ks else "any"
            if last:
                report(chk, r, f, "texts of recursive builders")
    sinks = unknown = 0
    for f in fns:
        if not any("CodeAction" in f.types[f.decls[d]["t"]].get("s", "") for d in f.params):
            continue
        r = Text(prog, f, summary)
        Engine(prog, r).run_root(f)
        sinks += r.sinks
        unknown += r.unknown
        report(chk, r, f, "texts of edits")
    for f in fns:
        if f.n in ESCAPE:
            r = Escaper(prog, f)
            Engine(prog, r).run_root(f)
            if r.odd or not r.table:
                chk.count("escaping not decided")
                continue
            t, n = check_escaper(r, ESCAPE[f.n])
            chk.count("texts per table of escapes", n)
            if r.odd:
                chk.count("escaping not decided")
                continue
            if t:
                r.fail((f, f.l), "text is written so that it reads back as something else: %r becomes %r" % t)
            report(chk, r, f, "escaping")
        elif f.n == "isValidNixIdentifier":
            r = Ident(prog, f)
            Engine(prog, r).run_root(f)
            report(chk, r, f, "identifiers")
    if not sinks:
        raise AnalysisBroken("no text of an edit was found")
    chk.count("texts of edits", sinks)
    chk.count("texts of unknown shape", unknown)

