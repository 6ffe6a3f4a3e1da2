"""P17: messages are read and written field for field.

Every fromJSON and toJSON is interpreted on all its paths.  Reading: which key
of the message ends in which field, what happens when it is missing or broken,
and whether an object is looked into before it is known to be one.  Writing:
which key holds which field, and that it is left out only when the field is
unset.  Both are compared with the table of the protocol in wire.py, and with
each other; numbers and words of enumerations with the tables there."""
import absint
import wire
from absint import T, C, Engine, deref, addr
from check import load_prog
from facts import AnalysisBroken
from p12 import mentions, report, value_arg
from p14 import Base

EXPLANATION = __doc__
ASSUMPTIONS = ["llvm::json parses and prints values, and maps vectors, maps and optionals, as documented"]
OBJ, VAL = "llvm::json::Object", "llvm::json::Value"
GET = {"get", "getString", "getObject", "getArray", "getInteger", "getBoolean", "getNumber"}
AS = {"getAsString", "getAsInteger", "getAsBoolean", "getAsNumber", "getAsUINT64"}


def is_json(ty, what=VAL):
    return str(ty.get("s", "")).replace("const ", "").rstrip("& ") in (what, what.replace("llvm::", ""))


class Messages(Base):
    max_states = 4000
    max_inline_blocks = 300
    max_depth = 6

    def __init__(self, prog, fn, me):
        super().__init__(prog)
        self.fn, self.me = fn, me
        self.ty = plain(me_of(fn)[1])
        self.p = T("param", fn.id, me)
        self.same = None
        self.frames = {}
        self.cut = frozenset()

    def inline(self, eng, fr, fn):
        if fn.n in ("fromJSON", "toJSON"):
            return self.same == fn.id
        return super().inline(eng, fr, fn)

    def key(self, eng, fr, st, a):
        v = eng.rv(fr, st, a)
        for _ in range(4):
            if v.op == "&":
                v = eng.read(st, deref(v))
        return value_arg(v)

    def give(self, eng, st, fr, node, n, v):
        """v as the value of a call, whatever its type."""
        ty = fr.fn.type_of(node)
        if n.get("lv") or n.get("xv") or not ty.get("ptr") and (eng.is_class(ty) or ty.get("rec")):
            loc = T("TMP", eng.fid(fr), node)
            eng.drop_overlay(st, loc)
            eng.write(st, loc, v)
            return [(st, addr(loc))]
        return [(st, v)]

    def fields(self, eng, st, v, depth=0):
        """Fields of the message that a value comes from."""
        out = set()
        self._fields(eng, st, v, out, set(), 0)
        return out

    def _fields(self, eng, st, t, out, seen, d_):
        if not isinstance(t, absint.Term):
            if isinstance(t, tuple):
                for x in t:
                    self._fields(eng, st, x, out, seen, d_)
            return
        if t in seen or d_ > 24:
            return
        seen.add(t)
        if t.op in ("F", "sel"):
            chain, x = [], t
            while isinstance(x, absint.Term) and x.op in ("F", "sel", "obj", "D", "ver", "&"):
                if x.op in ("F", "sel"):
                    chain.append(x.a[1])
                x = x.a[0]
            if x is self.p and chain:
                out.add(".".join(str(c).rsplit("::", 1)[-1] for c in reversed(chain)))
                return
        for x in self.origins(st, t):
            self._fields(eng, st, x, out, seen, d_ + 1)
        got = st.ts.get(("into", t))
        if got:
            out |= got
        if t.op in ("V", "TMP", "F") and t in st.env:
            self._fields(eng, st, st.env[t], out, seen, d_ + 1)
        if t.op in ("V", "TMP"):
            for k, v in st.env.items():
                if k.op == "F" and self.base(k) is t:
                    self._fields(eng, st, v, out, seen, d_ + 1)
        for a in t.a:
            self._fields(eng, st, a, out, seen, d_ + 1)

    def origins(self, st, t):
        """What an iterator was made for."""
        v = t.a[2] if t.op == "lp" and len(t.a) > 2 else None
        if isinstance(v, absint.Term) and v.op == "V" and v.a[0] in self.frames:
            fn = self.frames[v.a[0]].fn
            for n in fn.nodes:
                for x in (n or {}).get("vars", ()) if n and n["k"] == "DeclStmt" else ():
                    if x["d"] == v.a[1] and x.get("init", -1) >= 0:
                        for d in self.refs(fn, x["init"]):
                            y = st.env.get(T("V", v.a[0], d))
                            if y is not None:
                                yield y

    @staticmethod
    def refs(fn, i):
        out, w = set(), [i]
        while w:
            n = fn.nodes[w.pop()]
            if n and n["k"] == "DeclRefExpr":
                out.add(n["d"])
            w += [c for c in (n or {}).get("ch", ()) if c >= 0]
        return out

    @staticmethod
    def base(k):
        while k.op in ("F", "E"):
            k = k.a[0]
        return k


class Writing(Messages):
    """toJSON: which keys are written from which fields."""

    def put(self, eng, st, fr, obj, key, val):
        fs = frozenset(self.fields(eng, st, val))
        if obj is not None:
            old = st.ts.get(("into", obj), frozenset())
            st.ts[("into", obj)] = old | fs
        if key is not None:
            st.ts["puts"] = st.ts.get("puts", frozenset()) | {(key, fs, self.const(eng, st, val), self.sums(eng, st, val))}

    def sums(self, eng, st, v):
        """Arithmetic a written value went through."""
        for _ in range(4):
            if v.op == "&":
                v = eng.read(st, deref(v))
            elif v.op == "mk" and len(v.a) == 2 and isinstance(v.a[1], absint.Term):
                v = v.a[1]
        out = set()

        def look(t):
            if isinstance(t, absint.Term):
                if t.op == "ar":
                    out.add("%s%s" % (next((x.a[0] for x in t.a[1:] if x.op == "c"), ""), t.a[0]))
                for x in t.a:
                    look(x)
        look(v)
        return frozenset(out)

    def last(self, eng, st, v):
        """Field of the element of a sequence that is written."""
        for _ in range(4):
            if v.op == "&":
                v = eng.read(st, deref(v))
            elif v.op == "mk" and len(v.a) == 2 and isinstance(v.a[1], absint.Term):
                v = v.a[1]
            elif v.op in ("obj", "ver", "D") and isinstance(v.a[0], absint.Term):
                v = v.a[0]
        return str(v.a[1]).rsplit("::", 1)[-1] if v.op in ("F", "sel") else None

    def const(self, eng, st, v):
        for _ in range(4):
            if v.op == "&":
                v = eng.read(st, deref(v))
            elif v.op == "mk" and len(v.a) == 2:
                v = v.a[1]
        return v.a[0] if v.op in ("c", "str") else None

    def transparent(self, fr, node, n):
        return is_json(fr.fn.type_of(node)) or super().transparent(fr, node, n)

    def kvs(self, fn, i):
        i = fn.strip(i)
        n = fn.nodes[i]
        if n["k"] in ("CXXStdInitializerListExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups"):
            return self.kvs(fn, n["ch"][0])
        if n["k"] == "InitListExpr" and str(fn.type_of(i).get("s", "")).endswith("KV"):
            return [(n["ch"][0], n["ch"][1])] if len(n["ch"]) == 2 else None
        if n["k"] == "InitListExpr":
            out = []
            for c in n["ch"]:
                x = self.kvs(fn, c)
                if x is None:
                    return None
                out += x
            return out
        return None

    def elements(self, eng, fr, st, i):
        """Values of the elements of a braced list, or of the expression itself."""
        j = fr.fn.strip(i)
        n = fr.fn.nodes[j]
        if n["k"] in ("CXXStdInitializerListExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups"):
            return self.elements(eng, fr, st, n["ch"][0])
        if n["k"] == "InitListExpr" and not eng.is_class(fr.fn.type_of(j)):
            return [v for c in n["ch"] for v in self.elements(eng, fr, st, c)]
        return [eng.val(fr, st, i)]

    def on_call(self, eng, st, fr, node, n, this, args):
        cls, fnm = n.get("cls"), n.get("fnm")
        fn = fr.fn
        self.frames[eng.fid(fr)] = fr
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if cls == OBJ and len(args) == 1 and "initializer_list" in str(n.get("fn")):
                loc = T("TMP", eng.fid(fr), node)
                kv = self.kvs(fn, args[0])
                if kv is None:
                    raise AnalysisBroken("an object of unknown keys in %s" % fn.q)
                for k, v in kv:
                    self.put(eng, st, fr, None, self.key(eng, fr, st, k), eng.val(fr, st, v))
                return None
            if cls == VAL and len(args) == 1:
                v = eng.val(fr, st, args[0])
                loc = T("TMP", eng.fid(fr), node)
                eng.write(st, loc, T("mk", VAL, v))
                return [(st, addr(loc))]
            if cls == "llvm::json::Array" and args:
                loc = T("TMP", eng.fid(fr), node)
                eng.write(st, loc, T("mk", "array", *[v for a in args for v in self.elements(eng, fr, st, a)]))
                return [(st, addr(loc))]
            return None
        if cls == OBJ and fnm == "operator[]":
            loc = deref(this) if this is not None else None
            return [(st, addr(T("F", loc, ("key", self.key(eng, fr, st, args[-1])))))]
        if n.get("op") == "=" and this is not None and this.op == "&" and this.a[0].op == "F" and isinstance(this.a[0].a[1], tuple):
            l = this.a[0]
            self.put(eng, st, fr, l.a[0], l.a[1][1], eng.val(fr, st, args[-1]))
            return [(st, this)]
        if cls == OBJ and fnm in ("try_emplace", "insert_or_assign", "emplace") and len(args) >= 2:
            loc = deref(this) if this is not None and this.op == "&" else this
            self.put(eng, st, fr, loc, self.key(eng, fr, st, args[0]), eng.val(fr, st, args[1]))
            return None
        if cls == OBJ and fnm == "insert":
            kv = self.kvs(fn, args[0])
            if kv:
                for k, v in kv:
                    self.put(eng, st, fr, deref(this), self.key(eng, fr, st, k), eng.val(fr, st, v))
            return None
        if fnm in ("push_back", "emplace_back") and this is not None and this.op == "&":
            for a in args:
                v = eng.val(fr, st, a)
                fs = frozenset(self.fields(eng, st, v))
                k = ("into", deref(this))
                st.ts[k] = st.ts.get(k, frozenset()) | fs
                q = st.ts.get("seq", ())
                x = self.last(eng, st, v)
                if x and len(q) < 5:
                    st.ts["seq"] = q + (x,)
            return None
        if fnm == "empty" and this is not None and not args:
            return [(st, T("empty", eng.read(st, deref(this))))]
        if fnm == "toJSON" and args:
            v = eng.val(fr, st, args[0])
            x = v
            if x.op == "&":
                x = x.a[0]
            self.same = n.get("fn") if x is T("D", self.p) or v is self.p else None
            if self.same:
                return None
            return self.give(eng, st, fr, node, n, T("call", "toJSON", v))
        if fnm in ("uri", "file") and this is not None:
            return self.give(eng, st, fr, node, n, T("call", fnm, this))
        return None

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        self.paths.append((st.ts.get("puts", frozenset()), dict(st.facts), st.env.get(T("RET", eng.fid(fr))), st.ts.get("seq", ()), st, eng))


class Reading(Messages):
    """fromJSON: which field each key ends in, and what a missing or broken one does."""

    def __init__(self, prog, fn, me):
        super().__init__(prog, fn, me)
        self.j = T("param", fn.id, 0)
        self.cut = frozenset()

    def transparent(self, fr, node, n):
        return is_json(fr.fn.type_of(node)) or super().transparent(fr, node, n)

    def json(self, eng, st, v):
        """The piece of the message a value stands for."""
        for _ in range(8):
            if v.op == "&":
                v = eng.read(st, deref(v))
            elif v.op == "mk" and len(v.a) == 2 and isinstance(v.a[1], absint.Term):
                v = v.a[1]
            elif v.op in ("obj", "ver", "D") and isinstance(v.a[0], absint.Term):
                v = v.a[0]
            elif v.op == "call" and v.a[0].startswith("operator*"):
                arr = []
                for x in self.origins(st, v.a[1]):
                    mentions(x, lambda t: arr.append(t) if self.path(t) is not None else None)
                if not arr:
                    break
                v = T("item", max(arr, key=lambda t: len(self.path(t))))
            else:
                break
        return v

    def path(self, v):
        """Keys that lead to a piece of the message; None for anything else."""
        if v is self.j:
            return ()
        if v.op == "field":
            b = self.path(v.a[0])
            return None if b is None else b + (v.a[1],)
        if v.op in ("as", "item"):
            return self.path(v.a[0])
        return None

    def sources(self, v, eng=None, st=None):
        """Pieces of the message a value is made of, and the sums it went through."""
        out = set()
        seen = set()

        def look(t):
            p = self.path(t)
            if p is not None and (t.op in ("field", "item", "as") or t is self.j):
                out.add(".".join(p))
                return
            if t in seen:
                return
            seen.add(t)
            if t.op == "ar":
                out.add("a sum")
            if st is not None and t.op in ("wrap", "TMP", "V", "D"):
                x = eng.read(st, T("TMP", *t.a) if t.op == "wrap" else t)
                if x is not t:
                    look(x)
            for a in t.a:
                if isinstance(a, absint.Term):
                    look(a)
        look(v)
        return out

    def note(self, st, what, *x):
        st.ts[what] = st.ts.get(what, frozenset()) | {x}

    def on_call(self, eng, st, fr, node, n, this, args):
        cls, fnm = n.get("cls"), n.get("fnm")
        self.frames[eng.fid(fr)] = fr
        if cls == "llvm::json::Path" or cls == "llvm::json::Path::Root":
            if fnm in ("report",):
                return [(st, None)]
            return self.give(eng, st, fr, node, n, T("path")) if n["k"] != "CXXConstructExpr" else None
        if cls == "llvm::json::ObjectMapper":
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(args) == 2:
                loc = T("TMP", eng.fid(fr), node)
                eng.write(st, loc, T("mapper", self.json(eng, st, eng.val(fr, st, args[0]))))
                return [(st, addr(loc))]
            o = eng.read(st, deref(this))
            o = o if o.op == "mapper" else T("mapper", self.j)
            if fnm == "operator bool":
                return [(st, T("nonnull", T("as", o.a[0], "Object")))]
            if fnm in ("map", "mapOptional"):
                if eng.nullness(st, T("as", o.a[0], "Object")) is not True:
                    self.fail(self.here(fr, node), "reading %s: a message is looked into that need not be an object" % self.ty)
                opt = "std::optional<" in str(fr.fn.type_of(args[1]).get("s", ""))
                return self.convert(eng, st, fr, node, T("field", o.a[0], self.key(eng, fr, st, args[0])), args[1],
                                    opt or fnm == "mapOptional")
        if cls == VAL and fnm == "getAsNull" and this is not None:
            return self.give(eng, st, fr, node, n, T("as", self.json(eng, st, this), "Null"))
        if cls == VAL and (fnm in AS or fnm in ("getAsObject", "getAsArray")) and this is not None:
            return self.give(eng, st, fr, node, n, T("as", self.json(eng, st, this), fnm[5:]))
        if cls == OBJ and fnm in GET and this is not None:
            v = self.json(eng, st, this)
            if v.op == "as" and eng.nullness(st, v) is not True:
                self.fail(self.here(fr, node), "reading %s: a message is looked into that need not be an object" % self.ty)
            t = T("field", v.a[0] if v.op == "as" else v, self.key(eng, fr, st, args[0]))
            return self.give(eng, st, fr, node, n, t if fnm == "get" else T("as", t, fnm[3:]))
        if cls == "llvm::json::Array" and fnm in ("front", "back", "operator[]", "at"):
            return self.give(eng, st, fr, node, n, T("item", self.json(eng, st, this)))
        if fnm == "fromJSON" and len(args) == 3 and n["k"] == "CallExpr":
            v = self.json(eng, st, eng.val(fr, st, args[0]))
            f = self.prog.fns.get(n.get("fn"))
            d = eng.val(fr, st, args[1])
            if v is self.j and (d is self.p or d is addr(T("D", self.p))) and f is not None and f.cfg and f.id != self.fn.id:
                self.same = f.id
                return None
            self.same = None
            return self.convert(eng, st, fr, node, v, args[1], False)
        if n.get("op") == "==" and "StringRef" in str(n.get("fn")) or n.get("op") == "==" and len(args) == 2:
            a, b = (self.json(eng, st, eng.val(fr, st, x)) for x in args[:2])
            for x, y in ((a, b), (b, a)):
                s = value_arg(y)
                if s is not None and self.path(x) is not None:
                    return [(st, T("word", x, s))]
        if cls == "llvm::StringSwitch":
            return self.switch(eng, st, fr, node, n, this, args)
        if n.get("op") == "=" and len(args) <= 2 and args:
            v = self.json(eng, st, eng.val(fr, st, args[-1]))
            loc = this.a[0] if this is not None and this.op == "&" else self.place(eng, fr, st, n["ch"][1] if len(n["ch"]) > 1 else args[0])
            if self.path(v) is not None and loc is not None:
                eng.write(st, loc, T("conv", v))
                self.on_assign(eng, st, fr, node, loc, T("conv", v))
                return [(st, addr(loc))]
        if fnm == "set" and this is not None and args and "bitset" in str(cls):
            self.note(st, "set", self.json(eng, st, eng.val(fr, st, args[0])))
        return None

    def convert(self, eng, st, fr, node, src, dst, optional):
        """Outcomes of reading src into dst."""
        ok, bad = st.clone(), st.clone()
        p = self.path(src)
        k = ".".join(p) if p is not None else "?"
        loc = self.place(eng, fr, st, dst)
        if loc is not None:
            for s in (ok, bad):
                eng.drop_overlay(s, loc)
            eng.write(ok, loc, T("conv", src))
            eng.write(bad, loc, T("broken", src))
        self.note(ok, "read", k)
        self.note(bad, "failed", k)
        out = [(ok, C(1)), (bad, C(0))]
        if optional:
            miss = st.clone()
            self.note(miss, "missing", k)
            out.append((miss, C(1)))
        return out

    def place(self, eng, fr, st, i):
        """Where something is read into."""
        v = eng.val(fr, st, i)
        if v.op == "&":
            return v.a[0]
        if fr.fn.id == self.fn.id:
            w = [i]
            while w:
                n = fr.fn.nodes[w.pop()]
                if n and n["k"] == "MemberExpr" and "::" in str(fr.fn.decls[n["d"]].get("q")) and not fr.fn.decls[n["d"]].get("fn") \
                        and self.fn.params[self.me] in self.refs(fr.fn, n["ch"][0]):
                    return T("F", T("D", self.p), fr.fn.decls[n["d"]]["q"])
                w += [c for c in (n or {}).get("ch", ()) if c >= 0]
        return None

    def switch(self, eng, st, fr, node, n, this, args):
        fnm = n.get("fnm")
        loc = T("TMP", eng.fid(fr), node)
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            eng.write(st, loc, T("sw", self.json(eng, st, eng.val(fr, st, args[0])), None))
            return [(st, addr(loc))]
        cur = eng.read(st, deref(this))
        if cur.op != "sw":
            return None
        if fnm == "Case":
            if cur.a[1] is not None:
                return [(st, this)]
            v = eng.rv(fr, st, args[1])
            yes, no = st.clone(), st
            eng.write(yes, deref(this), T("sw", cur.a[0], v))
            self.note(yes, "words", cur.a[0], self.key(eng, fr, st, args[0]))
            return [(yes, this), (no, this)]
        if fnm in ("Default", "operator lspserver::OffsetEncoding") or fnm.startswith("operator"):
            return [(st, cur.a[1] if cur.a[1] is not None else eng.rv(fr, st, args[0]))]
        return None

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        self.exits += 1
        ret = st.env.get(T("RET", eng.fid(fr)))
        got = {}
        for k, v in st.env.items():
            chain, x = [], k
            while x.op == "F":
                chain.append(x.a[1])
                x = x.a[0]
            if x is T("D", self.p):
                got[str(chain[-1]).rsplit("::", 1)[-1] if chain else ""] = v
        self.paths.append((ret, got, dict(st.ts), dict(st.facts), st, eng))


def me_of(f):
    """Index of the message among the parameters of a converter, and its type."""
    if f.n == "toJSON" and len(f.params) == 1:
        i = 0
    elif f.n == "fromJSON" and len(f.params) == 3:
        i = 1
    else:
        return None
    ty = f.types[f.decls[f.params[i]]["t"]]
    return i, str(ty.get("s", "")).replace("const ", "").rstrip("& ")


def converters(prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.cfg and f.n in ("toJSON", "fromJSON") and not f.cls:
            m = me_of(f)
            if m:
                yield f, m[0], m[1]


def spec(text):
    """[(key, mode, fields, word)] of a line of the table."""
    out = []
    for w in text.split():
        key, _, rest = w.partition("=")
        mode = key[-1] if key[-1] in "?~-" else ""
        key = key.rstrip("?~-")
        word = None
        if rest.startswith("'"):
            word, fields = rest.strip("'"), ()
        else:
            fields = tuple(rest.split("+")) if rest else (key,)
        out.append(("" if key == "." else key, mode, fields, word))
    return out


def false(ret):
    return ret is not None and ret.op == "c" and not ret.a[0]


def where(f):
    return (f, f.l)


def read_rule(r, f, ty, table):
    want = {k: (m, fs) for k, m, fs, _ in table}
    owner = {}
    for k, (m, fs) in want.items():
        for x in fs:
            owner[x] = k
    stored, missing, nulls = set(), set(), set()

    def fail(msg):
        r.fail(where(f), "reading %s: %s" % (ty, msg))
    for ret, got, ts, fa, st, eng in r.paths:
        read, failed, miss = ({x[0] for x in ts.get(k, ())} for k in ("read", "failed", "missing"))
        for k in read | failed | miss:
            if k not in want:
                fail("the member '%s' is none of the message" % k)
        vals = {}
        for x, v in got.items():
            src = r.sources(v, eng, st) if v.op != "broken" else set()
            vals[x] = src
            for k in sorted(src):
                if owner.get(x) != k:
                    fail("the field %s is set from %s" % (x, k if k == "a sum" else "the member '%s'" % k))
                else:
                    stored.add((k, x))
            if v.op == "undef":
                fail("the field %s is set from something indeterminate" % x)
        if ret is None:
            continue
        if false(ret):
            if not failed and not any(refusal(r, t, v) for t, v in fa.items()):
                fail("a message is refused that has all its members")
            continue
        nulls |= {".".join(r.path(t[1])) for t, v in fa.items() if t[0] == "nn" and v is True and t[1].op == "as" and t[1].a[1] == "Null"
                  and r.path(t[1])}
        for k in sorted(failed):
            if want.get(k, ("~",))[0] != "~":
                fail("a message is taken although its member '%s' is broken" % k)
        for k, (m, fs) in want.items():
            if m == "" and k not in read and not any(k in v for v in vals.values()):
                fail("a message is taken without its member '%s'" % k)
            if k not in read:
                missing.add(k)
            else:
                if not any(k in vals.get(x, ()) for x in fs):
                    fail("the member '%s' is read and does not end in the field %s" % (k, fs[0]))
    for k, (m, fs) in want.items():
        for x in fs:
            if (k, x) not in stored:
                fail("the member '%s' never ends in the field %s" % (k, x))
        if m and k not in missing:
            fail("a message without the member '%s' is refused" % k)
        if m == "-" and k not in nulls:
            fail("a message whose member '%s' is null is refused" % k)


def refusal(r, t, v):
    """A fact about the message that makes it unfit."""
    if not isinstance(t, tuple) or not mentions(t[1], lambda x: x is r.j):
        return False
    return t[0] == "nn" and v is False or t[0] in ("lo", "hi", "dom")


def on(r, eng, st, t, x):
    return any(f == x or f.startswith(x + ".") for f in r.fields(eng, st, t))


def unset(r, fa, x, eng, st):
    """Whether the facts of a path say that a field is unset."""
    for t, v in fa.items():
        if not isinstance(t, tuple) or t[0] not in ("nn", "dom", "diff", "hi"):
            continue
        if not on(r, eng, st, t[1], x):
            continue
        if t[0] == "diff":
            if v == 0:
                return True
            continue
        inv = mentions(t[1], lambda y: y.op == "empty" or y.op == "call" and y.a[0] == "getAsNull")
        if t[0] == "nn" and v is inv or t[0] == "hi" and v <= 0:
            return True
        if t[0] == "dom" and v == ("in", frozenset({0})):
            return True
    return False


def write_rule(r, f, ty, table):
    want = {}
    for k, m, fs, w in table:
        want.setdefault(k, []).append((m, fs, w))
    used = set()

    def fail(msg):
        r.fail(where(f), "writing %s: %s" % (ty, msg))
    for puts, fa, ret, seq, st, eng in r.paths:
        if ret is not None and want and mentions(ret, lambda t: t.op == "null"):
            if puts or not any(unset(r, fa, x, eng, st) for k, xs in want.items() for m, fs, w in xs for x in fs):
                fail("nothing is written")
            continue
        for k, fs, c, ar in puts:
            if k not in want:
                fail("the member '%s' is none of the message" % k)
                continue
            m, ws, w = want[k][0]
            ws = set(ws)
            if w is not None:
                alt = [x for x in w.split("|") if x.partition("@")[0] == str(c)]
                if not alt and fs and "@" in w:
                    alt = [x for x in w.split("|") if x.partition("@")[2] in fs]
                if not alt:
                    fail("the member '%s' is not '%s'" % (k, w))
                elif "@" in w and not any(stands(r, fa, x.partition("@")[2], eng, st) for x in alt):
                    fail("the member '%s' is written although it does not hold" % k)
                continue
            mul = {x.partition("*")[0] + "*" for x in ws if "*" in x}
            ws = {x.rpartition("*")[2] for x in ws}
            bad = {x for x in fs if x not in ws and not any(y.startswith(x + ".") for y in ws)}
            if bad:
                fail("the member '%s' is written from the field %s" % (k, sorted(bad)[0]))
            if ar != mul:
                fail("the member '%s' is not the field as it is" % k)
            if fs:
                used.add(k)
            elif c is not None:
                # a constant stands for a field that is known to be set
                if c and all(set_(r, fa, x, eng, st) for x in ws):
                    used.add(k)
                elif not all(unset(r, fa, x, eng, st) or set_(r, fa, x, eng, st) for x in ws):
                    fail("the member '%s' is always %s" % (k, c))
        have = {p[0] for p in puts}
        for k, xs in want.items():
            if k in have:
                continue
            m, ws, w = xs[0]
            if w and "@" in w:
                ws = [x.partition("@")[2].partition("=")[0] for x in w.split("|")]
            if m == "":
                fail("the member '%s' is left out" % k)
            elif not all(unset(r, fa, x.rpartition("*")[2], eng, st) for x in ws):
                fail("the member '%s' is left out although it is set" % k)
        if seq and seq != ("deltaLine", "deltaStart", "length", "tokenType", "tokenModifiers")[:len(seq)] \
                and any("token" in x for x in seq):
            fail("the numbers of a token are written in the wrong order")
    for k, xs in want.items():
        if xs[0][2] is None and k not in used:
            fail("the member '%s' is never written from its field" % k)


def stands(r, fa, cond, eng, st):
    """Whether the facts of a path say that a field is set, or has a value."""
    x, _, n = cond.partition("=")
    if not n:
        return set_(r, fa, x, eng, st)
    return any(t[0] == "dom" and v == ("in", frozenset({int(n)})) and on(r, eng, st, t[1], x) for t, v in fa.items())


def set_(r, fa, x, eng, st):
    for t, v in fa.items():
        if isinstance(t, tuple) and t[0] in ("nn", "dom") and on(r, eng, st, t[1], x):
            inv = mentions(t[1], lambda y: y.op == "empty")
            if t[0] == "nn" and v is (not inv):
                return True
            if t[0] == "dom" and v == ("in", frozenset({1})):
                return True
    return False


class Caps(Reading):
    """Capabilities of the client: each field from its own place."""
    max_states = 12

    def __init__(self, prog, fn, me, table):
        super().__init__(prog, fn, me)
        self.table, self.seen = table, set()

    def on_assign(self, eng, st, fr, node, loc, val):
        self.stored(eng, st, self.here(fr, node), loc, val)

    def convert(self, eng, st, fr, node, src, dst, optional):
        loc = self.place(eng, fr, st, dst)
        if loc is not None:
            self.stored(eng, st, self.here(fr, node), loc, T("conv", src))
        return [(st, T("fits", src))]

    def stored(self, eng, st, at, loc, val):
        chain, x = [], loc
        while x.op in ("F", "D", "sel", "obj", "opt") and x is not T("D", self.p):
            if x.op == "F":
                chain.append(x.a[1])
            x = x.a[0]
            if x.op == "&":
                x = x.a[0]
        if x is not T("D", self.p) or not chain:
            return
        name = str(chain[-1]).rsplit("::", 1)[-1]
        if name not in self.table:
            return self.fail(at, "the capability %s is not known" % name)
        path, flag = self.table[name]
        src = self.sources(val, eng, st)
        if flag:
            if val.op == "c" and val.a[0] == 1:
                src = {".".join(self.path(t[1]) or ()) for t, v in st.facts.items()
                       if isinstance(t, tuple) and t[0] == "nn" and v is True and isinstance(t[1], absint.Term) and self.path(t[1])}
                src = {path} if path in src else src
        elif val.op == "c" or not src:
            return
        if src - {path}:
            return self.fail(at, "the capability %s is set from '%s'" % (name, sorted(src - {path})[0]))
        if path in src:
            self.seen.add(name)


class Change(Reading):
    """One of several messages, told apart by a word."""

    def __init__(self, prog, fn, me):
        super().__init__(prog, fn, me)
        self.stored = set()

    def word(self, st):
        w = [t[1].a[1] for t, v in st.facts.items() if t[0] == "nn" and v is True and t[1].op == "word"]
        return w[0] if w else None

    def into(self, eng, st, loc, src):
        if loc.op == "F":
            for k in src:
                self.stored.add((self.word(st), "::".join(str(loc.a[1]).split("::")[-2:]), k))

    def on_assign(self, eng, st, fr, node, loc, val):
        if fr.fn.id == self.fn.id:
            src = self.sources(val, eng, st)
            if not src and loc.op == "F":
                # the right hand side names what it is made of
                n = fr.fn.nodes[node]
                for d in self.refs(fr.fn, n["ch"][-1]) if n.get("ch") else ():
                    x = st.env.get(T("V", eng.fid(fr), d))
                    if x is not None:
                        src |= self.sources(x, eng, st)
            self.into(eng, st, loc, src)

    def convert(self, eng, st, fr, node, src, dst, optional):
        loc = self.place(eng, fr, st, dst)
        p = self.path(src)
        if loc is not None and p is not None:
            self.into(eng, st, loc, {".".join(p)})
        return super().convert(eng, st, fr, node, src, dst, optional)


def change_rule(r, f):
    def fail(msg):
        r.fail(where(f), "reading a change: " + msg)
    want = {k: dict(w.split("=") for w in v.split()) for k, v in wire.CHANGES.items()}
    req = {k: {v for x, v in fs.items() if "." not in v and "options" not in v and "annotation" not in v} for k, fs in want.items()}
    for w, x, k in sorted(r.stored, key=str):
        if w not in want:
            fail("the word '%s' is taken" % w)
        elif want[w].get(x, k) != k or x not in want[w]:
            fail("%s is set from the member '%s' for '%s'" % (x, k, w))
    seen = {(w, x) for w, x, k in r.stored}
    for w, fs in want.items():
        for x in fs:
            if (w, x) not in seen:
                fail("%s is never set for '%s'" % (x, w))
    taken = set()
    for ret, got, ts, fa, st, eng in r.paths:
        w = r.word(st)
        read, failed = ({x[0] for x in ts.get(k, ())} for k in ("read", "failed"))
        if false(ret):
            if not failed and w is not None:
                fail("'%s' is refused" % w)
            continue
        taken.add(w)
        if failed:
            fail("a change is taken although its member '%s' is broken" % sorted(failed)[0])
        elif w in req and read != req[w]:
            fail("a change '%s' is taken without its members" % w)
        elif w is None and read != {""}:
            fail("a change without a word is not read as an edit")
    for w in sorted(set(want) | {None}, key=str):
        if w not in taken:
            fail("'%s' is never taken" % w)


def enum_values(prog, name):
    e = prog.enums.get("lspserver::" + name)
    return {v["n"]: v["v"] for v in e["vals"]} if e else {}


def number_rule(r, f, ty, prog):
    lo, hi = wire.RANGES[ty]

    def fail(msg):
        r.fail(where(f), "reading %s: %s" % (ty, msg))
    n = 0
    for ret, got, ts, fa, st, eng in r.paths:
        a, b = (next((v for t, v in fa.items() if t[0] == k and mentions(t[1], lambda x: x is r.j)), None) for k in ("lo", "hi"))
        if false(ret):
            if a is not None and b is not None and a <= b and a <= hi and b >= lo or \
                    a is not None and b is None and a <= hi or b is not None and a is None and b >= lo:
                fail("a number of the enumeration is refused")
            elif a is None and b is None and not any(refusal(r, t, v) for t, v in fa.items()):
                fail("a number of the enumeration is refused")
            continue
        n += 1
        if a is None or b is None or a < lo or b > hi:
            fail("a number is taken that is not of the enumeration")
        elif (a, b) != (lo, hi):
            fail("a number of the enumeration is refused")
        if r.sources(got.get("", C(0)), eng, st) != {""}:
            fail("the number does not end in the value")
    if not n:
        fail("no number is taken")


def word_rule(r, f, ty, prog):
    words, vals = wire.WORDS[ty], enum_values(prog, ty)

    def fail(msg):
        r.fail(where(f), "reading %s: %s" % (ty, msg))
    seen = set()
    for ret, got, ts, fa, st, eng in r.paths:
        w = {t[1].a[1] for t, v in fa.items() if t[0] == "nn" and v is True and t[1].op == "word"}
        w |= {x[1] for x in ts.get("words", ())}
        if false(ret):
            if w & set(words):
                fail("the word '%s' is refused" % sorted(w)[0])
            continue
        v = got.get("")
        k = sorted(w)[0] if w else None
        if k not in words:
            fail("the word '%s' is taken" % k if k else "a word is taken that is none of the protocol")
        elif v is None or v.op != "c" or v.a[0] != vals.get(words[k]):
            fail("the word '%s' does not become %s" % (k, words[k]) if k else "an unknown word does not become " + words[k])
        seen.add(k)
    for k in sorted(set(words) - seen, key=str):
        fail("the word '%s' is not taken" % k)


def written_rule(r, f, ty, prog):
    want, vals = wire.WRITTEN[ty], enum_values(prog, ty)

    def fail(msg):
        r.fail(where(f), "writing %s: %s" % (ty, msg))
    seen = {}
    for puts, fa, ret, seq, st, eng in r.paths:
        x = ret
        for _ in range(3):
            if x is not None and x.op == "&":
                x = eng.read(st, deref(x))
            elif x is not None and x.op == "mk" and len(x.a) == 2:
                x = x.a[1]
        if x is None:
            continue
        if want is None:
            if mentions(x, lambda t: t.op == "ar") or not mentions(x, lambda t: t is r.p):
                fail("it is not written as its number")
            continue
        dom = next((v for t, v in fa.items() if t[0] == "dom" and mentions(t[1], lambda y: y is r.p)), None)
        v = x.a[0] if x.op in ("c", "str") else None
        if dom and dom[0] == "in":
            for d in dom[1]:
                seen.setdefault(d, set()).add(v)
        else:
            seen.setdefault(None, set()).add(v)
    for n, v in (want or {}).items():
        if seen.get(vals.get(n), seen.get(None)) != {v}:
            fail("%s is not written as %s" % (n, v))


def plain(ty):
    return ty.replace("lspserver::", "")


def run(chk):
    n = 0
    for group in ("lspserver", "protocol"):
        prog = load_prog([group])
        if group == "lspserver":
            for q, text in sorted(wire.NUMBERS.items()):
                vals = enum_values(prog, q)
                if not vals:
                    continue
                want = dict((w.split()[0], int(w.split()[1])) for w in text.split(", "))
                by = {v: k for k, v in want.items()}
                for k, v in sorted(vals.items()):
                    ok = want.get(k, v) == v and by.get(v, k) == k
                    chk.obligation("numbers of enumerations", ok, "%s::%s" % (q, k))
                    if not ok:
                        e = prog.enums["lspserver::" + q]
                        chk.violation("%s::%s | %s" % (q, k, v), str(e.get("loc", "nixd/lspserver")), q,
                                      "%s::%s is %s, the protocol says %s" % (q, k, v, want.get(k)), rule="numbers of enumerations")
        for f, i, ty in converters(prog):
            t = plain(ty)
            if f.n == "fromJSON":
                if t == "ClientCapabilities":
                    table = {w[0]: (w[1], len(w) > 2) for w in (l.split() for l in wire.CAPABILITIES.strip().splitlines())}
                    r = Caps(prog, f, i, table)
                    r.paths = []
                    Engine(prog, r).run_root(f)
                    for k in sorted(set(table) - r.seen):
                        r.fail(where(f), "the capability %s is never set from '%s'" % (k, table[k][0]))
                elif t.startswith("std::variant<") and "CreateFile" in t:
                    r = Change(prog, f, i)
                    r.paths = []
                    Engine(prog, r).run_root(f)
                    change_rule(r, f)
                elif t in wire.RANGES or t in wire.WORDS or ty in wire.READ:
                    r = Reading(prog, f, i)
                    r.paths = []
                    Engine(prog, r).run_root(f)
                    if t in wire.RANGES:
                        number_rule(r, f, t, prog)
                    elif t in wire.WORDS:
                        word_rule(r, f, t, prog)
                    else:
                        read_rule(r, f, t, spec(wire.READ[ty]))
                else:
                    continue
                report(chk, r, f, "reading")
            else:
                if t in wire.WRITTEN or ty in wire.WRITE:
                    r = Writing(prog, f, i)
                    r.paths = []
                    Engine(prog, r).run_root(f)
                    if t in wire.WRITTEN:
                        written_rule(r, f, t, prog)
                    else:
                        write_rule(r, f, t, spec(wire.WRITE[ty]))
                else:
                    continue
                report(chk, r, f, "writing")
            n += 1
    if n < 100:
        raise AnalysisBroken("%d converters" % n)
