"""Shared analysis: use of the syntax tree (and of other optional values) outside
the parser.

Class invariants are read off the constructors: which fields are never null
(given what else is fixed, e.g. a variant tag), and which node kinds a class
may have.  Every function is then interpreted with unknown arguments, helpers
inlined.  Obligations: a pointer, smart pointer, optional or Expected is not
null where it is dereferenced; an assertion cannot fail; a downcast is made on
a node of a fitting kind; a pointer handed to a function that follows it, or
put into a list of nodes, is not null."""
import re
import absint
from absint import T, C, Rule, Engine, Frame, addr, deref, NULL
from facts import AnalysisBroken

NODE = "nixf::Node"
KIND = "nixf::Node::Kind"
SMART = ("std::shared_ptr", "std::unique_ptr", "std::optional", "llvm::Expected", "std::weak_ptr",
         "std::__shared_ptr", "std::__shared_ptr_access")
NULLABLE_LIB = {
    "getAsObject", "getAsArray", "getObject", "getArray", "get", "getString", "getInteger", "getBoolean", "getNumber",
    "getAsString", "getAsInteger", "getAsBoolean", "getAsNumber", "getAsUINT64", "getNull", "getAsNull",
    "get_if", "any_cast", "getenv", "lock", "strchr", "strstr", "dyn_cast", "dyn_cast_or_null", "fopen", "find_if"}
LISTS = ("push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_front", "push", "insert_or_assign",
         "try_emplace")


def ptrish(ty):
    if ty.get("ref"):
        return False
    return bool(ty.get("ptr")) or ty.get("rec") in SMART


def base_param(t):
    """The parameter (or this) a value was reached from by following fields."""
    while isinstance(t, absint.Term):
        if t.op in ("param", "this"):
            return t
        if t.op in ("sel", "obj", "D", "F", "&", "nonnull", "not", "wrapd"):
            t = t.a[0]
            continue
        if t.op == "call" and len(t.a) > 1:
            t = t.a[1]
            continue
        if t.op == "ver":
            t = t.a[0]
            continue
        if t.op == "cmp":
            t = t.a[1] if t.a[1].op != "c" else t.a[2]
            continue
        return None
    return None


class Classes:
    """Invariants established where objects are constructed."""

    def __init__(self, prog):
        self.prog = prog
        self.mutable = set()
        self.kinds = {}     # class -> frozenset of kinds, or None
        self.of_field = {}
        self.ppaths = {}
        self.fty = {}       # class -> [(qualified field, type)] with inherited ones
        for q, r in prog.recs.items():
            for f in r["fields"]:
                self.of_field[q + "::" + f["n"]] = q
        for q in prog.recs:
            self.fty[q] = [(c + "::" + f["n"], f["t"]) for c in [q] + sorted(self.supers(q))
                           for f in prog.recs.get(c, {"fields": []})["fields"]]
        self.enum_of = {}
        self.ref_fields = {f for l in self.fty.values() for f, ty in l if ty.get("ref")}
        for q, l in self.fty.items():
            for f, ty in l:
                e = prog.enums.get(ty.get("enum"))
                if e and 0 < len(e["vals"]) <= 64:
                    self.enum_of[f] = frozenset(v["v"] for v in e["vals"])
        self.find_mutable()
        self.cases = {}     # class -> {key: case}
        self.ctx = {}       # the same, being collected
        self.unresolved = set()
        self.elems = {}
        self.celems = {}

        class Quiet(Rule):
            max_states = 40

            def on_call(self, eng, st, fr, node, n, this, args):
                return [] if n.get("q") == "__assert_fail" else None
        self.root_cases = {}
        self.collecting = self.root_cases
        self.has_ctor = set()
        for f in prog.fns.values():
            if not f.d.get("ctor") or not f.cfg or f.d.get("copy"):
                continue
            if len(f.params) == 1:
                ty = f.types[f.decls[f.params[0]]["t"]]
                if ty.get("rec") == f.cls and ty.get("ref"):
                    continue
            self.has_ctor.add(f.cls)
            eng = Engine(prog, Quiet())
            for s in eng.run_root(f):
                self.add_case(eng, s, f.cls, deref(T("this", f.cls)), True)
        self.cases = self.root_cases
        # fields of base classes are part of each case already (base ctor inlined)
        self.sub = {}
        for q, r in prog.recs.items():
            for b in self.supers(q):
                self.sub.setdefault(b, set()).add(q)
            self.sub.setdefault(q, set()).add(q)
        for q in prog.recs:
            if q == NODE or NODE in self.supers(q):
                ks = set()
                for s in self.sub.get(q, ()):
                    if self.prog.recs[s].get("abstract"):
                        continue
                    for c in self.cases.get(s, {}).values():
                        k = c.get((KIND,))
                        if k is None and len(self.sub[s]) > 1:
                            continue    # passed on by the derived classes
                        ks.add(k[1] if isinstance(k, tuple) else None)
                self.kinds[q] = None if None in ks or not ks else frozenset(ks)

    def snapshot(self, eng, st, cls, loc, root=False, prefix=(), depth=0):
        """What is known about the object at loc."""
        case = {}
        for f, ty in self.fty.get(cls, ()):
            if f in self.mutable:
                continue
            rec = ty.get("rec")
            l = T("F", loc, f)
            path = prefix + (f,)
            if rec and not ty.get("ptr") and rec not in SMART:
                if rec in self.prog.recs and depth < 1:
                    case.update(self.snapshot(eng, st, rec, l, root, path, depth + 1))
                continue
            if ty.get("flt") or ty.get("ref"):
                continue
            v = eng.read(st, l)
            if v.op == "c" and (ty.get("enum") or ty.get("bool")):
                case[path] = ("c", v.a[0])
                continue
            if ty.get("enum"):
                d = eng.dom(st, v)
                if d is not None and d[0] == "in" and len(d[1]) == 1:
                    case[path] = ("c", min(d[1]))
                continue
            if not ptrish(ty):
                continue
            if root and v.op == "sel":
                continue
            n = eng.nullness(st, v)
            if n is not None:
                case[path] = n
            pr = rec if ty.get("ptr") else (ty.get("args") or [{}])[0].get("rec")
            if n is not False and (pr == NODE or pr in self.prog.recs and NODE in self.supers(pr)) and \
                    rec != "std::optional":
                d = self.kind_dom(eng, st, v)
                if d is not None:
                    case[("k",) + path] = d
        return case

    def ptr_paths(self, cls):
        r = self.ppaths.get(cls)
        if r is None:
            r = []
            for f, ty in self.fty.get(cls, ()):
                if f in self.mutable or ty.get("ref"):
                    continue
                if ptrish(ty):
                    r.append((f,))
                elif ty.get("rec") in self.prog.recs:
                    r += [(f, g) for g, t2 in self.fty[ty["rec"]] if ptrish(t2) and g not in self.mutable]
            self.ppaths[cls] = r
        return r

    def kind_dom(self, eng, st, v):
        k = eng.read(st, T("F", deref(v), KIND))
        if k.op == "c":
            return frozenset([k.a[0]])
        d = eng.dom(st, k)
        return d[1] if d is not None and d[0] == "in" else None

    def add_case(self, eng, st, cls, loc, root=False):
        case = self.snapshot(eng, st, cls, loc, root)
        if not root:
            # pointers that are the same value are null together
            by = {}
            for p in self.ptr_paths(cls):
                l = loc
                for f in p:
                    l = T("F", l, f)
                v = eng.read(st, l)
                if p not in case:
                    by.setdefault(v, []).append(p)
            for ps in by.values():
                if len(ps) > 1:
                    for b in (True, False):
                        c2 = dict(case)
                        for p in ps:
                            c2[p] = b
                        self.put_case(self.collecting, cls, c2)
                    return
        self.put_case(self.collecting, cls, case)

    @staticmethod
    def put_case(where, cls, case):
        tab = where.setdefault(cls, {})
        key = tuple(sorted((str(k), str(sorted(v) if isinstance(v, frozenset) else v)) for k, v in case.items()))
        tab[key] = case
        if len(tab) > 24:
            common = None
            for c in tab.values():
                common = dict(c) if common is None else {k: v for k, v in common.items() if c.get(k) == v}
            tab.clear()
            tab[()] = common

    def add_elem(self, key, snap):
        o = self.celems.get(key)
        if o is None:
            self.celems[key] = dict(snap)
        else:
            for k in list(o):
                if k not in snap:
                    del o[k]
                elif isinstance(o[k], frozenset):
                    o[k] = o[k] | snap[k]
                elif o[k] != snap[k]:
                    del o[k]

    def begin(self):
        self.ctx, self.celems, self.unresolved = {}, {}, set()
        self.collecting = self.ctx

    def commit(self):
        """Use what was collected; say whether anything changed."""
        new = {}
        for c in self.root_cases:
            # a base subobject is described by the cases of the base class
            new[c] = self.ctx[c] if c in self.ctx and c not in self.unresolved else self.root_cases[c]
        same = {c: set(t) for c, t in new.items()} == {c: set(t) for c, t in self.cases.items()} and \
            self.elems == self.celems
        self.cases, self.elems = new, self.celems
        return not same

    def applicable(self, eng, st, base, cls, path):
        """Cases of class cls that the object valued base may be in."""
        for case in self.cases.get(cls, {}).values():
            ok = True
            for g, v in case.items():
                if g == path or g[0] == "k":
                    continue
                if isinstance(v, tuple):
                    if self.busy:
                        continue
                    self.busy = True
                    if eng.cmp_truth(st, "==", self.select(base, g), C(v[1])) is False:
                        ok = False
                    self.busy = False
                elif v is not None and st.facts.get(("nn", self.select(base, g)), v) is not v:
                    ok = False
                if not ok:
                    break
            if ok:
                yield case
    busy = False

    @staticmethod
    def select(base, path):
        for f in path:
            base = T("sel", base, f)
        return base

    def places(self, t):
        """(object, class, path) decompositions of a field read."""
        path = ()
        while t.op == "sel" and len(path) < 2:
            path = (t.a[1],) + path
            t = t.a[0]
            cls = self.of_field.get(path[0])
            if cls is None or path[0] in self.mutable:
                return
            yield t, cls, path

    def supers(self, q, seen=None):
        seen = set() if seen is None else seen
        for b in self.prog.recs.get(q, {}).get("bases", []):
            if b["q"] not in seen:
                seen.add(b["q"])
                self.supers(b["q"], seen)
        return seen

    def find_mutable(self):
        for f in self.prog.fns.values():
            if f.body < 0 or f.d.get("ctor"):
                continue
            for n in f.nodes:
                if not n:
                    continue
                tgt = None
                if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op", "").endswith("=") and \
                        n["op"] not in ("==", "!=", "<=", ">="):
                    tgt = n["ch"][0]
                elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
                    tgt = n["ch"][1]
                    self.mutable.update(x for x, _ in self.fty.get(n.get("cls"), ()))
                elif n["k"] == "CXXMemberCallExpr" and n.get("fnm") in ("reset", "swap", "emplace", "release"):
                    m = f.nodes[n["ch"][0]]
                    tgt = m["ch"][0] if m.get("ch") else None
                elif n.get("q") in ("std::move", "std::swap", "std::exchange") and len(n.get("ch", [])) > 1:
                    tgt = n["ch"][1]
                while tgt is not None and tgt >= 0:
                    m = f.nodes[tgt]
                    if m["k"] == "MemberExpr":
                        d = f.decls[m["d"]]
                        if d["k"] == "Field":
                            ty = f.types[d["t"]] if d["t"] >= 0 else {}
                            if not ty.get("const"):
                                self.mutable.add(d["q"])
                        break
                    if m["k"] in ("ParenExpr", "ImplicitCastExpr") and m.get("ch"):
                        tgt = m["ch"][0]
                        continue
                    break

    def field_nn(self, eng, st, t):
        """Nullness of a field from the class invariants."""
        if t.a[1] in self.ref_fields:
            return True
        for base, cls, path in self.places(t):
            got = {c.get(path) if not isinstance(c.get(path), tuple) else None
                   for c in self.applicable(eng, st, base, cls, path)}
            if len(got) == 1:
                r = got.pop()
                if r is not None:
                    return r
        return None

    def field_dom(self, eng, st, t):
        """Finite domain of a tag field, or of the kind of a pointed-to node."""
        if t.a[1] == KIND and t.a[0].op == "obj":
            for base, cls, path in self.places(t.a[0].a[0]):
                ds = [c.get(("k",) + path) for c in self.applicable(eng, st, base, cls, path)
                      if c.get(path) is not False]
                if ds and None not in ds:
                    return ("in", frozenset().union(*ds))
            return None
        for base, cls, path in self.places(t):
            vs = [c.get(path) for c in self.applicable(eng, st, base, cls, path)]
            if vs and all(isinstance(v, tuple) for v in vs):
                return ("in", frozenset(v[1] for v in vs))
        e = self.enum_of.get(t.a[1])
        return ("in", e) if e is not None else None


class TreeSafe(Rule):
    max_states = 40
    max_depth = 7
    max_inline_blocks = 120
    join_exits = True
    join_above = 6
    in_place = True
    loop_nullness = True

    def __init__(self, prog, classes, own):
        super().__init__()
        self.prog = prog
        self.cls = classes
        self.own = own              # predicate: file is ours to report on
        self.obl = {}               # (kind, fn, node) -> ok
        self.requires = {}          # fn id -> set of param indexes
        self.ret = {}               # fn id -> nullness of the result
        self.root = None
        self.callers = {}
        self.needs_ctx = set()
        self.collect = False
        self.rets = {}
        self.each = {}
        self.bad_kind = set()
        self.not_inlined = set()
        self.taken = set()
        for f in prog.fns.values():
            for n in f.nodes:
                if n and "fn" in n:
                    self.callers.setdefault(n["fn"], set()).add(f.id)

    # -- knowledge
    def stable(self, f):
        return f in self.cls.of_field and f not in self.cls.mutable

    def dom_default(self, eng, st, t):
        return self.cls.field_dom(eng, st, t) if t.op == "sel" else None

    def nn_default(self, eng, st, t):
        if t.op == "sel":
            return self.cls.field_nn(eng, st, t)
        if t.op == "this":
            return True
        if t.op == "call":
            return True if t.a[0] not in NULLABLE_LIB else None
        return None

    def elem_key(self, ty):
        """Containers are told apart by what they hold pointers to."""
        if ty.get("ptr"):
            return ("raw", ty.get("rec")) if ty.get("rec") in self.prog.recs else None
        if ty.get("rec") in ("std::shared_ptr", "std::unique_ptr"):
            r = (ty.get("args") or [{}])[0].get("rec")
            return ("sp", r) if r in self.prog.recs else None
        return None

    def on_element_read(self, eng, st, fr, node, loc, ty):
        """loc is an element of a container (or half of a pair in one)."""
        key = self.elem_key(ty)
        if key is None or self.nullable_list(fr, node, key):
            return
        v = eng.read(st, loc)
        if v.op in ("&", "null", "new", "c"):
            return
        if ("nn", v) not in st.facts:
            st.facts[("nn", v)] = True
        if v.op == "obj" and v.a[0].op == "call" and len(v.a[0].a) in (2, 3):
            c = v.a[0].a[1]
            if len(v.a[0].a) == 2:     # the element a range loop is at
                it = c
                c = self.range_of(eng, st, fr, it.a[1])[1] if it.op == "lp" and it.a[0] == eng.fid(fr) else None
                c = c.a[0] if c is not None else None
            each = st.facts.get(("dom", T("each", c))) if c is not None else None
            if each is not None:
                k = self.kind_term(eng, st, v)
                if k.op != "c":
                    eng.set_dom(st, k, each)
        snap = self.cls.elems.get(key)
        if not snap:
            return
        for p, x in snap.items():
            if p == ("k",):
                k = self.kind_term(eng, st, v)
                if k.op != "c" and ("dom", k) not in st.facts:
                    eng.set_dom(st, k, ("in", x))
                continue
            kind = p[0] == "k"
            t = deref(v)
            for f in p[1:] if kind else p:
                t = T("F", t, f)
            w = eng.read(st, t)
            if kind:
                k = self.kind_term(eng, st, w)
                if k.op not in ("c",) and ("dom", k) not in st.facts:
                    eng.set_dom(st, k, ("in", x))
            elif isinstance(x, tuple):
                if w.op != "c" and ("dom", w) not in st.facts:
                    eng.set_dom(st, w, ("in", frozenset([x[1]])))
            elif ("nn", w) not in st.facts and w.op not in ("&", "null", "new", "c"):
                st.facts[("nn", w)] = x

    # what holds of every element once a range loop has run to its end
    def range_of(self, eng, st, fr, head):
        fn = fr.fn
        t = fr.info.blocks[head].get("t")
        if t is None or fn.nodes[t]["k"] != "CXXForRangeStmt":
            return None, None
        n = fn.nodes[t]
        m = fn.memo.setdefault("rangevar", {})
        if t not in m:
            m[t] = None
            for x in fn.nodes:
                if x and x["k"] == "DeclStmt":
                    for v in x.get("vars", []):
                        if "init" in v and fn.strip(v["init"]) == fn.strip(n["range"]):
                            m[t] = v["d"]
        if m[t] is None:
            return None, None
        r = eng.read(st, T("V", eng.fid(fr), m[t]))
        x = eng.version(st, deref(r))
        return n, T("each", x)

    def on_backedge(self, eng, st, fr, head):
        n, each = self.range_of(eng, st, fr, head)
        if n is None or not self.elem_key(fr.fn.types[fr.fn.decls[n["var"]]["t"]]):
            return
        loc = T("V", eng.fid(fr), n["var"])
        if fr.fn.types[fr.fn.decls[n["var"]]["t"]].get("ref"):
            loc = deref(eng.read(st, loc))
        v = eng.read(st, loc)
        d = self.cls.kind_dom(eng, st, v)
        w = v
        while w.op in ("obj", "D"):
            w = w.a[0]
        if w.op == "undef":     # its last use was before the end of the iteration
            for f, x in st.facts.items():
                b = f[1]
                if f[0] == "dom" and x[0] == "in" and b.op in ("sel", "F") and b.a[1] == KIND:
                    b = b.a[0]
                    while b.op in ("obj", "D"):
                        b = b.a[0]
                    if b.op == "call" and b.a[0] == "operator**" and len(b.a) == 2 and b.a[1].op == "lp" and \
                            b.a[1].a[:2] == (eng.fid(fr), head):
                        d = x[1]
        k = (eng.fid(fr), head, each)
        o = self.each.get(k, frozenset())
        self.each[k] = None if d is None or o is None else o | d

    def on_edge(self, eng, st, fr, src, dst):
        if src in fr.info.loop_blocks and dst not in fr.info.loop_blocks[src]:
            n, each = self.range_of(eng, st, fr, src)
            if n is not None and self.elem_key(fr.fn.types[fr.fn.decls[n["var"]]["t"]]):
                d = self.each.get((eng.fid(fr), src, each), frozenset())
                if d is not None:
                    st.facts[("dom", each)] = ("in", d)

    def nullable_list(self, fr, node, key):
        """children() lists may hold null entries."""
        return key == ("raw", NODE)

    def note_insert(self, eng, st, key, v, static=None):
        if key is None or not self.collect:
            return
        snap = {}
        pr = key[1]
        for p, x in self.cls.snapshot(eng, st, pr, deref(v)).items():
            snap[p] = x
        if pr == NODE or NODE in self.cls.supers(pr):
            d = self.cls.kind_dom(eng, st, v)
            if static is not None:
                d = static if d is None else d & static
            if d is not None:
                snap[("k",)] = d
        self.cls.add_elem(key, snap)

    def on_construct(self, eng, st, fr, node, cls, loc):
        if self.collect:
            self.cls.add_case(eng, st, cls, loc)

    def kind_term(self, eng, st, v):
        return eng.read(st, T("F", deref(v), KIND))

    def note_kind(self, eng, st, v, cls):
        ks = self.cls.kinds.get(cls)
        if ks is None or v.op in ("null", "c"):
            return
        k = self.kind_term(eng, st, v)
        if k.op != "c":
            eng.set_dom(st, k, ("in", ks))

    # -- obligations
    def ob(self, eng, fr, node, kind, ok, msg, subject=None):
        top = fr
        while top.parent is not None and not self.own(top.fn.file):
            top = top.parent
        # accessors of the syntax tree are judged where they are used
        f, nd = fr.fn, node
        x = fr
        while x.parent is not None and (self.header(x.fn) or not self.own(x.fn.file)):
            nd = x.node
            x = x.parent
        if not self.own(x.fn.file) and not (kind == "list element" and x.fn.file.endswith(".cpp")):
            return ok
        f = x.fn
        if not ok:
            while subject is not None and subject.op == "not":
                subject = subject.a[0]
            if subject is not None and subject.op == "nonnull":
                subject = subject.a[0]
            p = base_param(subject) if subject is not None else None
            if p is not None and subject.op == "obj" and subject.a[0] is p:
                p = subject     # a smart pointer passed by reference
            if p is not None and self.has_ctx(self.root, p, subject, kind):
                return ok
        key = (kind, f.id, nd)
        self.obl[key] = self.obl.get(key, True) and ok
        if not ok:
            r = dict(file=f.rel(), line=f.nodes[nd].get("l", f.l) if nd is not None and nd >= 0 else f.l,
                     func=f.q, msg=msg, subject=str(subject), inst="%s: %s" % (kind, self.short(fr, x, msg)),
                     path=[y.fn.q + ":" + str(y.line) for y in fr.chain()])
            self.alarms.setdefault((f.id, nd, r["inst"]), r)
        return ok

    @staticmethod
    def short(fr, x, msg):
        return msg if fr is x else "%s in %s" % (msg, fr.fn.q)

    def header(self, f):
        return f.file.endswith(".h") and f.el - f.l < 25

    def has_ctx(self, root, p, subject, kind):
        """A condition on the arguments of a function that is inlined into
        its callers is judged there."""
        if not self.callers.get(root.id, set()) - {root.id}:
            # entry points: arguments are given (documented assumption)
            return p is subject and kind != "downcast"
        if p is subject and kind != "downcast":
            q = p.a[0] if p.op == "obj" else p
            if q.op == "param":
                self.requires.setdefault(root.id, set()).add(q.a[1])
                return True
        if self.inlinable(root):
            self.needs_ctx.add(root.id)
            return True
        return False

    def inlinable(self, f):
        v = f.memo.get("ts_inl")
        if v is None:
            eng = self.eng
            v = f.memo["ts_inl"] = bool(f.cfg) and eng.weight(f) <= self.max_inline_blocks and not eng.in_cycle(f)
        return v

    def on_call(self, eng, st, fr, node, n, this, args):
        q = n.get("q", "")
        if q == "__assert_fail":
            self.assertion(eng, st, fr, node)
            return []
        rec = None
        if q in ("std::make_shared", "std::make_unique", "std::make_optional"):
            rec = (fr.fn.type_of(node).get("args") or [{}])[0].get("rec")
        elif n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not n.get("copy"):
            rec = n.get("cls")
            g = self.prog.fns.get(n.get("fn"))
            if g is not None and g.cfg and eng.may_inline(fr, g):
                rec = None
        if rec in self.cls.has_ctor:
            g = eng.find_ctor(fr, rec, args) if q.startswith("std::make_") else None
            if g is None or not eng.may_inline(fr, g):
                self.cls.unresolved.add(rec)
        if n.get("fnm") in LISTS and args and this is not None and (n.get("cls") or "").startswith(("std::", "boost::", "llvm::")):
            self.insertion(eng, st, fr, node, n, this, args)
        g = self.prog.fns.get(n.get("fn"))
        if g is not None and g.cfg and not eng.may_inline(fr, g):
            self.not_inlined.add(g.id)
        if g is not None and g.cfg and not eng.may_inline(fr, g) and g.id in self.requires:
            for j in self.requires[g.id]:
                if j < len(args):
                    v = eng.rv(fr, st, args[j])
                    self.ob(eng, fr, node, "argument", eng.nullness(st, v) is True,
                            "a possibly null value is passed to %s, which follows it" % g.q, v)
        return None

    def insertion(self, eng, st, fr, node, n, this, args):
        fn = fr.fn
        a = args[-1]
        ty = fn.type_of(a)
        # the element type: a parameter of the container's
        obj = fn.nodes[n["ch"][0]]
        oty = fn.type_of(obj["ch"][0]) if obj.get("ch") else {}
        ets = [x.get("rec") for x in oty.get("args") or []]
        if oty.get("rec") in ("std::vector", "std::deque", "std::list", "boost::container::small_vector") and \
                n["fnm"].startswith("emplace") and ets and ets[0] in self.cls.has_ctor and \
                not (ty.get("rec") == ets[0] and not ty.get("ptr")):
            g = eng.find_ctor(fr, ets[0], args)
            if g is None or not eng.may_inline(fr, g):
                self.cls.unresolved.add(ets[0])
            else:
                s = st.clone()
                eng.construct_at(fr, s, node, g, T("TMP", eng.fid(fr), node, "elem"), args)
            return
        if ty.get("rec") == "std::pair" and len(ty.get("args", [])) == 2:
            b = deref(eng.val(fr, st, a))
            v = eng.read(st, T("F", b, absint.PAIR[1]))
            s2 = ty["args"][1]["s"]
            ty = dict(ptr=True, rec=re.sub(r"^const |[ *]", "", s2)) if s2.endswith("*") else \
                dict(rec=ty["args"][1].get("rec"), args=[dict(rec=s2[s2.index("<") + 1:-1].replace("const ", ""))]
                     if "<" in s2 else [])
        else:
            v = None
        # elements are classified by the declared element type
        key = None
        if ptrish(ty):
            for x in reversed(oty.get("args") or []):
                xs = x["s"]
                if xs.endswith("*"):
                    key = self.elem_key(dict(ptr=True, rec=re.sub(r"^const |[ *]", "", xs)))
                elif x.get("rec") in ("std::shared_ptr", "std::unique_ptr"):
                    key = self.elem_key(dict(rec=x["rec"], args=[dict(rec=xs[xs.index("<") + 1:-1].replace("const ", ""))]))
                if key:
                    break
        if key is None or self.nullable_list(fr, node, key):
            return
        if v is None:
            v = eng.rv(fr, st, a)
        self.ob(eng, fr, node, "list element", eng.nullness(st, v) is True,
                "a possibly null pointer is put into a list", v)
        if v.op != "null":
            self.note_insert(eng, st, key, v, self.static_kinds(fn, a))

    def static_kinds(self, fn, a):
        """Kinds admitted by the most derived static type of an expression."""
        best = None
        w = [a]
        while w:
            x = fn.strip(w.pop())
            n = fn.nodes[x]
            key = self.elem_key(fn.type_of(x))
            if key and self.cls.kinds.get(key[1]) is not None:
                ks = self.cls.kinds[key[1]]
                best = ks if best is None else best & ks
            if n["k"] in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXConstructExpr", "CXXFunctionalCastExpr") and \
                    n.get("ch"):
                w.append(n["ch"][0])
            elif n.get("q") in absint.IDENT_FUNCS and len(n.get("ch", [])) > 1:
                w.append(n["ch"][1])
            elif n.get("fnm") == "get" and n.get("cls") in SMART and n.get("ch"):
                m = fn.nodes[n["ch"][0]]
                if m.get("ch"):
                    w.append(m["ch"][0])
        return best

    def on_assign(self, eng, st, fr, node, loc, val):
        n = fr.fn.nodes[node]
        if loc.op == "D" and loc.a[0].op == "call" and loc.a[0].a[0].startswith(("operator[]", "at", "operator*")):
            key = self.elem_key(fr.fn.type_of(n["ch"][-2] if len(n.get("ch", [])) > 2 else n["ch"][0]))
            if key is None or self.nullable_list(fr, node, key):
                return
            self.ob(eng, fr, node, "list element", eng.nullness(st, val) is True,
                    "a possibly null pointer is put into a list", val)
            if val.op != "null":
                self.note_insert(eng, st, key, val)

    def assertion(self, eng, st, fr, node):
        """Only assertions about missing nodes, node kinds, tags and
        unreachable code are decided."""
        fn = fr.fn
        c = self.assert_cond(fn, node)
        lc = st.ts.get("lastcond")
        if c is not None and self.literal_false(fn, c):
            kind = "unreachable"
            # only a dispatch over the kind of a node is decided
            if lc is None or lc[0] != eng.fid(fr) or lc[1].op != "switch" or not (
                    lc[1].a[0].op == "sel" and lc[1].a[0].a[1] == KIND):
                return
            lc = lc[1].a[0]
        else:
            kind = "assertion"
            if lc is None or lc[0] != eng.fid(fr):
                return
            lc = lc[1]
            if not self.decidable(lc):
                return
        self.ob(eng, fr, node, kind, False, "an assertion may fail", lc)

    @staticmethod
    def assert_cond(fn, node):
        memo = fn.memo.setdefault("assertc", {})
        if not memo:
            memo[-1] = -1
            for i, n in enumerate(fn.nodes):
                if n and n["k"] == "ConditionalOperator":
                    for x in fn.walk(n["ch"][2]):
                        memo[x if isinstance(x, int) else x[0]] = n["ch"][0]
        return memo.get(node)

    @staticmethod
    def literal_false(fn, c):
        w = [c]
        while w:
            x = fn.strip(w.pop())
            n = fn.nodes[x]
            if n["k"] == "CXXBoolLiteralExpr" and not n.get("cv", n.get("v", 1)):
                return True
            if n["k"] == "BinaryOperator" and n.get("op") == "&&" or n["k"] in (
                    "ImplicitCastExpr", "CXXStaticCastExpr", "ParenExpr"):
                w.extend(n["ch"])
        return False

    def decidable(self, c):
        while c.op == "not":
            c = c.a[0]
        if c.op == "nonnull":
            return True
        if c.op in ("and", "or"):
            return any(self.decidable(x) for x in c.a)
        if c.op == "cmp":
            xs = [x for x in c.a[1:] if x.op != "c"]
            return all(x.op == "null" or x.op == "sel" and (x.a[1] == KIND or self.enum_field(x.a[1])) for x in xs)
        return False

    def enum_field(self, f):
        c = self.cls.of_field.get(f)
        return c is not None and any(g == f and t.get("enum") for g, t in self.cls.fty[c])

    def on_assume(self, eng, st, fr, cond, truth):
        st.ts["lastcond"] = (eng.fid(fr), cond) if cond is not None and cond.op != "c" else None
        return True

    def after_call(self, eng, st, fr, node, n, this, args, val):
        if val is None:
            return
        ty = fr.fn.type_of(node)
        g = self.prog.fns.get(n.get("fn"))
        if val.op == "call" and n.get("lv") and not n.get("inrepo") and \
                val.a[0].startswith(("operator*", "operator[]", "at", "back", "front", "value")):
            self.on_element_read(eng, st, fr, node, deref(val), ty)
        if not ptrish(ty):
            return
        j = self.kind_param(g)
        if j is not None and g.id not in self.bad_kind and j < len(args):
            a = eng.rv(fr, st, args[j])
            v = eng.read(st, deref(val)) if ty.get("rec") in SMART and val.op == "&" else val
            if v.op not in ("null", "c", "&"):
                k = self.kind_term(eng, st, v)
                if k.op != "c":
                    if a.op == "c":
                        eng.set_dom(st, k, ("in", frozenset([a.a[0]])))
                    else:
                        st.facts[("eq", T("pair", *sorted((k, a))))] = True
        if ty.get("rec") in SMART:
            v = eng.read(st, deref(val)) if val.op == "&" else val
        else:
            v = val
        if v.op in ("null", "&", "c", "lam", "param", "sel", "this", "wrap", "new"):
            return
        if g is not None and g.cfg:
            if not eng.may_inline(fr, g) and eng.nullness(st, v) is None and self.summary(g) is True:
                st.facts[("nn", v)] = True
            return
        if n.get("ctor"):
            return
        if eng.nullness(st, v) is None and ty.get("rec") not in ("std::optional", "llvm::Expected", "std::weak_ptr") and \
                n.get("fnm") not in NULLABLE_LIB:
            st.facts[("nn", v)] = True

    def summary(self, g):
        """Nullness of what a function that is not inlined returns, as seen in
        the previous pass."""
        return self.ret.get(g.id)

    def kind_param(self, g):
        """Functions that look for a node of a kind given as an argument: the
        index of that parameter. That they return such a node (or none) is
        checked where they are defined."""
        if g is None or not g.cfg:
            return None
        j = g.memo.get("kindparam", -1)
        if j == -1:
            j = None
            r = g.types[g.ret] if g.ret >= 0 else {}
            if r.get("ptr") and r.get("rec") in self.cls.kinds:
                for i, d in enumerate(g.params):
                    if g.types[g.decls[d]["t"]].get("enum") == NODE + "::NodeKind":
                        j = i
            g.memo["kindparam"] = j
        return j

    def on_exit(self, eng, st, fr):
        if fr.parent is None:
            rv = st.env.get(T("RET", eng.fid(fr)))
            j = self.kind_param(fr.fn)
            if j is not None and rv is not None and eng.nullness(st, rv) is not False:
                k = self.kind_term(eng, st, rv)
                if eng.cmp_truth(st, "==", k, T("param", fr.fn.id, j)) is not True:
                    self.bad_kind.add(fr.fn.id)
            if rv is not None:
                self.rets.setdefault(fr.fn.id, set()).add(eng.nullness(st, rv))

    # -- what need not be looked into
    def inline(self, eng, fr, g):
        return not self.plain_fn(g)

    def plain_type(self, ty, seen=()):
        if ty.get("ptr"):
            return not ty.get("rec")
        r = ty.get("rec")
        if not r:
            return not ty.get("enum") and not ty.get("bool")
        if r in SMART or ty.get("lambda") or r.startswith("std::function"):
            return False
        if r in self.prog.recs:
            if r in seen:
                return True
            return r not in self.cls.kinds and \
                all(self.plain_type(t, seen + (r,)) for _, t in self.cls.fty[r]
                    if not t.get("enum") and not t.get("bool"))
        for x in ty.get("args") or []:
            if x["s"].endswith("*") or x.get("rec") in SMART or x.get("rec") in self.cls.kinds or \
                    x.get("rec") in self.prog.recs and not self.plain_type(dict(rec=x["rec"]), seen + (r,)):
                return False
        return True

    def plain_fn(self, g):
        """No node, optional or tag is followed, made or handed on in g."""
        v = g.memo.get("plain")
        if v is not None:
            return v
        g.memo["plain"] = False
        v = self.plain_type(g.types[g.ret]) if g.ret >= 0 and not g.d.get("ctor") else True
        if g.d.get("ctor"):
            v = self.plain_type(dict(rec=g.cls))
        for n in g.nodes:
            if not v:
                break
            if not n:
                continue
            k = n["k"]
            if n.get("q") == "__assert_fail" or k == "LambdaExpr" or n.get("ck") == "BaseToDerived":
                if n.get("q") == "__assert_fail":
                    c = self.assert_cond(g, g.nodes.index(n))
                    v = c is not None and not self.literal_false(g, c) and all(
                        not g.nodes[x if isinstance(x, int) else x[0]].get("t", -1) >= 0 or
                        self.plain_leaf(g.type_of(x if isinstance(x, int) else x[0])) for x in g.walk(c))
                else:
                    v = False
            elif k == "MemberExpr" and n.get("arrow") and n.get("ch") and g.nodes[g.strip(n["ch"][0])]["k"] != "CXXThisExpr":
                v = False
            elif k == "UnaryOperator" and n.get("op") == "*" and not self.plain_type(g.type_of(n["ch"][0])):
                v = False
            elif k == "CXXOperatorCallExpr" and n.get("op") in ("*", "->") and n.get("cls") in SMART:
                v = False
            elif n.get("fnm") in LISTS and n.get("ch"):
                o = g.nodes[n["ch"][0]]
                v = not o.get("ch") or self.plain_type(g.type_of(o["ch"][0]))
            elif "fn" in n and n["fn"] in self.prog.fns and k != "LambdaExpr":
                h = self.prog.fns[n["fn"]]
                v = h.id == g.id or h.body < 0 or self.plain_fn(h)
        g.memo["plain"] = v
        return v

    def extra(self):
        return None

    def absorb(self, x):
        pass

    def plain_leaf(self, ty):
        return not ty.get("enum") and (not ty.get("ptr") or not ty.get("rec")) and ty.get("rec") not in SMART

    def on_deref(self, eng, st, fr, node, ptr):
        if ptr.op in ("this", "&", "lam", "new", "str"):
            return
        n = fr.fn.nodes[node]
        cls = n.get("cls", "")
        if ptr.op in ("r", "lp", "undef", "mrg", "param", "sel", "call", "+", "glob") and n["k"] == "UnaryOperator":
            ty = fr.fn.type_of(n["ch"][0])
            if ty.get("ptr") and not ty.get("rec"):
                return          # characters and the like
        if cls in ("std::function", "llvm::unique_function", "std::weak_ptr"):
            return
        ok = eng.nullness(st, ptr) is True
        self.ob(eng, fr, node, "dereference", ok, "a possibly null value is followed", ptr)
        if not ok:
            st.facts[("nn", ptr)] = True   # report once per path

    def on_cast(self, eng, st, fr, node, n, val):
        ck = n.get("ck")
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            ty = fr.fn.type_of(n["ch"][0])
            rec = ty.get("rec") if not ty.get("ptr") else (ty.get("pt") or {}).get("rec", ty.get("rec"))
            if rec in self.cls.kinds and rec != NODE:
                v = eng.rv(fr, st, n["ch"][0]) if ty.get("ptr") else eng.val(fr, st, n["ch"][0])
                if v is not None:
                    self.note_kind(eng, st, v, rec)
        elif ck == "BaseToDerived":
            ty = fr.fn.type_of(node)
            rec = ty.get("rec") if not ty.get("ptr") else (ty.get("pt") or {}).get("rec", ty.get("rec"))
            if rec not in self.cls.kinds:
                return
            sty = fr.fn.type_of(n["ch"][0])
            v = eng.rv(fr, st, n["ch"][0]) if sty.get("ptr") else eng.val(fr, st, n["ch"][0])
            ks = self.cls.kinds[rec]
            if ks is None:
                raise AnalysisBroken("the kinds of %s are not known" % rec)
            if v.op == "null":
                return
            k = self.kind_term(eng, st, v)
            if k.op == "c":
                ok = k.a[0] in ks
            else:
                d = st.facts.get(("dom", k))
                ok = d is not None and d[0] == "in" and d[1] <= ks
            self.ob(eng, fr, node, "downcast", ok, "a node that may be of another kind is used as %s" % rec, k)
            if not ok:
                self.note_kind(eng, st, v, rec)


def analyse(prog, own, rule=None, roots=None, passes=3):
    classes = Classes(prog)
    rule = rule or TreeSafe(prog, classes, own)
    fns = sorted((f for f in prog.fns.values() if f.cfg and not f.d.get("lambda") and
                  (own(f.file) or f.file.endswith(".cpp"))), key=lambda f: f.id)
    if roots:
        fns = [f for f in fns if roots(f)]
    stats = {}
    for rnd in range(passes):
        before = {k: set(v) for k, v in rule.requires.items()}
        bad = set(rule.bad_kind)
        rule.alarms.clear()
        rule.obl.clear()
        rule.over = []
        rule.rets = {}
        stats.update(functions=0, blocks=0, inlined=0, passes=rnd + 1)
        classes.begin()
        rule.collect = True
        todo = []
        for f in fns:
            if rnd and f.id not in rule.not_inlined and rule.callers.get(f.id, set()) - {f.id}:
                continue        # judged in the context of its callers
            todo.append(f)
        for part in spread(rule, todo):
            part_into(rule, part, stats)
        more = classes.commit()
        ret = {k: next(iter(v)) if len(v) == 1 else None for k, v in rule.rets.items()}
        more = more or ret != rule.ret or bad != rule.bad_kind
        rule.ret = ret
        if not more and before == {k: set(v) for k, v in rule.requires.items()}:
            break
    rule.stats = stats
    return rule


def one_root(rule, f):
    classes = rule.cls
    eng = Engine(rule.prog, rule)
    eng.step_budget = 300000
    rule.eng = eng
    rule.root = f
    req = rule.requires.get(f.id, ())

    def init(e, st, fr):
        for j in req:
            p = T("param", f.id, j)
            ty = f.types[f.decls[f.params[j]]["t"]]
            st.facts[("nn", p if not ty.get("ref") and not eng.is_class(ty) else T("obj", p))] = True
            st.facts[("nn", p)] = True
        for j, d in enumerate(f.params):
            ty = f.types[f.decls[d]["t"]]
            rec = ty.get("rec")
            if rec in classes.kinds and rec != NODE:
                rule.note_kind(e, st, T("param", f.id, j), rec)
    eng.run_root(f, init)
    if eng.stats["budget"]:
        rule.over.append(f.q)
    return eng.stats


def work(rule, roots, k, w, out):
    st = dict(functions=0, blocks=0, inlined=0)
    for f in roots[k::w]:
        s = one_root(rule, f)
        st["functions"] += 1
        st["blocks"] += s["blocks"]
        st["inlined"] += s["inlined"]
    c = rule.cls
    out.send(dict(alarms=rule.alarms, obl=rule.obl, requires=rule.requires, rets=rule.rets, over=rule.over,
                  not_inlined=rule.not_inlined, needs=rule.needs_ctx, bad=rule.bad_kind, ctx=c.ctx, celems=c.celems,
                  unresolved=c.unresolved, stats=st, extra=rule.extra()))
    out.close()


def spread(rule, roots):
    """Analyse the roots in parallel; results do not depend on the split."""
    import multiprocessing as mp
    roots = sorted(roots, key=lambda f: (-len(f.blocks), f.id))
    w = max(1, min(8, len(roots)))
    cx = mp.get_context("fork")
    ps = []
    for k in range(w):
        r, s = cx.Pipe(False)
        p = cx.Process(target=work, args=(rule, roots, k, w, s))
        p.start()
        s.close()
        ps.append((p, r))
    out = []
    for p, r in ps:
        try:
            out.append(r.recv())
        except EOFError:
            raise AnalysisBroken("an analysis worker failed")
        p.join()
    return out


def part_into(rule, part, stats):
    c = rule.cls
    for k, a in part["alarms"].items():
        rule.alarms.setdefault(k, a)
    for k, v in part["obl"].items():
        rule.obl[k] = rule.obl.get(k, True) and v
    for k, v in part["requires"].items():
        rule.requires.setdefault(k, set()).update(v)
    for k, v in part["rets"].items():
        rule.rets.setdefault(k, set()).update(v)
    rule.over += part["over"]
    rule.bad_kind |= part["bad"]
    rule.not_inlined |= part["not_inlined"]
    rule.needs_ctx |= part["needs"]
    for cls, tab in part["ctx"].items():
        for case in tab.values():
            c.put_case(c.ctx, cls, case)
    for k, s in part["celems"].items():
        c.add_elem(k, s)
    c.unresolved |= part["unresolved"]
    for k, v in part["stats"].items():
        stats[k] += v
    rule.absorb(part["extra"])
