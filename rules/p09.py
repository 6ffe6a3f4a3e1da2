"""P09: every part of the syntax tree is reached by walking and found by position.

For each node class, the function that lists children is interpreted: on every
path each owned part (a smart pointer to a node, or a list of them) is handed
out, unless the constructors prove it absent on that path; a loop over a list
part hands out something on every iteration.  The walk that records parents
must pass every child on with its parent and record the pair; the descent by
position must try every child and only enter one that contains the position;
containment of positions is decided case by case over all orderings."""
import absint
import treesafe
from absint import T, C, Rule, Engine, deref
from check import load_prog
from facts import AnalysisBroken

EXPLANATION = __doc__
ASSUMPTIONS = ["the desugared attribute view (SemaAttrs) is derived from the listed bindings and is not itself a part of the tree"]
NODE = "nixf::Node"


def strip(v):
    """The field a child pointer was read from, and the object it belongs to."""
    while v is not None and v.op in ("obj", "&", "D", "ver", "nonnull"):
        v = v.a[0]
    return v


def mentions(t, x, depth=0):
    if t == x:
        return True
    if not isinstance(t, absint.Term) or depth > 12:
        return False
    return any(mentions(a, x, depth + 1) for a in t.a if isinstance(a, absint.Term))


class Base(Rule):
    in_place = True
    max_states = 60

    def __init__(self, cls):
        super().__init__()
        self.cls = cls

    def stable(self, f):
        return f in self.cls.of_field and f not in self.cls.mutable

    def nn_default(self, eng, st, t):
        if t.op == "sel":
            return self.cls.field_nn(eng, st, t)
        return True if t.op == "this" else None

    def dom_default(self, eng, st, t):
        return self.cls.field_dom(eng, st, t) if t.op == "sel" else None

    def on_call(self, eng, st, fr, node, n, this, args):
        return [] if n.get("q") == "__assert_fail" else self.event(eng, st, fr, node, n, this, args)

    def on_decl(self, eng, st, fr, node, decl, loc, val):
        for h in fr.info.loop_blocks:
            t = fr.info.blocks[h].get("t")
            if t is not None and fr.fn.nodes[t]["k"] == "CXXForRangeStmt" and fr.fn.nodes[t].get("var") == decl:
                v = eng.read(st, loc)
                ty = fr.fn.types[fr.fn.decls[decl]["t"]]
                st.ts["el"] = eng.read(st, deref(v)) if ty.get("ref") else v
                st.ts["elloc"] = deref(v) if ty.get("ref") else loc

    def event(self, eng, st, fr, node, n, this, args):
        return None


class Kids(Base):
    """Which parts a children() function hands out."""

    def __init__(self, cls, parts):
        super().__init__(cls)
        self.parts = parts        # field -> "one" | "many"
        self.exits = []
        self.badloop = {}

    def got(self, st, v):
        v = strip(v)
        if v is None:
            return
        if v.op == "sel" and v.a[1] in self.parts and not any(
                mentions(v.a[0], T("sel", x, f)) for x in [v.a[0]] for f in ()):
            st.ts["have"] = st.ts.get("have", frozenset()) | {v.a[1]}
        st.ts["it"] = st.ts.get("it", frozenset()) | {v}

    def event(self, eng, st, fr, node, n, this, args):
        if n.get("fnm") in treesafe.LISTS + ("assign", "append"):
            for a in args:
                self.got(st, eng.rv(fr, st, a))
        elif n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and \
                "vector" in (n.get("cls") or ""):
            for x in fr.fn.walk(node):
                if fr.fn.nodes[x]["k"] == "InitListExpr":
                    for c in fr.fn.nodes[x]["ch"]:
                        self.got(st, eng.rv(fr, st, c))
        if (n.get("q") or "").startswith("std::") and n.get("fnm") in ("transform", "for_each", "copy") and args:
            v = eng.val(fr, st, args[0])
            for f, how in self.parts.items():
                if how == "many" and f.split("::")[-1] in str(v):
                    st.ts["have"] = st.ts.get("have", frozenset()) | {f}
        return None

    # loops over a list part
    def over(self, eng, st, fr, head):
        """The list part a loop runs over."""
        fn = fr.fn
        t = fr.info.blocks[head].get("t")
        if t is None:
            return None
        cond = fn.nodes[t]
        roots = [cond["range"]] if cond["k"] == "CXXForRangeStmt" else list(cond.get("ch", []))
        for r in roots:
            if r is None or r < 0:
                continue
            for x in fn.walk(r):
                n = fn.nodes[x]
                if n["k"] == "MemberExpr":
                    q = fn.decls[n["d"]].get("q")
                    if self.parts.get(q) == "many":
                        return q
                if n["k"] == "CXXMemberCallExpr" and n.get("inrepo"):
                    g = eng.prog.fns.get(n.get("fn"))
                    if g is not None and g.body >= 0:
                        for y in g.walk():
                            if g.nodes[y]["k"] == "MemberExpr":
                                q = g.decls[g.nodes[y]["d"]].get("q")
                                if self.parts.get(q) == "many":
                                    return q
        return None

    def on_loophead(self, eng, st, fr, head, first):
        st.ts["it"] = frozenset()

    def on_loop_pre(self, eng, st, fr, head, first):
        """A counting loop over a list part starts at the first element and goes to the last."""
        q = self.over(eng, st, fr, head) if first else None
        fn = fr.fn
        if q is None or any(q.split("::")[-1] in str(v) for v in st.ts.get("it", ())):
            return
        loop = fn.nodes[fr.info.blocks[head]["t"]]
        if loop["k"] == "CXXForRangeStmt":
            return
        cmps = [x for c in loop.get("ch", []) if c is not None and c >= 0 for x in fn.walk(c)
                if fn.nodes[x]["k"] == "BinaryOperator" and fn.nodes[x].get("op") in ("<", ">", "!=", "<=", ">=")]
        subs = set()
        for x in fn.walk(fr.info.blocks[head]["t"]):
            n = fn.nodes[x]
            if n.get("fnm") in ("operator[]", "at") or n["k"] == "ArraySubscriptExpr":
                subs |= {d for d in [self.var(fn, n["ch"][-1])] if d is not None}
        for x in cmps[:1]:
            n = fn.nodes[x]
            for a, b in (n["ch"], n["ch"][::-1]):
                d = self.var(fn, a)
                m = fn.nodes[a]
                while m["k"] in ("ImplicitCastExpr", "ParenExpr"):
                    m = fn.nodes[m["ch"][0]]
                if m["k"] == "BinaryOperator" and m.get("op") == "+":
                    if any(self.var(fn, y) in subs for y in m["ch"]) and \
                            any(fn.nodes[y].get("fnm") == "size" for y in fn.walk(b)) and n["op"] in ("<", ">", "!="):
                        self.badloop[(fn.id, head)] = "end"
                    continue
                if d is None or d not in subs or not any(fn.nodes[y].get("fnm") == "size" for y in fn.walk(b)):
                    continue
                v = eng.rv(fr, st, a)
                if v is not None and v.op == "c" and v.a[0] not in (0, False):
                    self.badloop[(fn.id, head)] = "start"
                if any(fn.nodes[y]["k"] == "BinaryOperator" and fn.nodes[y].get("op") == "-" for y in fn.walk(b)) and \
                        n["op"] in ("<", ">", "!="):
                    self.badloop[(fn.id, head)] = "end"

    @staticmethod
    def var(fn, x):
        """The variable an expression is, without casts and parentheses."""
        while x is not None and x >= 0:
            n = fn.nodes[x]
            if n["k"] == "DeclRefExpr":
                return n.get("d")
            if n["k"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "ExprWithCleanups") \
                    and len(n.get("ch", [])) == 1:
                x = n["ch"][0]
                continue
            return None
        return None

    def on_backedge(self, eng, st, fr, head):
        q = self.over(eng, st, fr, head)
        if q is None:
            return
        pushed = [v for v in st.ts.get("it", ()) if v.op == "call" or v.op == "sel" and v.a[0].op == "call" or
                  mentions(v, T("none")) or self.elementish(v)]
        if pushed:
            return
        # nothing handed out: the element has no node then
        ev = [t for k, t in st.facts.items() if k[0] == "dom"]
        if self.absent(eng, st, fr, head):
            return
        self.badloop[(fr.fn.id, head)] = fr.info.blocks[head].get("t")

    @staticmethod
    def elementish(v):
        while v.op in ("sel", "obj", "&", "D"):
            v = v.a[0]
        return v.op in ("call", "lp")

    def absent(self, eng, st, fr, head):
        """The element's own parts are provably null on this path."""
        fn = fr.fn
        t = fn.nodes[fr.info.blocks[head]["t"]]
        if t["k"] != "CXXForRangeStmt":
            return False
        d = fn.decls[t["var"]]
        ty = fn.types[d["t"]]
        loc = st.ts.get("elloc")
        if loc is None:
            return False
        rec = ty.get("rec")
        if ty.get("ptr") or rec in treesafe.SMART:
            return eng.nullness(st, eng.read(st, loc)) is False
        fs = [f for f, fty in self.cls.fty.get(rec, ()) if owns(self.cls, fty)]
        return bool(fs) and all(eng.nullness(st, eng.read(st, T("F", loc, f))) is False for f in fs)

    def on_edge(self, eng, st, fr, src, dst):
        lb = fr.info.loop_blocks
        for h in lb:
            if src in lb[h] and dst not in lb[h]:
                q = self.over(eng, st, fr, h)
                if q is not None and (src == h or fr.info.blocks[src].get("t") == fr.info.blocks[h].get("t")):
                    st.ts["have"] = st.ts.get("have", frozenset()) | {("loop", fr.fn.id, h, q)}

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        have = st.ts.get("have", frozenset())
        loops = {x[3] for x in have if isinstance(x, tuple) and (x[1], x[2]) not in self.badloop}
        bad = {x[3]: x for x in have if isinstance(x, tuple) and (x[1], x[2]) in self.badloop}
        for f, how in self.parts.items():
            if f in have or f in loops:
                self.exits.append((f, True, ""))
                continue
            v = eng.read(st, T("F", deref(T("this", fr.fn.cls)), f))
            if how == "one" and eng.nullness(st, v) is False:
                self.exits.append((f, True, "absent"))
                continue
            self.exits.append((f, False, "the loop over it leaves out an element" if f in bad else ""))


def is_node(cls, rec):
    return rec is not None and (rec == NODE or NODE in cls.supers(rec))


def owns(cls, ty):
    """one / many / None: does a field of this type own nodes?"""
    if ty.get("ptr") or ty.get("ref"):
        return None
    rec = ty.get("rec")
    args = ty.get("args") or []
    if rec in ("std::shared_ptr", "std::unique_ptr"):
        return "one" if args and is_node(cls, args[0].get("rec")) else None
    if rec in ("std::vector", "std::array", "std::list", "std::deque", "boost::container::small_vector",
               "llvm::SmallVector") and args:
        a = args[0]
        s = a.get("s", "")
        if a.get("rec") in ("std::shared_ptr", "std::unique_ptr"):
            inner = s[s.index("<") + 1:-1].replace("const ", "").strip()
            return "many" if is_node(cls, inner) else None
        if a.get("rec") in cls.prog.recs and not s.endswith("*") and not is_node(cls, a["rec"]):
            return "many" if any(owns(cls, t) == "one" for _, t in cls.fty[a["rec"]]) else None
    return None


def children(chk, prog, cls):
    n = 0
    for q in sorted(prog.recs):
        r = prog.recs[q]
        if not is_node(cls, q) or r.get("abstract"):
            continue
        fn = None
        for c in [q] + sorted(cls.supers(q), key=lambda x: -len(cls.supers(x))):
            fs = [f for f in prog.fns.values() if f.cls == c and f.n == "children" and f.cfg]
            if fs:
                fn = fs[0]
                break
        if fn is None:
            continue
        n += 1
        parts = {f: owns(cls, t) for f, t in cls.fty[q] if owns(cls, t)}
        rule = Kids(cls, parts)
        eng = Engine(prog, rule)
        eng.run_root(fn)
        res = {}
        for f, ok, why in rule.exits:
            o = res.get(f)
            res[f] = (ok and (o is None or o[0]), why if not ok else (o[1] if o else ""))
        for f in parts:
            ok, why = res.get(f, (False, "no path returns"))
            chk.obligation("part handed out as child", ok, "%s %s" % (fn.loc(), f))
            if not ok:
                chk.violation("%s | child %s" % (q, f.split("::")[-1]), fn.loc(), fn.q,
                              "the part %s of a %s is not among its children on some path%s" % (
                                  f.split("::")[-1], q.split("::")[-1], ": " + why if why else ""),
                              rule="part handed out as child")
    chk.count("node_classes", n)
    if n < 15:
        raise AnalysisBroken("only %d node classes found" % n)


# ---- the walk that records parents

class Walk(Base):
    """Facts about functions that loop over children()."""

    def __init__(self, cls, names):
        super().__init__(cls)
        self.names = names
        self.calls = []        # (caller, callee id, args)
        self.inserts = {}      # fn id -> list of (key, value, on every path?)
        self.bad = {}
        self.exits = {}
        self.loops = 0

    def inline(self, eng, fr, fn):
        return fn.id not in self.names

    def event(self, eng, st, fr, node, n, this, args):
        vs = [strip(eng.rv(fr, st, a)) for a in args]
        if n.get("fn") in self.names:
            st.ts["seen"] = st.ts.get("seen", frozenset()) | {("call", n["fn"]) + tuple(vs)}
        elif n.get("fnm") in treesafe.LISTS:
            pr = None
            if n["fnm"] in ("insert",) and args:
                b = deref(eng.val(fr, st, args[-1]))
                pr = [strip(eng.read(st, T("F", b, x))) for x in absint.PAIR]
            elif len(vs) >= 2:
                pr = vs[:2]
            if pr:
                st.ts["seen"] = st.ts.get("seen", frozenset()) | {("put",) + tuple(pr)}
            elif vs:
                st.ts["seen"] = st.ts.get("seen", frozenset()) | {("push",) + tuple(vs)}
        elif n.get("fnm") == "children":
            x = strip(this)
            st.ts["kids"] = x
        return None

    def on_assign(self, eng, st, fr, node, loc, val):
        if loc.op == "D" and loc.a[0].op == "call" and str(loc.a[0].a[0]).startswith("operator[]"):
            k = [strip(x) for x in loc.a[0].a[1:] if isinstance(x, absint.Term)]
            for x in k:
                st.ts["seen"] = st.ts.get("seen", frozenset()) | {("put", x, strip(val))}

    def on_loophead(self, eng, st, fr, head, first):
        st.ts["before"] = st.ts.get("seen", frozenset())
        if self.child_loop(fr, head) is not None:
            # elements of different iterations have the same name
            st.ts["before"] = st.ts["seen"] = frozenset(e for e in st.ts["before"] if not any(mentions_lp(x) for x in e))

    def child_loop(self, fr, head):
        fn = fr.fn
        t = fr.info.blocks[head].get("t")
        if t is None:
            return None
        n = fn.nodes[t]
        if n["k"] != "CXXForRangeStmt":
            return None
        for x in fn.walk(n["range"]):
            if fn.nodes[x].get("fnm") == "children":
                return n
        return None

    def on_backedge(self, eng, st, fr, head):
        n = self.child_loop(fr, head)
        if n is None:
            return
        self.loops += 1
        c = st.ts.get("el")
        if c is None:
            return
        if eng.nullness(st, c) is False:
            return
        c = strip(c)
        new = st.ts.get("seen", frozenset()) - st.ts.get("before", frozenset())
        par = st.ts.get("kids")
        passed = [e for e in new if c in e]
        ok = any(e[0] == "call" and par in e for e in passed) or \
            any(e[0] == "put" and e[1] == c and e[2] == par for e in passed) and \
            any(e[0] in ("call", "push") for e in passed)
        self.calls += [(fr.fn, e, c, par) for e in passed if e[0] == "call" and par in e]
        if not ok:
            self.bad[(fr.fn.id, head)] = (fr.fn, fr.fn.nodes[fr.info.blocks[head]["t"]].get("l"),
                                          "a child is not passed on together with its parent")

    def on_edge(self, eng, st, fr, src, dst):
        lb = fr.info.loop_blocks
        for h in lb:
            if src in lb[h] and dst not in lb[h] and self.child_loop(fr, h) is not None:
                if src != h:
                    if dst in fr.info.blocks and not fr.info.blocks[dst].get("el") and False:
                        continue
                    self.bad[(fr.fn.id, h)] = (fr.fn, fr.fn.nodes[fr.info.blocks[h]["t"]].get("l"),
                                               "the loop over the children can end early")

    def on_exit(self, eng, st, fr):
        if fr.parent is None:
            ps = [T("param", fr.fn.id, j) for j in range(len(fr.fn.params))]
            self.exits.setdefault(fr.fn.id, []).append(
                (st.ts.get("seen", frozenset()), [eng.nullness(st, p) for p in ps], [strip(p) for p in ps],
                 st.ts.get("kids")))


def parents(chk, prog, cls):
    fns = [f for f in prog.fns.values() if f.cfg and f.cls == "nixf::ParentMapAnalysis"]
    walkers = {f.id for f in fns if any(n and n.get("fnm") == "children" for n in f.nodes)}
    if not walkers:
        raise AnalysisBroken("no function of ParentMapAnalysis walks children")
    todo = [f for f in fns if f.id in walkers or any(n and n.get("fn") in walkers for n in f.nodes)]
    bad = {}
    nl = 0
    roots = 0
    for f in todo:
        rule = Walk(cls, walkers)
        eng = Engine(prog, rule)
        eng.run_root(f)
        nl += rule.loops
        bad.update(rule.bad)
        for g, e, c, par in rule.calls:
            # the callee records (child, parent) whenever the child is there
            h = prog.fns[e[1]]
            i, j = e[2:].index(c), e[2:].index(par)
            r2 = rule if h is f else None
            if r2 is None:
                r2 = Walk(cls, walkers)
                Engine(prog, r2).run_root(h)
            for seen, nulls, ps, kids in r2.exits.get(h.id, []):
                if nulls[i] is False:
                    continue
                if not any(x[0] == "put" and x[1] == ps[i] and x[2] == ps[j] for x in seen):
                    bad[(h.id, -1)] = (h, h.l, "a node is visited without its parent being recorded")
                if kids != ps[i]:
                    bad[(h.id, -2)] = (h, h.l, "a node is visited without its children being visited")
        if f.id not in walkers:
            # entry: the root is its own parent
            roots += 1
            for seen, nulls, ps, kids in rule.exits.get(f.id, []):
                if not any(x[0] == "call" and len(set(x[2:])) == 1 and x[2] in ps for x in seen):
                    bad[(f.id, -3)] = (f, f.l, "the walk is not started at the root with itself as parent")
    chk.obligation("every child walked with its parent", not bad, "nixf::ParentMapAnalysis")
    for k, (f, line, msg) in sorted(bad.items(), key=str):
        chk.violation("%s | %s" % (f.q, msg), "%s:%s" % (f.rel(), line), f.q, msg, rule="every child walked with its parent")
    chk.count("child_loops", nl)


# ---- upward search

class Up(Base):
    def __init__(self, cls, stop):
        super().__init__(cls)
        self.stop = stop
        self.rets = []

    def inline(self, eng, fr, fn):
        return fn.n not in self.stop

    def on_exit(self, eng, st, fr):
        if fr.parent is None:
            v = st.env.get(T("RET", eng.fid(fr)))
            if v is not None:
                self.rets.append((st, v))


def upward(chk, prog, cls):
    ek = {v["n"]: v["v"] for v in prog.enums["nixf::Node::NodeKind"]["vals"]}
    for name in ("upTo", "upExpr"):
        for f in prog.fns.values():
            if f.cls != "nixf::ParentMapAnalysis" or f.n != name or not f.cfg:
                continue
            rule = Up(cls, ("query", name))
            eng = Engine(prog, rule)
            eng.run_root(f)
            me = T("param", f.id, 0)
            kind = T("sel", T("obj", me), treesafe.KIND)
            k0 = None
            msg = None
            for st, v in rule.rets:
                kt = eng.read(st, T("F", deref(me), treesafe.KIND))
                if name == "upTo":
                    fit = eng.truth(st, eng.mkcmp(st, "==", kt, T("param", f.id, 1)))
                else:
                    lo = eng.cmp_truth(st, ">=", kt, C(ek["NK_BeginExpr"]))
                    hi = eng.cmp_truth(st, "<=", kt, C(ek["NK_EndExpr"]))
                    fit = False if False in (lo, hi) else (True if lo and hi else None)
                if strip(v) == me:
                    if fit is not True:
                        msg = "returns the start although its kind does not fit"
                elif v.op == "null":
                    if fit is not False:
                        msg = "gives up although the start may be what is searched"
                    up = [k[1] for k in st.facts if k[0] in ("nn", "eq") and isinstance(k[1], absint.Term)]
                    gone = any(k[0] == "nn" and x is False and k[1].op == "call" and k[1].a[0].startswith("query")
                               for k, x in st.facts.items()) or \
                        any(k[0] == "eq" and x is True and k[1].op == "pair" and me in k[1].a and
                            any(y.op == "call" and y.a[0].startswith("query") for y in k[1].a) for k, x in st.facts.items())
                    if not gone and not any(h for h in [f.memo] if False):
                        msg = "gives up although there is a parent"
                elif not (v.op == "call" and v.a[0].startswith(name)):
                    if fit is not False and not mentions_lp(v):
                        msg = "returns another node although the start may be what is searched"
                else:
                    if fit is not False:
                        msg = "goes on to the parent although the start may be what is searched"
                    if not any(called(x, "query") for x in v.a[1:] if isinstance(x, absint.Term)):
                        msg = "does not continue at the parent"
            looping = any(v.op == "lp" or mentions_lp(v) for _, v in rule.rets)
            if looping:
                msg = None      # an iterative search: results are judged by P07
            chk.obligation("upward search stops at the nearest fitting node", msg is None, f.loc())
            if msg:
                chk.violation("%s | upward" % f.q, f.loc(), f.q, msg, rule="upward search")


def called(t, name, d=0):
    """A call of the function appears in the term."""
    if not isinstance(t, absint.Term) or d > 10:
        return False
    return t.op == "call" and str(t.a[0]).startswith(name) or any(called(a, name, d + 1) for a in t.a)


def mentions_lp(t, d=0):
    if not isinstance(t, absint.Term) or d > 10:
        return False
    return t.op == "lp" or any(mentions_lp(a, d + 1) for a in t.a if isinstance(a, absint.Term))


# ---- descent by position

class Down(Base):
    def __init__(self, cls):
        super().__init__(cls)
        self.bad = {}
        self.rets = 0
        self.tried = 0

    def inline(self, eng, fr, fn):
        return fn.n not in ("contains", "descend", "positionRange", "range", "children", "lCur", "rCur")

    def event(self, eng, st, fr, node, n, this, args):
        if n.get("fnm") in ("positionRange", "range") and this is not None:
            st.ts["pr"] = st.ts.get("pr", frozenset()) | {strip(this)}
            st.ts["lastpr"] = strip(this)
        return None

    def after_call(self, eng, st, fr, node, n, this, args, val):
        if n.get("fnm") == "contains" and val is not None:
            st.ts["con"] = st.ts.get("con", frozenset()) | {(st.ts.get("lastpr"), val)}

    def state_of(self, eng, st, x):
        r = [eng.truth(st, v) for o, v in st.ts.get("con", ()) if o == x]
        r = [v for v in r if v is not None]
        return r[-1] if r else None

    def on_backedge(self, eng, st, fr, head):
        n = Walk.child_loop(self, fr, head)
        if n is None:
            return
        c = st.ts.get("el")
        if c is None:
            return
        self.tried += 1
        if eng.nullness(st, c) is False or self.state_of(eng, st, strip(c)) is False:
            return
        self.bad["skip"] = (fr.fn, n.get("l"), "a child that contains the position is passed over")

    def on_edge(self, eng, st, fr, src, dst):
        lb = fr.info.loop_blocks
        for h in lb:
            if src in lb[h] and dst not in lb[h] and src != h and Walk.child_loop(self, fr, h) is not None:
                st.ts["early"] = True

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        v = st.env.get(T("RET", eng.fid(fr)))
        if v is None:
            return
        self.rets += 1
        if st.ts.get("early") and (v.op == "null" or strip(v) == T("this", fr.fn.cls)):
            self.bad["early"] = (fr.fn, fr.fn.l, "the search ends before every child was tried")
        me = T("this", fr.fn.cls)
        fn = fr.fn
        if v.op == "null":
            if self.state_of(eng, st, me) is not False:
                self.bad["null"] = (fn, fn.l, "nothing is found although the node contains the position")
        elif strip(v) == me:
            if self.state_of(eng, st, me) is not True:
                self.bad["this"] = (fn, fn.l, "the node is returned although it may not contain the position")
        elif v.op == "call" and v.a[0].startswith("descend"):
            c = strip(v.a[1]) if len(v.a) > 1 else None
            if self.state_of(eng, st, c) is not True:
                self.bad["child"] = (fn, fn.l, "a child is entered that may not contain the position")
        elif st.ts.get("early") and st.ts.get("el") is not None and strip(v) == strip(st.ts["el"]):
            self.bad["shallow"] = (fn, fn.l, "the search stops at a child without looking inside it")


def down(chk, prog, cls):
    for f in prog.fns.values():
        if f.cls != NODE or f.n != "descend" or not f.cfg:
            continue
        rule = Down(cls)
        eng = Engine(prog, rule)
        eng.run_root(f)
        chk.obligation("descent tries every child", not rule.bad, f.loc())
        for k, (g, line, msg) in sorted(rule.bad.items()):
            chk.violation("%s | %s" % (g.q, msg), "%s:%s" % (g.rel(), line), g.q, msg, rule="descent by position")


ORD = ("<", "==", ">")


def positions(chk, prog, cls):
    """Comparison and containment over all orderings of lines and columns."""
    LINE, COL = "nixf::Position::Line", "nixf::Position::Column"

    def order(st, eng, a, b, lo, co):
        x, y = (eng.read(st, T("F", a, LINE)), eng.read(st, T("F", b, LINE)))
        eng.assume_cmp(st, lo, x, y, True)
        x, y = (eng.read(st, T("F", a, COL)), eng.read(st, T("F", b, COL)))
        eng.assume_cmp(st, co, x, y, True)

    def lex(lo, co):
        return lo if lo != "==" else co
    want = {"operator<": lambda o: o == "<", "operator<=": lambda o: o != ">", "operator==": lambda o: o == "==",
            "operator>": lambda o: o == ">", "operator>=": lambda o: o != "<", "operator!=": lambda o: o != "=="}

    def result(f, init):
        rule = Up(cls, ())
        eng = Engine(prog, rule)
        eng.run_root(f, init)
        return {eng.truth(st, v) for st, v in rule.rets}
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.n in want and f.cfg and len(f.params) == 2 and \
                all(f.types[f.decls[p]["t"]].get("rec") == "nixf::Position" for p in f.params):
            def loc(j):
                ty = f.types[f.decls[f.params[j]]["t"]]
                return deref(T("param", f.id, j))
            for lo in ORD:
                for co in ORD:
                    def init(eng, st, fr):
                        order(st, eng, deref(T("param", f.id, 0)), deref(T("param", f.id, 1)), lo, co)
                    got = result(f, init)
                    exp = want[f.n](lex(lo, co))
                    ok = got == {exp}
                    n += 1
                    chk.obligation("position order", ok, "%s line %s column %s" % (f.q, lo, co))
                    if not ok:
                        chk.violation("%s | line %s, column %s" % (f.q, lo, co), f.loc(), f.q,
                                      "for line %s and column %s the result is %s, expected %s" % (lo, co, got, exp),
                                      rule="position order")
        if f.q == "nixf::PositionRange::contains" and f.cfg:
            B, E = "nixf::PositionRange::Begin", "nixf::PositionRange::End"
            this = deref(T("this", f.cls))
            for a in [(l, c) for l in ORD for c in ORD]:
                for b in [(l, c) for l in ORD for c in ORD]:
                    def init(eng, st, fr):
                        p = deref(T("param", f.id, 0))
                        order(st, eng, T("F", this, B), T("F", p, B), *a)
                        order(st, eng, T("F", p, E), T("F", this, E), *b)
                    got = result(f, init)
                    exp = lex(*a) != ">" and lex(*b) != ">"
                    n += 1
                    ok = got == {exp}
                    chk.obligation("containment", ok, "")
                    if not ok:
                        chk.violation("%s | containment" % f.q, f.loc(), f.q,
                                      "begin %s%s, end %s%s: %s, expected %s" % (a + b + (got, exp)), rule="containment")
    chk.count("orderings", n)


def run(chk):
    prog = load_prog(["parse", "basic", "sema", "gen"])
    cls = treesafe.Classes(prog)
    children(chk, prog, cls)
    parents(chk, prog, cls)
    upward(chk, prog, cls)
    down(chk, prog, cls)
    positions(chk, prog, cls)
