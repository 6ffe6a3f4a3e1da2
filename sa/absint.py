"""Path-sensitive abstract interpreter over the clang CFGs in the fact base.

Property simulation: every block holds a bounded set of abstract states. A
state maps locations to interned symbolic terms and carries facts about terms
(nullness, truth, finite enum domains, constant bounds, rule typestates).
Repository callees are inlined within a bound, so extracting a helper does not
change what a rule sees; everything not understood evaluates to a fresh symbol
about which nothing is known.  There is no solver: facts are only ever compared
with constants.  Loop heads forget every location assigned in the loop.
"""
import sys
sys.setrecursionlimit(20000)


# --------------------------------------------------------------------------
# terms
class Term:
    __slots__ = ("op", "a", "vol", "root", "n")
    _tab = {}
    _cnt = 0

    def __repr__(self):
        return pretty(self)

    def __lt__(self, o):
        return self.n < o.n


VOLATILE = ("r", "lp", "mrg", "undef", "new", "wrap", "err")


def T(op, *a):
    key = (op,) + a
    t = Term._tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        Term._cnt += 1
        t.n = Term._cnt
        vol = None
        for x in a:
            if isinstance(x, Term) and x.vol:
                vol = x.vol if vol is None else (vol | x.vol)
        if op in VOLATILE:
            vol = (vol or frozenset()) | {t}
        t.vol = vol
        # root frame of a location
        t.root = None
        if op in ("V", "TMP", "RET", "THISV"):
            t.root = a[0]
        elif op == "F" or op == "E":
            t.root = a[0].root
        Term._tab[key] = t
    return t


def C(v):
    return T("c", v)


NULL = T("null")
TRUE = C(1)
FALSE = C(0)


def addr(loc):
    return loc.a[0] if loc.op == "D" else T("&", loc)


def deref(p):
    return p.a[0] if p.op == "&" else T("D", p)


def pretty(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 6:
        return "..."
    if t.op == "c":
        return str(t.a[0])
    if t.op == "sel":
        return "%s.%s" % (pretty(t.a[0], d + 1), str(t.a[1]).split("::")[-1])
    if t.op == "F":
        return "%s.%s" % (pretty(t.a[0], d + 1), str(t.a[1]).split("::")[-1])
    if t.op == "obj":
        return pretty(t.a[0], d + 1)
    if t.op == "D":
        return "*" + pretty(t.a[0], d + 1)
    if t.op == "V":
        return str(t.a[1])
    return "%s(%s)" % (t.op, ",".join(pretty(x, d + 1) for x in t.a))


PAIR = ("std::pair::first", "std::pair::second")


class State:
    __slots__ = ("env", "facts", "vals", "ts")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.vals = {}
        self.ts = {}

    def clone(self):
        s = State()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.vals = dict(self.vals)
        s.ts = dict(self.ts)
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()),
                frozenset(self.vals.items()), frozenset(self.ts.items()))


# --------------------------------------------------------------------------
# per-function preprocessing
class FnInfo:
    def __init__(self, fn):
        self.fn = fn
        self.blocks = fn.blocks
        self.entry = fn.cfg["entry"]
        self.exit = fn.cfg["exit"]
        self._loops()
        self._cross()
        self._live()

    def _loops(self):
        b = self.blocks
        color = {}
        self.back = set()
        order = []
        stack = [(self.entry, iter([x for x in b[self.entry]["s"] if x >= 0]))]
        color[self.entry] = 1
        while stack:
            u, it = stack[-1]
            adv = False
            for v in it:
                if color.get(v, 0) == 0:
                    color[v] = 1
                    stack.append((v, iter([x for x in b[v]["s"] if x >= 0])))
                    adv = True
                    break
                elif color[v] == 1:
                    self.back.add((u, v))
            if not adv:
                color[u] = 2
                order.append(u)
                stack.pop()
        order.reverse()
        self.rpo = {x: i for i, x in enumerate(order)}
        preds = {}
        for u in b:
            for v in b[u]["s"]:
                if v >= 0:
                    preds.setdefault(v, set()).add(u)
        self.preds = preds
        self.loop_blocks = {}
        for u, h in self.back:
            body = self.loop_blocks.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds.get(x, ()))
        self.loop_mods = {}
        self.loop_named = {}

    def _cross(self):
        fn = self.fn
        where = {}
        for bid, b in self.blocks.items():
            for e in b["e"]:
                if isinstance(e, int):
                    where.setdefault(e, bid)
        self.where = where
        users = {}
        for bid, b in self.blocks.items():
            for e in b["e"]:
                if isinstance(e, int):
                    self._uses(e, bid, users, where)
                elif e[0] == "init" and e[2] is not None:
                    self._use1(e[2], bid, users, where)
            if "lc" in b:
                self._use1(b["lc"], bid, users, where)
            if "tc" in b:
                self._use1(b["tc"], bid, users, where)
        self.cross = {}
        for s, bs in users.items():
            w = where.get(s)
            o = {x for x in bs if x != w}
            if o:
                self.cross[s] = o

    def _use1(self, c, bid, users, where, depth=0):
        if c is None or c < 0:
            return
        users.setdefault(c, set()).add(bid)
        if c not in where and depth < 12:
            for d in self.fn.nodes[c].get("ch", []):
                self._use1(d, bid, users, where, depth + 1)

    def _uses(self, e, bid, users, where):
        n = self.fn.nodes[e]
        for c in n.get("ch", []):
            self._use1(c, bid, users, where)

    def _live(self):
        """Block-level liveness of local variables (decl ids)."""
        fn = self.fn
        pinned = set()
        for i, n in enumerate(fn.nodes):
            if not n:
                continue
            if n["k"] == "DeclStmt":
                for v in n.get("vars", []):
                    t = fn.types[fn.decls[v["d"]]["t"]] if fn.decls[v["d"]]["t"] >= 0 else {}
                    if (t.get("ref") or t.get("ptr") or t.get("rec")) and "init" in v:
                        for x in fn.walk(v["init"]):
                            if fn.nodes[x]["k"] == "DeclRefExpr":
                                pinned.add(fn.nodes[x]["d"])
                    for bd in v.get("binds", []):
                        pinned.add(v["d"])
                        pinned.add(bd)
            elif n["k"] == "LambdaExpr":
                for c in n.get("caps", []):
                    if "d" in c:
                        pinned.add(c["d"])
                    if "init" in c:
                        for x in fn.walk(c["init"]):
                            if fn.nodes[x]["k"] == "DeclRefExpr":
                                pinned.add(fn.nodes[x]["d"])
        uses, defs = {}, {}
        for bid, b in self.blocks.items():
            u, d = set(), set()
            for e in b["e"]:
                if isinstance(e, int):
                    n = fn.nodes[e]
                    if n["k"] == "DeclRefExpr":
                        if n["d"] not in d:
                            u.add(n["d"])
                    elif n["k"] == "DeclStmt":
                        for v in n.get("vars", []):
                            d.add(v["d"])
                elif e[0] == "dtor":
                    if e[1] not in d:
                        u.add(e[1])
                elif e[0] == "init":
                    for x in fn.walk(e[2]):
                        if fn.nodes[x]["k"] == "DeclRefExpr":
                            u.add(fn.nodes[x]["d"])
            for key in ("lc", "tc"):
                if key in b:
                    for x in fn.walk(b[key]):
                        if fn.nodes[x]["k"] == "DeclRefExpr" and fn.nodes[x]["d"] not in d:
                            u.add(fn.nodes[x]["d"])
            uses[bid], defs[bid] = u, d
        live = {b: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for bid, b in self.blocks.items():
                out = set()
                for s in b["s"]:
                    if s >= 0:
                        out |= live[s]
                ni = uses[bid] | (out - defs[bid])
                if ni != live[bid]:
                    live[bid] = ni
                    ch = True
        self.live = live
        self.pinned = pinned


def fninfo(fn):
    i = fn.memo.get("info")
    if i is None:
        i = fn.memo["info"] = FnInfo(fn)
    return i


# --------------------------------------------------------------------------
PTR_CLASSES = ("std::shared_ptr", "std::unique_ptr", "std::optional",
               "llvm::Expected", "std::__shared_ptr", "llvm::unique_function",
               "std::function", "std::__shared_ptr_access", "std::weak_ptr",
               "std::_Optional_base", "std::_Optional_payload_base")
IDENT_FUNCS = ("std::move", "std::forward", "std::as_const", "std::addressof",
               "std::static_pointer_cast", "std::const_pointer_cast",
               "std::__addressof", "std::reinterpret_pointer_cast",
               "llvm::cantFail", "std::ref", "std::cref",
               "__builtin_expect", "__builtin_expect_with_probability")


class Rule:
    """Hooks; every one may be overridden."""
    max_states = 40
    max_depth = 6
    max_inline_blocks = 60
    join_exits = False    # merge the exit states of an inlined call per result
    join_above = 1        # ... when there are more than this many
    keep_fact = None      # predicate: facts to keep across blocks
    cut = frozenset()     # functions never inlined; recursion through them does not count
    peel = False          # analyse the first iteration of loops separately
    split_bools = False
    # keep, at a loop head, whether an optional or pointer the loop changes is set
    loop_nullness = False
    linear_facts = False  # remember inequalities between sums of several terms

    def __init__(self):
        self.alarms = {}

    def alarm(self, eng, fr, node, msg, inst=None):
        fn = fr.fn
        key = (fn.id, node if node is not None else -1, inst or msg)
        if key not in self.alarms:
            self.alarms[key] = dict(
                file=fn.rel(), line=(fn.nodes[node].get("l", fn.l) if node is not None and node >= 0 else fn.l),
                func=fn.q, msg=msg, inst=inst or msg,
                path=[f.fn.q + ":" + str(f.line) for f in fr.chain()])

    def inline(self, eng, fr, fn):
        return True

    def on_call(self, eng, st, fr, node, n, this, args):
        """Return None, or a list of (state, value) to replace the call."""
        return None

    def after_call(self, eng, st, fr, node, n, this, args, val):
        pass

    def on_deref(self, eng, st, fr, node, ptr):
        pass

    def on_field(self, eng, st, fr, node, base, field):
        pass

    def on_assign(self, eng, st, fr, node, loc, val):
        pass

    def on_dtor(self, eng, st, fr, decl, loc):
        pass

    def on_decl(self, eng, st, fr, node, decl, loc, val):
        pass

    def on_return(self, eng, st, fr, node, val):
        pass

    def on_exit(self, eng, st, fr):
        pass

    def on_cast(self, eng, st, fr, node, n, val):
        pass

    def on_element(self, eng, st, fr, node, n):
        pass

    def on_assume(self, eng, st, fr, cond, truth):
        """After a branch was refined; may adjust st. Return False: infeasible."""
        return True

    def on_backedge(self, eng, st, fr, head):
        pass

    def on_loop_pre(self, eng, st, fr, head, first):
        pass

    def on_loophead(self, eng, st, fr, head, first):
        pass

    def nonneg(self, t):
        """May t be assumed >= 0 (sizes, unsigned offsets)?"""
        return t.op == "call" and t.a[0] in ("size", "length")

    def on_merge(self, eng, st, fr, bid, group):
        pass

    # construct make_shared/make_unique/make_optional objects by running
    # their constructor
    in_place = False
    # predicate: fields no function writes after construction
    stable = None

    def on_element_read(self, eng, st, fr, node, loc, ty):
        """A container element (or half of a pair in one) is named."""

    def on_construct(self, eng, st, fr, node, cls, loc):
        """An object of a repository class was just constructed at loc."""

    def dom_default(self, eng, st, t):
        """Finite domain of a term nothing was learnt about."""
        return None

    def nn_default(self, eng, st, t):
        """Nullness of a value nothing is recorded about."""
        return None

    def on_edge(self, eng, st, fr, src, dst):
        """A block was left; values not used any more were dropped."""

    def on_symbol_killed(self, st, vol):
        pass

    def on_escape_lambda(self, eng, st, fr, node, lam):
        """A closure handed to code we do not see; default: analyse it now."""
        return True


class Frame:
    __slots__ = ("fn", "id", "parent", "node", "depth", "line", "info", "caps", "ids")

    def __init__(self, fn, parent, node):
        self.fn = fn
        self.parent = parent
        self.node = node
        self.depth = 0 if parent is None else parent.depth + 1
        self.id = ((parent.id if parent else ()) + ((fn.id, node),))
        self.line = fn.l
        self.info = fninfo(fn)
        self.caps = None

    def chain(self):
        out = []
        f = self
        while f:
            out.append(f)
            f = f.parent
        return out[::-1]


class FrameId:
    """Interned frame identity usable inside terms."""
    _tab = {}

    @classmethod
    def get(cls, key):
        v = cls._tab.get(key)
        if v is None:
            v = cls._tab[key] = len(cls._tab)
        return v


class Budget(Exception):
    pass


def passed_in(t):
    if t.op == "obj":
        t = t.a[0]
    return t.op in ("param", "this")


class Engine:
    def __init__(self, prog, rule, immutable=()):
        self.prog = prog
        self.rule = rule
        self.stats = dict(functions=0, states=0, inlined=0, blocks=0, merges=0, budget=0)
        self.step_budget = 400000
        self._modcache = {}
        self._overriders = None
        self._ctors = None
        self.frames = {}

    # -- locations ---------------------------------------------------------
    def fid(self, fr):
        return FrameId.get(fr.id)

    def read(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc.op == "F":
            if loc.a[0].op == "G":
                return T("glob", loc)
            b = self.read(st, loc.a[0])
            return T("sel", b, loc.a[1])
        if loc.op == "D":
            return T("obj", loc.a[0])
        if loc.op == "G":
            return T("glob", loc.a[0])
        return T("undef", loc)

    def write(self, st, loc, val):
        self.drop_overlay(st, loc)
        st.env[loc] = val
        if loc.op == "F":
            # may alias the same field of an object reached differently
            f = loc.a[1]
            for k in list(st.env):
                if k.op == "F" and k.a[1] is f or (k.op == "F" and k.a[1] == f):
                    if k is not loc and not self.distinct(k.a[0], loc.a[0]):
                        del st.env[k]
                        st.env[k] = T("mrg", "alias", k)

    def distinct(self, a, b):
        def base(x):
            while x.op in ("F", "E"):
                x = x.a[0]
            return x
        x, y = base(a), base(b)
        if x is y:
            return a is not b  # different sub-objects of one object
        if x.op in ("V", "TMP", "RET", "G") or y.op in ("V", "TMP", "RET", "G"):
            return True
        # two opaque objects: 'this' of the analysed class vs. others is the
        # only case in this code base; treat as distinct objects.
        return True

    def drop_overlay(self, st, loc):
        if loc.op in ("V", "TMP", "RET", "D", "F", "G", "E"):
            for k in [k for k in st.env if k.op in ("F", "E") and self.under(k, loc)]:
                del st.env[k]

    @staticmethod
    def under(k, loc):
        while k.op in ("F", "E"):
            k = k.a[0]
            if k is loc:
                return True
        return False

    def copy_object(self, st, dst, src):
        if dst is src:
            return
        v = self.read(st, src)
        over = []
        for k, x in st.env.items():
            if k.op in ("F", "E") and self.under(k, src):
                over.append((k, x))
        self.write(st, dst, v)
        for k, x in over:
            st.env[self.rebase(k, src, dst)] = x

    def rebase(self, k, src, dst):
        if k is src:
            return dst
        return T(k.op, self.rebase(k.a[0], src, dst), *k.a[1:])

    def fresh(self, st, fr, node, tag=""):
        t = T("r", self.fid(fr), node, tag)
        self.kill_symbol(st, t)
        return t

    def kill_symbol(self, st, t):
        """A symbol is about to be re-created: rename its previous self."""
        hit = [k for k, v in st.env.items()
               if (v.vol and t in v.vol) or (k.vol and t in k.vol)]
        for k in hit:
            v = st.env.pop(k)
            if not (k.vol and t in k.vol):
                st.env[k] = T("mrg", "old", k)
        for k in [k for k in st.facts if k[1].vol and t in k[1].vol]:
            del st.facts[k]
        for k in [k for k, v in st.vals.items() if isinstance(v, Term) and v.vol and t in v.vol]:
            del st.vals[k]
        self.rule.on_symbol_killed(st, t)

    def havoc(self, st, loc, fr, node, tag, keep=False):
        kept = []
        if keep and self.rule.stable is not None:
            kept = [(k, v) for k, v in st.env.items()
                    if k.op == "F" and self.under(k, loc) and self.rule.stable(k.a[1])]
        self.drop_overlay(st, loc)
        st.env[loc] = self.fresh(st, fr, node, tag)
        for k, v in kept:
            st.env[k] = v

    # -- facts -------------------------------------------------------------
    def nullness(self, st, t):
        """True: known non-null, False: known null, None: unknown."""
        if t.op == "null":
            return False
        if t.op in ("&", "new", "str", "lam"):
            return True
        if t.op == "c":
            return t.a[0] != 0
        r = st.facts.get(("nn", t))
        return self.rule.nn_default(self, st, t) if r is None else r

    def truth(self, st, c):
        if c is None:
            return None
        if c.op == "c":
            return bool(c.a[0])
        if c.op == "null":
            return False
        if c.op in ("&", "new", "str", "lam"):
            return True
        if c.op == "not":
            r = self.truth(st, c.a[0])
            return None if r is None else not r
        if c.op == "nonnull":
            return self.nullness(st, c.a[0])
        if c.op == "and":
            a, b = self.truth(st, c.a[0]), self.truth(st, c.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if c.op == "or":
            a, b = self.truth(st, c.a[0]), self.truth(st, c.a[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if c.op == "cmp":
            return self.cmp_truth(st, *c.a)
        r = st.facts.get(("nn", c))
        if r is not None:
            return r
        d = self.dom(st, c)
        if d:
            if d[0] == "in":
                if 0 not in d[1]:
                    return True
                if d[1] == frozenset([0]):
                    return False
            elif 0 in d[1]:
                return True
        lo, hi = self.bounds(st, c)
        if lo is not None and lo > 0:
            return True
        if hi is not None and hi < 0:
            return True
        return None

    def dom(self, st, t):
        d = st.facts.get(("dom", t))
        return self.rule.dom_default(self, st, t) if d is None else d

    def bounds(self, st, t):
        if t.op == "c":
            return t.a[0], t.a[0]
        if t.op == "+" and isinstance(t.a[1], int):
            lo, hi = self.bounds(st, t.a[0])
            return (None if lo is None else lo + t.a[1],
                    None if hi is None else hi + t.a[1])
        lo = st.facts.get(("lo", t))
        hi = st.facts.get(("hi", t))
        d = self.dom(st, t)
        if d and d[0] == "in" and d[1]:
            l2, h2 = min(d[1]), max(d[1])
            lo = l2 if lo is None else max(lo, l2)
            hi = h2 if hi is None else min(hi, h2)
        elif d and d[0] == "notin":
            while lo is not None and lo in d[1]:
                lo += 1
            while hi is not None and hi in d[1]:
                hi -= 1
        return lo, hi

    def cmp_truth(self, st, op, a, b):
        if a is b and op in ("==", "<=", ">="):
            return True
        if a is b and op in ("!=", "<", ">"):
            return False
        if op in ("==", "!="):
            eq = None
            if a.op == "null" or b.op == "null":
                x = b if a.op == "null" else a
                n = self.nullness(st, x)
                eq = None if n is None else not n
            elif a.op == "new" and passed_in(b) or b.op == "new" and passed_in(a):
                eq = False     # an object made here is not one that was passed in
            elif a.op == "c" and b.op == "c":
                eq = a.a[0] == b.a[0]
            else:
                if a.op == "c":
                    a, b = b, a
                if b.op == "c":
                    d = self.dom(st, a)
                    if d:
                        if d[0] == "in":
                            if b.a[0] not in d[1]:
                                eq = False
                            elif len(d[1]) == 1:
                                eq = True
                        elif b.a[0] in d[1]:
                            eq = False
                    if eq is None:
                        lo, hi = self.bounds(st, a)
                        if lo is not None and b.a[0] < lo or hi is not None and b.a[0] > hi:
                            eq = False
                if eq is None:
                    eq = st.facts.get(("eq", T("pair", *sorted((a, b)))))
                if eq is None and a.op == "call" and b.op == "call":
                    f, e = (a, b) if a.a[0] == "find" else (b, a)
                    if f.a[0] == "find" and e.a[0] == "end" and len(f.a) == 3 and f.a[1:2] == e.a[1:2]:
                        c = st.facts.get(("nn", T("call", "contains", *f.a[1:])))
                        eq = None if c is None else not c
                if eq is None and (a.op in ("+", "ar") or b.op in ("+", "ar")):
                    d1, d2 = self.diff_lb(st, a, b), self.diff_lb(st, b, a)
                    if d1 is not None and d1 > 0 or d2 is not None and d2 > 0:
                        eq = False
                if eq is None:
                    d1, d2 = (st.facts.get(("diff", T("pair", x, y))) for x, y in ((a, b), (b, a)))
                    if d1 is not None and d1 > 0 or d2 is not None and d2 > 0:
                        eq = False
                    elif d1 == 0 and d2 == 0:
                        eq = True
            if eq is None:
                return None
            return eq if op == "==" else not eq
        la, ha = self.bounds(st, a)
        lb, hb = self.bounds(st, b)
        if op in (">", ">="):
            la, ha, lb, hb = lb, hb, la, ha
            op = "<" if op == ">" else "<="
            a, b = b, a
        if op == "<":
            if ha is not None and lb is not None and ha < lb:
                return True
            if la is not None and hb is not None and la >= hb:
                return False
        else:
            if ha is not None and lb is not None and ha <= lb:
                return True
            if la is not None and hb is not None and la > hb:
                return False
        need = 1 if op == "<" else 0
        d = self.diff_lb(st, b, a)
        if d is not None and d >= need:
            return True
        d = self.diff_lb(st, a, b)
        if d is not None and d >= 1 - need:
            return False
        return None

    @staticmethod
    def norm(t):
        """t = base + k"""
        if t.op == "+" and isinstance(t.a[1], int):
            return t.a[0], t.a[1]
        if t.op == "c" and isinstance(t.a[0], int):
            return None, t.a[0]
        return t, 0

    def linear(self, t):
        """t as (dict term -> coefficient, constant) over + and -."""
        if t.op == "c" and isinstance(t.a[0], int):
            return {}, t.a[0]
        if t.op == "+" and isinstance(t.a[1], int):
            d, k = self.linear(t.a[0])
            return d, k + t.a[1]
        if t.op == "ar" and t.a[0] in ("+", "-"):
            d1, k1 = self.linear(t.a[1])
            d2, k2 = self.linear(t.a[2])
            sg = 1 if t.a[0] == "+" else -1
            d = dict(d1)
            for x, c in d2.items():
                d[x] = d.get(x, 0) + sg * c
                if d[x] == 0:
                    del d[x]
            return d, k1 + sg * k2
        return {t: 1}, 0

    def diff_lb(self, st, x, y):
        """Greatest known c with x - y >= c (None: nothing known)."""
        dx, kx = self.linear(x)
        dy, ky = self.linear(y)
        d = dict(dx)
        for t, c in dy.items():
            d[t] = d.get(t, 0) - c
            if d[t] == 0:
                del d[t]
        k = kx - ky
        pos = [t for t, c in d.items() for _ in range(c) if c > 0]
        neg = [t for t, c in d.items() for _ in range(-c) if c < 0]
        if self.rule.linear_facts and len(d) > 2:
            c = st.facts.get(("lin", self.lin_key(d)))
            if c is not None:
                return k + c
        if len(pos) + len(neg) > 4:
            return None
        return self._lb(st, pos, neg, k)

    @staticmethod
    def lin_key(d):
        return T("lin", *(T("pair", t, c) for t, c in sorted(d.items(), key=lambda x: x[0].n)))

    def _lb(self, st, pos, neg, k):
        if not pos and not neg:
            return k
        best = None
        if pos and neg:
            for i, p in enumerate(pos):
                for j, q in enumerate(neg):
                    c = st.facts.get(("diff", T("pair", p, q)))
                    if c is None and p is q:
                        c = 0
                    if c is None:
                        # one step of transitivity
                        for key, c1 in st.facts.items():
                            if key[0] == "diff" and key[1].a[0] is p:
                                m = key[1].a[1]
                                c2 = st.facts.get(("diff", T("pair", m, q)))
                                if c2 is not None and (c is None or c1 + c2 > c):
                                    c = c1 + c2
                    if c is not None:
                        r = self._lb(st, pos[:i] + pos[i + 1:], neg[:j] + neg[j + 1:], k + c)
                        if r is not None and (best is None or r > best):
                            best = r
        if best is not None:
            return best
        if pos:
            lo, _ = self.bounds(st, pos[0])
            if lo is None and self.rule.nonneg(pos[0]):
                lo = 0
            if lo is None:
                return None
            return self._lb(st, pos[1:], neg, k + lo)
        _, hi = self.bounds(st, neg[0])
        if hi is None:
            return None
        return self._lb(st, pos, neg[1:], k - hi)

    def set_diff(self, st, x, y, c):
        """Record x - y >= c."""
        dx, kx = self.linear(x)
        dy, ky = self.linear(y)
        d = dict(dx)
        for t, cc in dy.items():
            d[t] = d.get(t, 0) - cc
            if d[t] == 0:
                del d[t]
        k = kx - ky
        pos = [t for t, cc in d.items() if cc == 1]
        neg = [t for t, cc in d.items() if cc == -1]
        if self.rule.linear_facts and len(d) > 2:
            key = ("lin", self.lin_key(d))
            o = st.facts.get(key)
            st.facts[key] = c - k if o is None else max(o, c - k)
        if len(pos) + len(neg) != len(d):
            return
        if len(pos) == 1 and len(neg) == 1:
            key = ("diff", T("pair", pos[0], neg[0]))
            o = st.facts.get(key)
            st.facts[key] = c - k if o is None else max(o, c - k)
        elif len(pos) == 1 and not neg:
            self.tighten(st, pos[0], c - k, None)
        elif len(neg) == 1 and not pos:
            self.tighten(st, neg[0], None, k - c)
        elif len(pos) == 1 and len(neg) == 2:
            # p - q1 - q2 >= c': use what is known about one of the q
            for a, b in ((0, 1), (1, 0)):
                lo, _ = self.bounds(st, neg[b])
                if lo is None and self.rule.nonneg(neg[b]):
                    lo = 0
                if lo is not None:
                    key = ("diff", T("pair", pos[0], neg[a]))
                    v = c - k + lo
                    o = st.facts.get(key)
                    st.facts[key] = v if o is None else max(o, v)

    def set_dom(self, st, t, d):
        old = self.dom(st, t)
        if old:
            if old[0] == "in" and d[0] == "in":
                d = ("in", old[1] & d[1])
            elif old[0] == "in":
                d = ("in", old[1] - d[1])
            elif d[0] == "in":
                d = ("in", d[1] - old[1])
            else:
                d = ("notin", old[1] | d[1])
        if d[0] == "in" and not d[1]:
            return False
        st.facts[("dom", t)] = d
        return True

    def assume(self, st, c, truth):
        """Refine st; False when infeasible."""
        if c is None:
            return True
        cur = self.truth(st, c)
        if cur is not None:
            return cur == truth
        if c.op == "not":
            return self.assume(st, c.a[0], not truth)
        if c.op == "nonnull":
            return self.assume_nn(st, c.a[0], truth)
        if c.op == "and":
            if truth:
                return self.assume(st, c.a[0], True) and self.assume(st, c.a[1], True)
            if self.truth(st, c.a[0]) is True:
                return self.assume(st, c.a[1], False)
            if self.truth(st, c.a[1]) is True:
                return self.assume(st, c.a[0], False)
            st.facts[("nn", c)] = False
            return True
        if c.op == "or":
            if not truth:
                return self.assume(st, c.a[0], False) and self.assume(st, c.a[1], False)
            if self.truth(st, c.a[0]) is False:
                return self.assume(st, c.a[1], True)
            if self.truth(st, c.a[1]) is False:
                return self.assume(st, c.a[0], True)
            st.facts[("nn", c)] = True
            return True
        if c.op == "cmp":
            op, a, b = c.a
            return self.assume_cmp(st, op, a, b, truth)
        st.facts[("nn", c)] = truth
        return True

    def assume_nn(self, st, t, truth):
        n = self.nullness(st, t)
        if n is not None:
            return n == truth
        st.facts[("nn", t)] = truth
        eqs = [(k[1].a, v) for k, v in st.facts.items() if k[0] == "eq"]
        if eqs:
            me = T("nonnull", t)
            for (a, b), v in eqs:
                if a is me or b is me:
                    o = b if a is me else a
                    if not self.assume(st, o, truth if v else not truth):
                        return False
        return True

    def assume_cmp(self, st, op, a, b, truth):
        if not truth:
            op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
        if op in ("==", "!="):
            if b.op == "null" or a.op == "null":
                x = b if a.op == "null" else a
                return self.assume_nn(st, x, op == "!=")
            if a.op == "c":
                a, b = b, a
            if b.op == "c":
                v = b.a[0]
                if a.op == "not" or a.op in ("nonnull", "cmp", "and", "or"):
                    return self.assume(st, a, bool(v) if op == "==" else not v)
                if not self.set_dom(st, a, ("in" if op == "==" else "notin", frozenset([v]))):
                    return False
                return True
            st.facts[("eq", T("pair", *sorted((a, b))))] = (op == "==")
            if op == "!=":
                # integers: x >= y and x != y give x > y
                for x, y in ((a, b), (b, a)):
                    if self.diff_lb(st, x, y) == 0:
                        self.set_diff(st, x, y, 1)
            if op == "==":
                self.set_diff(st, a, b, 0)
                self.set_diff(st, b, a, 0)
                # share what is known
                for x, y in ((a, b), (b, a)):
                    n = self.nullness(st, x)
                    if n is not None and self.nullness(st, y) is None:
                        st.facts[("nn", y)] = n
            return True
        if op in (">", ">="):
            a, b = b, a
            op = "<" if op == ">" else "<="
        off = 1 if op == "<" else 0
        if b.op == "c":
            self.tighten(st, a, None, b.a[0] - off)
        elif a.op == "c":
            self.tighten(st, b, a.a[0] + off, None)
        else:
            self.set_diff(st, b, a, off)
        return True

    def tighten(self, st, t, lo, hi):
        if t.op == "+" and isinstance(t.a[1], int):
            return self.tighten(st, t.a[0], None if lo is None else lo - t.a[1],
                                None if hi is None else hi - t.a[1])
        if lo is not None:
            o = st.facts.get(("lo", t))
            st.facts[("lo", t)] = lo if o is None else max(o, lo)
        if hi is not None:
            o = st.facts.get(("hi", t))
            st.facts[("hi", t)] = hi if o is None else min(o, hi)

    # -- running -----------------------------------------------------------
    def run_root(self, fn, init=None):
        """Analyse fn with unknown parameters; returns exit states."""
        if not fn.cfg:
            return []
        st = State()
        fr = Frame(fn, None, 0)
        fid = self.fid(fr)
        if fn.cls and not fn.d.get("static"):
            st.env[T("THISV", fid)] = T("this", fn.cls)
            st.facts[("nn", T("this", fn.cls))] = True
        for i, d in enumerate(fn.params):
            ty = fn.types[fn.decls[d]["t"]]
            p = T("param", fn.id, i)
            st.env[T("V", fid, d)] = p
            if ty.get("ref"):
                st.facts[("nn", p)] = True
        if init:
            init(self, st, fr)
        self.steps = 0
        self.stats["functions"] += 1
        try:
            return self.run(fr, [st])
        except Budget:
            self.stats["budget"] += 1
            return []

    def var_loc(self, fr, d):
        """Location of a variable (follows references)."""
        return T("V", self.fid(fr), d)

    def run(self, fr, entry_states):
        info = fr.info
        fn = fr.fn
        pending = {info.entry: [s for s in entry_states]}
        seen = {}
        exits = []
        exit_keys = set()
        while pending:
            bid = min(pending, key=lambda x: info.rpo.get(x, 1 << 30))
            states = pending.pop(bid)
            if bid == info.exit:
                for s in states:
                    if fr.parent is not None:
                        self.gc(s)
                    k = s.key()
                    if k not in exit_keys:
                        exit_keys.add(k)
                        exits.append(s)
                continue
            S = seen.setdefault(bid, {})
            new = []
            for s in states:
                k = s.key()
                if k in S:
                    continue
                if len(S) >= self.rule.max_states * 3:
                    self.stats["merges"] += 1
                    m = self.merge(list(S.values()) + [s], fr, bid)
                    k = m.key()
                    if k in S:
                        continue
                    s = m
                S[k] = s.clone()
                new.append(s)
            if len(new) > self.rule.max_states:
                groups = {}
                for s in new:
                    groups.setdefault(frozenset(s.ts.items()), []).append(s)
                out = []
                for g in groups.values():
                    per = max(2, self.rule.max_states // len(groups))
                    if len(g) > per:
                        self.stats["merges"] += 1
                        out.append(self.merge(g, fr, bid))
                    else:
                        out.extend(g)
                new = out
            for s in new:
                for nb, ns in self.exec_block(fr, bid, s):
                    for ns in self.split_bools(fr, nb, ns) if self.rule.split_bools else (ns,):
                        ns = self.edge(fr, bid, nb, ns)
                        pending.setdefault(nb, []).append(ns)
        for s in exits:
            self.rule.on_exit(self, s, fr)
        if len(exits) > self.rule.join_above and fr.parent is not None and self.rule.join_exits:
            groups = {}
            rl = T("RET", self.fid(fr))
            for s in exits:
                k = set()
                for loc, rv in s.env.items():
                    if loc is rl or loc.root == rl.a[0] and self.under(loc, rl):
                        x = rv if rv.op == "c" else self.nullness(s, rv)
                        if x is not None:
                            k.add((loc, x))
                groups.setdefault((frozenset(k), frozenset(s.ts.items())), []).append(s)
            exits = []
            for g in groups.values():
                self.stats["merges"] += len(g) > 1
                exits.append(self.merge(g, fr, info.exit) if len(g) > 1 else g[0])
        return exits

    def is_bool_var(self, fr, d):
        t = fr.fn.decls[d].get("t", -1)
        return t >= 0 and fr.fn.types[t].get("s") == "bool"

    def split_bools(self, fr, dst, st):
        """At a loop head: one state for each value of the flags the loop changes."""
        if dst not in fr.info.loop_blocks:
            return [st]
        fid = self.fid(fr)
        states = [st]
        for d in sorted(self.loop_mods(fr, dst)[0]):
            k = T("V", fid, d)
            if k not in st.env or not self.is_bool_var(fr, d):
                continue
            nxt = []
            for s in states:
                v = s.env[k]
                for truth in ((True, False) if v.op != "c" else (bool(v.a[0]),)):
                    x = s if v.op == "c" else s.clone()
                    if v.op == "c" or self.assume(x, v, truth) and \
                            self.rule.on_assume(self, x, fr, v, truth) is not False:
                        x.env[k] = C(int(truth))
                        nxt.append(x)
            states = nxt
        return states

    def merge(self, group, fr, bid):
        a = group[0].clone()
        known = {}
        for k in set().union(*(b.env.keys() for b in group)):
            if k.op in ("V", "F", "TMP", "RET", "D"):
                nn = {self.nullness(b, b.env[k]) if k in b.env else None for b in group}
                if len(nn) == 1 and None not in nn:
                    known[k] = nn.pop()
        for b in group[1:]:
            keys = set(a.env) | set(b.env)
            upd = {}
            for k in keys:
                x = a.env.get(k)
                y = b.env.get(k)
                if x is None:
                    x = self.read(a, k)
                if y is None:
                    y = self.read(b, k)
                upd[k] = x if x is y else T("mrg", self.fid(fr), bid, k)
            a.env.update(upd)
            for k in list(a.facts):
                if k not in b.facts:
                    del a.facts[k]
                elif b.facts[k] != a.facts[k]:
                    x, y = a.facts[k], b.facts[k]
                    if k[0] == "diff":
                        a.facts[k] = min(x, y)
                    elif k[0] == "dom" and x[0] == "in" and y[0] == "in":
                        a.facts[k] = ("in", x[1] | y[1])
                    elif k[0] == "dom" and x[0] == "notin" and y[0] == "notin" and x[1] & y[1]:
                        a.facts[k] = ("notin", x[1] & y[1])
                    elif k[0] == "lo":
                        a.facts[k] = min(x, y)
                    elif k[0] == "hi":
                        a.facts[k] = max(x, y)
                    else:
                        del a.facts[k]
            for k in list(a.vals):
                if b.vals.get(k) is not a.vals[k]:
                    del a.vals[k]
            for k in list(a.ts):
                if b.ts.get(k) != a.ts[k]:
                    del a.ts[k]
        # facts about merge terms do not survive
        for k in [k for k in a.facts if k[1].vol and any(v.op == "mrg" and v.a[:2] == (self.fid(fr), bid) for v in k[1].vol)]:
            del a.facts[k]
        for k, nn in known.items():
            v = a.env.get(k)
            if v is not None and v.op == "mrg":
                a.facts[("nn", v)] = nn
        self.rule.on_merge(self, a, fr, bid, group)
        return a

    def edge(self, fr, src, dst, st):
        info = fr.info
        fid = self.fid(fr)
        # prune expression values
        cross = info.cross
        for k in list(st.vals):
            if k[0] == fid:
                if len(k) == 3:
                    w = info.where.get(k[1])
                    if w is None or not self.reaches(info, dst, w):
                        del st.vals[k]
                    continue
                c = cross.get(k[1])
                if not c or (c == {src} and dst != src) or not any(
                        self.reaches(info, dst, x) for x in c):
                    del st.vals[k]
        kf = self.rule.keep_fact
        if kf is not None:
            for k in [k for k in st.facts if not kf(k)]:
                del st.facts[k]
        live = info.live[dst]
        for k in [k for k in st.env if k.op in ("V", "TMP") and k.a[0] == fid]:
            if k.op == "V" and k.a[1] not in live and k.a[1] not in info.pinned and k.a[1] not in fr.fn.params:
                self.drop_overlay(st, k)
                st.env.pop(k, None)
        if dst in info.loop_blocks:
            first = (src, dst) not in info.back
            self.rule.on_loop_pre(self, st, fr, dst, first)
            if not first:
                self.rule.on_backedge(self, st, fr, dst)
            if not (first and self.rule.peel):
                self.loop_head(fr, dst, st)
            self.rule.on_loophead(self, st, fr, dst, first)
        self.rule.on_edge(self, st, fr, src, dst)
        return st

    def reaches(self, info, a, b):
        r = info.__dict__.setdefault("reach", {})
        s = r.get(a)
        if s is None:
            s = set()
            w = [a]
            while w:
                x = w.pop()
                if x in s:
                    continue
                s.add(x)
                w.extend(y for y in info.blocks[x]["s"] if y >= 0)
            r[a] = s
        return b in s

    def gc(self, st):
        """Forget temporaries nothing refers to and facts about dead symbols."""
        ptd = None
        tm = [k for k in st.env if k.op == "TMP" or k.op in ("F", "E") and k.root is not None]
        if tm:
            ptd = self.pointed(st)
            for k in tm:
                r = k
                while r.op in ("F", "E"):
                    r = r.a[0]
                if r.op == "TMP" and r not in ptd:
                    del st.env[k]
        # contents of objects nothing points to any more
        heap = {}
        for k in st.env:
            r = k
            while r.op in ("F", "E"):
                r = r.a[0]
            if r.op == "D" and r.a[0].op in ("new", "wrap") and len(r.a[0].a) == 2:
                heap.setdefault(r.a[0], []).append(k)
        if heap:
            used = set()
            for k, v in st.env.items():
                if v.vol:
                    used |= v.vol
            for v in st.vals.values():
                if isinstance(v, Term) and v.vol:
                    used |= v.vol
            for k in st.ts:
                for x in (k if isinstance(k, tuple) else ()):
                    if isinstance(x, Term) and x.vol:
                        used |= x.vol
            for t, ks in heap.items():
                if t not in used:
                    for k in ks:
                        del st.env[k]
        live = set()
        for k, v in st.env.items():
            if k.vol:
                live |= k.vol
            if v.vol:
                live |= v.vol
        for v in st.vals.values():
            if isinstance(v, Term) and v.vol:
                live |= v.vol
        for k in st.ts:
            for x in (k if isinstance(k, tuple) else ()):
                if isinstance(x, Term) and x.vol:
                    live |= x.vol
        for k in [k for k in st.facts if k[1].vol and not k[1].vol <= live]:
            del st.facts[k]

    # -- loops -------------------------------------------------------------
    def mods_of_node(self, fn, i, out):
        """Record decls/fields a statement may write."""
        n = fn.nodes[i]
        k = n["k"]
        tgt = None
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n["op"] == "=" or k[0] == "C"):
            tgt = [n["ch"][0]]
        elif k == "UnaryOperator" and n["op"] in ("++", "--"):
            tgt = [n["ch"][0]]
        elif k == "CXXOperatorCallExpr":
            if n.get("op", "") in ("=", "+=", "-=", "++", "--", "<<=", "|=", "&=", "*=") or (not n.get("mconst") and n.get("cls")):
                if not self._is_std_const_op(n):
                    tgt = [n["ch"][1]]
        elif k == "CXXMemberCallExpr":
            if not n.get("mconst"):
                c = fn.nodes[n["ch"][0]]
                if c["k"] == "MemberExpr" and c.get("ch"):
                    tgt = [c["ch"][0]]
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXOperatorCallExpr",
                 "CXXTemporaryObjectExpr"):
            args = n["ch"][1:] if k != "CXXConstructExpr" and k != "CXXTemporaryObjectExpr" else n["ch"]
            pts = n.get("pt", [])
            if k == "CXXOperatorCallExpr" and n.get("cls"):
                args = args[1:]
            for j, a in enumerate(args):
                pt = fn.types[pts[j]] if j < len(pts) and pts[j] >= 0 else {}
                if (pt.get("ref") and not pt.get("const")) or (pt.get("ptr") and not pt.get("pconst")):
                    tgt = (tgt or []) + [a]
            if n.get("fn"):
                out.setdefault("calls", set()).add(n["fn"])
                if n.get("virt"):
                    out.setdefault("vcalls", set()).add(n["fn"])
        if k == "LambdaExpr":
            out.setdefault("calls", set()).add(n["fn"])
        for t in tgt or []:
            t = fn.strip(t)
            path = []
            while t >= 0:
                m = fn.nodes[t]
                if m["k"] == "DeclRefExpr":
                    d = fn.decls[m["d"]]
                    ty = fn.types[d["t"]] if d.get("t", -1) >= 0 else {}
                    if path:
                        if ty.get("ref") or d.get("glob"):
                            out.setdefault("fields", set()).add(tuple(path))
                        else:
                            out.setdefault("lfields", set()).add((m["d"], tuple(path)))
                            out.setdefault("nfields", set()).add((d["n"], d.get("loc"), tuple(path)))
                    else:
                        out.setdefault("vars", set()).add(m["d"])
                        out.setdefault("named", set()).add((d["n"], d.get("loc")))
                    path = []
                    break
                if m["k"] == "MemberExpr":
                    fd = fn.decls[m["d"]]
                    if fd["k"] == "Field":
                        path.insert(0, fd["q"])
                        fty = fn.types[fd["t"]] if fd["t"] >= 0 else {}
                        if m.get("arrow") or not m.get("ch"):
                            # through a pointer: any object with this field
                            break
                    t = fn.strip(m["ch"][0]) if m.get("ch") else -1
                    continue
                if m["k"] == "UnaryOperator" and m["op"] in ("*", "&"):
                    if path and m["op"] == "*":
                        break
                    t = fn.strip(m["ch"][0])
                    continue
                if path:
                    break
                if m["k"] in ("CXXOperatorCallExpr",) and len(m["ch"]) > 1:
                    t = fn.strip(m["ch"][1])
                    continue
                if m["k"] == "CXXMemberCallExpr":
                    c = fn.nodes[m["ch"][0]]
                    t = fn.strip(c["ch"][0]) if c.get("ch") else -1
                    continue
                if m["k"] in ("CallExpr",) and m.get("q") in IDENT_FUNCS and len(m["ch"]) > 1:
                    t = fn.strip(m["ch"][1])
                    continue
                if m["k"] in ("CXXConstructExpr", "ImplicitCastExpr", "ArraySubscriptExpr") and m.get("ch"):
                    t = fn.strip(m["ch"][0])
                    continue
                break
            if path:
                out.setdefault("fields", set()).add(tuple(path))

    def _is_std_const_op(self, n):
        return n.get("op") in ("*", "->", "[]", "()", "==", "!=", "<", ">", "<=", ">=") and n.get("op") != "()"

    def fn_mods(self, fid, stack=None):
        """Fields (and captured variables) a function may write, transitively."""
        if fid in self._modcache:
            return self._modcache[fid]
        f = self.prog.fns.get(fid)
        res = {"fields": set(), "named": set(), "nfields": set()}
        if f is None:
            return res
        stack = stack or set()
        if fid in stack:
            return res
        stack = stack | {fid}
        out = {}
        for i, n in enumerate(f.nodes):
            if n:
                self.mods_of_node(f, i, out)
        res["fields"] |= out.get("fields", set())
        if f.d.get("lambda"):
            res["named"] |= out.get("named", set())
            res["nfields"] |= out.get("nfields", set())
        for c in out.get("calls", ()):
            m = self.fn_mods(c, stack)
            res["fields"] |= m["fields"]
            res["named"] |= m["named"]
            res["nfields"] |= m["nfields"]
        if len(stack) == 1:
            self._modcache[fid] = res
        return res

    def loop_mods(self, fr, head):
        info = fr.info
        m = info.loop_mods.get(head)
        if m is not None:
            return m
        fn = fr.fn
        out = {}
        for b in info.loop_blocks[head]:
            for e in info.blocks[b]["e"]:
                if isinstance(e, int):
                    self.mods_of_node(fn, e, out)
        fields = set(out.get("fields", ()))
        vars_ = set(out.get("vars", ()))
        named = set()
        lfields = set(out.get("lfields", ()))
        nfields = set()
        for c in out.get("calls", ()):
            mm = self.fn_mods(c)
            fields |= mm["fields"]
            named |= mm["named"]
            nfields |= mm["nfields"]
        if named or nfields:
            byname = {}
            for n_, l_, p_ in nfields:
                byname.setdefault((n_, l_), set()).add(p_)
            for i, d in enumerate(fn.decls):
                if d and (d["n"], d.get("loc")) in named:
                    vars_.add(i)
                if d:
                    for p_ in byname.get((d["n"], d.get("loc")), ()):
                        lfields.add((i, p_))
        # symbols created in the loop
        sites = set()
        for b in info.loop_blocks[head]:
            for e in info.blocks[b]["e"]:
                if isinstance(e, int):
                    sites.add(e)
        byf = {}
        for p_ in fields:
            byf.setdefault(p_[-1], set()).add(p_)
        info.loop_named[head] = named
        m = info.loop_mods[head] = (vars_, byf, sites, lfields)
        return m

    @staticmethod
    def path_match(k, paths):
        """May the field location k be written by an access along a path?"""
        for p in paths:
            x, ok = k, True
            for i in range(len(p) - 1, -1, -1):
                if x.op == "F":
                    if x.a[1] != p[i]:
                        ok = False
                        break
                    x = x.a[0]
                else:
                    # the path continues into an enclosing object: only an
                    # opaque pointer target can be such a sub-object
                    ok = x.op == "D"
                    break
            if ok:
                return True
        return False

    def field_hit(self, k, byf):
        """k or an enclosing sub-object of k may be written."""
        x = k
        while x.op in ("F", "E"):
            if x.op == "F" and x.a[1] in byf and self.path_match(x, byf[x.a[1]]):
                return True
            x = x.a[0]
        return False

    @staticmethod
    def pointed(st):
        """Local objects some live pointer or reference points into."""
        out = set()
        for src in (st.env, st.vals):
            for v in src.values():
                if isinstance(v, Term) and v.op == "&":
                    x = v.a[0]
                    while x.op in ("F", "E"):
                        x = x.a[0]
                    out.add(x)
                elif isinstance(v, Term) and v.op == "lam":
                    for c in v.a[2]:
                        if isinstance(c[2], Term):
                            x = c[2]
                            while x.op in ("F", "E", "&"):
                                x = x.a[0]
                            out.add(x)
        return out

    def loop_head(self, fr, head, st):
        vars_, byf, sites, lfields = self.loop_mods(fr, head)
        fid = self.fid(fr)
        ptd = self.pointed(st)
        named = fr.info.loop_named.get(head, ())
        outer = {}
        if named:
            p = fr.parent
            while p is not None:
                outer[self.fid(p)] = p
                p = p.parent

        def stale(t):
            if not t.vol:
                return False
            for v in t.vol:
                if v.op == "lp" and v.a[0] == fid and v.a[1] == head:
                    return True
                if v.op in ("r", "new", "wrap", "err") and v.a[0] == fid and v.a[1] in sites:
                    return True
                if v.op == "mrg" and v.a[0] == fid and v.a[1] in self_loop:
                    return True
            return False
        self_loop = fr.info.loop_blocks[head]
        keep = {}
        if self.rule.loop_nullness:
            for d in vars_:
                k = T("V", fid, d)
                t = fr.fn.decls[d].get("t", -1)
                if k in st.env and t >= 0 and (fr.fn.types[t].get("ptr") or fr.fn.types[t].get("rec") == "std::optional"):
                    keep[k] = self.nullness(st, st.env[k])
        for k in list(st.facts):
            if stale(k[1]):
                del st.facts[k]
        for k in list(st.ts):
            if isinstance(k, tuple) and any(isinstance(x, Term) and stale(x) for x in k):
                self.rule_ts_loop(st, k)
        for k in list(st.env):
            v = st.env.get(k)
            if v is None:
                continue
            root = k
            while root.op in ("F", "E"):
                root = root.a[0]
            if k.op == "V" and k.a[0] == fid and k.a[1] in vars_:
                if self.is_ref_decl(fr, k.a[1]) and (v.op == "&" or v.op == "param"):
                    # assignment through a reference changes its referent
                    t = deref(v)
                    st.env[t] = T("lp", fid, head, t)
                    self.drop_overlay(st, t)
                    continue
                if self.rule.split_bools and v.op == "c" and self.is_bool_var(fr, k.a[1]):
                    continue
                st.env[k] = T("lp", fid, head, k)
                self.drop_overlay(st, k)
                if keep.get(k) is not None:
                    st.facts[("nn", st.env[k])] = keep[k]
            elif k.op == "F" and self.loop_hit(k, root, fid, byf, lfields, ptd):
                st.env[k] = T("lp", fid, head, k)
            elif k.op == "V" and k.a[0] in outer and self.decl_key(outer[k.a[0]], k.a[1]) in named:
                # a closure that is called in the loop changes a variable of its own frame
                st.env[k] = T("lp", fid, head, k)
                self.drop_overlay(st, k)
            elif stale(v) or stale(k):
                if k.op == "V" or k.op == "F" and not stale(k):
                    st.env[k] = T("lp", fid, head, k)
                else:
                    del st.env[k]
        # references bound to modified variables
        for k in list(st.vals):
            v = st.vals[k]
            if isinstance(v, Term) and stale(v):
                del st.vals[k]
        self.gc(st)

    @staticmethod
    def decl_key(fr, d):
        """How a closure names this variable; a reference itself never changes."""
        x = fr.fn.decls[d]
        if not x or x.get("t", -1) >= 0 and fr.fn.types[x["t"]].get("ref"):
            return None
        return x["n"], x.get("loc")

    def loop_hit(self, k, root, fid, byf, lfields, ptd):
        if root.op == "V" and root.a[0] == fid:
            for d, p in lfields:
                if d == root.a[1] and self.field_hit(k, {p[-1]: (p,)}):
                    return True
        if root.op in ("V", "TMP", "RET") and root not in ptd:
            return False
        return self.field_hit(k, byf)

    @staticmethod
    def is_ref_decl(fr, d):
        t = fr.fn.decls[d].get("t", -1)
        return t >= 0 and bool(fr.fn.types[t].get("ref"))

    def rule_ts_loop(self, st, k):
        del st.ts[k]

    # -- blocks ------------------------------------------------------------
    def exec_block(self, fr, bid, st):
        b = fr.info.blocks[bid]
        self.stats["blocks"] += 1
        states = [st]
        lab = b.get("lab")
        for e in b["e"]:
            nxt = []
            for s in states:
                self.steps += 1
                if self.steps > self.step_budget:
                    raise Budget()
                nxt.extend(self.exec_elem(fr, e, s))
            states = nxt
            if not states:
                return []
        if b.get("nr"):
            return []
        out = []
        succ = b["s"]
        for s in states:
            out.extend(self.branch(fr, b, s))
        return out

    def branch(self, fr, b, st):
        succ = [x for x in b["s"]]
        t = b.get("t")
        if t is None or len([x for x in succ if x >= 0]) <= 1 and (fr.fn.nodes[t]["k"] not in
                                                                 ("IfStmt", "WhileStmt", "ForStmt", "DoStmt",
                                                                  "BinaryOperator", "ConditionalOperator", "SwitchStmt",
                                                                  "CXXForRangeStmt")):
            return [(x, st if i == 0 else st.clone()) for i, x in enumerate(y for y in succ if y >= 0)]
        fn = fr.fn
        tk = fn.nodes[t]["k"]
        fid = self.fid(fr)
        if tk == "SwitchStmt":
            return self.switch(fr, b, st)
        if tk in ("CXXTryStmt", "GotoStmt", "IndirectGotoStmt", "BreakStmt", "ContinueStmt"):
            return [(x, st if i == 0 else st.clone()) for i, x in enumerate(y for y in succ if y >= 0)]
        if len(succ) == 2:
            c = None
            lc = b.get("lc", b.get("tc"))
            if tk == "CXXForRangeStmt":
                lc = b.get("lc", b.get("tc"))
            if lc is not None and lc >= 0:
                c = self.cond(fr, st, lc)
            out = []
            for i, truth in ((0, True), (1, False)):
                if succ[i] < 0:
                    continue
                s = st.clone()
                ok = self.assume(s, c, truth) if c is not None else True
                if ok and self.rule.on_assume(self, s, fr, c, truth) is not False:
                    if tk in ("BinaryOperator", "ConditionalOperator", "BinaryConditionalOperator"):
                        s.vals[(fid, t, "dec")] = i
                        if fr.info.cross.get(t) is None:
                            pass
                    out.append((succ[i], s))
            return out
        return [(x, st.clone()) for x in succ if x >= 0]

    def switch(self, fr, b, st):
        fn = fr.fn
        c = self.rv(fr, st, b["tc"]) if "tc" in b else None
        out = []
        seen = []
        cases = []
        default = None
        for x in b["s"]:
            if x < 0:
                continue
            lab = fr.info.blocks[x].get("lab")
            ln = fn.nodes[lab] if lab is not None else None
            if ln is not None and ln["k"] == "CaseStmt":
                vals = [ln.get("cv")] if "cv2" not in ln else list(range(ln["cv"], ln["cv2"] + 1))
                # stacked labels: case A: case B: -> sub statement chain
                cases.append((x, vals))
                seen.extend(vals)
            else:
                default = x
        for x, vals in cases:
            s = st.clone()
            if c is not None:
                cc = c
                if cc.op == "c":
                    if cc.a[0] not in vals:
                        continue
                elif not self.set_dom(s, cc, ("in", frozenset(vals))):
                    continue
            if self.rule.on_assume(self, s, fr, T("switch", c, tuple(vals)) if c is not None else None, True) is not False:
                out.append((x, s))
        if default is not None:
            s = st.clone()
            ok = True
            if c is not None:
                if c.op == "c":
                    ok = c.a[0] not in seen
                else:
                    ok = self.set_dom(s, c, ("notin", frozenset(seen)))
                    if ok:
                        d = s.facts.get(("dom", c))
                        # exhausted enum?
                        e = self.enum_values(fn, b["tc"])
                        if e is not None and d[0] == "notin" and e <= d[1]:
                            ok = False
            if ok:
                out.append((default, s))
        return out

    def enum_values(self, fn, node):
        i = fn.strip(node)
        while i >= 0 and fn.nodes[i]["k"] == "ImplicitCastExpr":
            i = fn.strip(fn.nodes[i]["ch"][0])
        ty = fn.type_of(i)
        if "enum" in ty:
            e = self.prog.enums.get(ty["enum"])
            if e:
                return frozenset(v["v"] for v in e["vals"])
        return None

    def exec_elem(self, fr, e, st):
        if isinstance(e, int):
            fr.line = fr.fn.nodes[e].get("l", fr.line)
            self.rule.on_element(self, st, fr, e, fr.fn.nodes[e])
            res = self.eval(fr, st, e)
            return res
        kind = e[0]
        fid = self.fid(fr)
        if kind == "init":
            this = st.env.get(T("THISV", fid))
            if this is not None and isinstance(e[1], int):
                fd = fr.fn.decls[e[1]]
                loc = T("F", deref(this), fd["q"])
                if e[2] is not None and e[2] >= 0:
                    v = self.val(fr, st, e[2])
                    self.store_init(fr, st, loc, fr.fn.types[fd["t"]], v)
                    self.rule.on_assign(self, st, fr, e[2], loc, v)
            elif this is not None and e[2] is not None and e[2] >= 0:
                # base class: its fields are fields of this object
                v = self.val(fr, st, e[2])
                if v.op == "&":
                    self.merge_base(st, deref(this), v.a[0])
        elif kind == "dtor":
            loc = T("V", fid, e[1])
            self.rule.on_dtor(self, st, fr, e[1], loc)
        return [st]

    def merge_base(self, st, dst, src):
        for k, x in list(st.env.items()):
            if k.op in ("F", "E") and self.under(k, src):
                st.env[self.rebase(k, src, dst)] = x

    def store_init(self, fr, st, loc, ty, v):
        """Initialise loc of declared type ty with the value v of its init."""
        if ty.get("ref"):
            # v is an lvalue '&loc' (or an opaque reference)
            self.write(st, loc, v)
            return
        if v.op == "&" and (ty.get("rec") and not ty.get("ptr")):
            self.copy_object(st, loc, v.a[0])
        elif ty.get("rec") and not ty.get("ptr") and v.op not in ("null", "c", "lam", "str", "new"):
            self.copy_object(st, loc, deref(v))
        else:
            self.write(st, loc, v)

    # -- expressions -------------------------------------------------------
    def val(self, fr, st, i):
        """Value of an already evaluated (or side-effect-free) expression."""
        if i is None or i < 0:
            return T("undef", "none")
        v = st.vals.get((self.fid(fr), i))
        if v is None:
            if i in fr.info.where and fr.fn.nodes[i]["k"] in (
                    "CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr",
                    "CXXTemporaryObjectExpr", "UserDefinedLiteral"):
                # evaluated elsewhere, value lost in a merge
                v = T("r", self.fid(fr), i, "lost")
            else:
                r = self.eval(fr, st, i)
                v = st.vals.get((self.fid(fr), i))
                if v is None:
                    v = T("r", self.fid(fr), i, "lost")
        return v

    def is_class(self, ty):
        return bool(ty.get("rec")) and not ty.get("ptr")

    def rv(self, fr, st, i):
        """Scalar (or smart-pointer) r-value of expression i."""
        v = self.val(fr, st, i)
        n = fr.fn.nodes[i]
        ty = fr.fn.type_of(i)
        if n.get("lv") or n.get("xv") or self.is_class(ty):
            return self.read(st, deref(v))
        return v

    def cond(self, fr, st, i):
        fn = fr.fn
        i = fn.strip(i)
        n = fn.nodes[i]
        v = self.rv(fr, st, i)
        return v

    def setv(self, fr, st, i, v):
        st.vals[(self.fid(fr), i)] = v

    def lvloc(self, fr, st, i):
        return deref(self.val(fr, st, i))

    def eval(self, fr, st, i):
        """Evaluate node i (children already evaluated); returns states."""
        fn = fr.fn
        n = fn.nodes[i]
        k = n["k"]
        ch = n.get("ch", [])
        m = getattr(self, "e_" + k, None)
        if m is not None:
            r = m(fr, st, i, n, ch)
            return [st] if r is None else r
        if "cv" in n and not n.get("lv"):
            self.setv(fr, st, i, C(n["cv"]))
            return [st]
        if "t" in n:
            if len(ch) == 1 and k in ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr",
                                      "ConstantExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr",
                                      "OpaqueValueExpr", "CXXStdInitializerListExpr"):
                self.setv(fr, st, i, self.val(fr, st, ch[0]))
            elif k == "SubstNonTypeTemplateParmExpr":
                self.setv(fr, st, i, self.val(fr, st, ch[-1]))
            else:
                self.opaque(fr, st, i, n)
        return [st]

    def opaque(self, fr, st, i, n, tag=""):
        t = self.fresh(st, fr, i, tag)
        ty = fr.fn.type_of(i)
        if n.get("lv") or n.get("xv"):
            self.setv(fr, st, i, t)
            st.facts[("nn", t)] = True
        elif self.is_class(ty):
            loc = T("TMP", self.fid(fr), i)
            self.write(st, loc, t)
            self.setv(fr, st, i, addr(loc))
        else:
            self.setv(fr, st, i, t)
        return t

    # wrappers
    def e_ParenExpr(self, fr, st, i, n, ch):
        self.setv(fr, st, i, self.val(fr, st, ch[0]))
    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ParenExpr
    e_CXXDefaultInitExpr = e_OpaqueValueExpr = e_CXXStdInitializerListExpr = e_ParenExpr
    e_CXXRewrittenBinaryOperator = e_ParenExpr

    def e_CXXDefaultArgExpr(self, fr, st, i, n, ch):
        self.deep_eval(fr, st, ch[0])
        self.setv(fr, st, i, self.val(fr, st, ch[0]))

    def deep_eval(self, fr, st, i):
        if i in fr.info.where:
            return
        for c in fr.fn.nodes[i].get("ch", []):
            if c >= 0:
                self.deep_eval(fr, st, c)
        self.eval(fr, st, i)

    def e_ConstantExpr(self, fr, st, i, n, ch):
        self.setv(fr, st, i, C(n["cv"]) if "cv" in n else self.val(fr, st, ch[0]))

    def e_MaterializeTemporaryExpr(self, fr, st, i, n, ch):
        v = self.val(fr, st, ch[0])
        ty = fr.fn.type_of(ch[0])
        if self.is_class(ty):
            self.setv(fr, st, i, v)
        else:
            loc = T("TMP", self.fid(fr), i)
            self.write(st, loc, v)
            self.setv(fr, st, i, addr(loc))

    def e_IntegerLiteral(self, fr, st, i, n, ch):
        self.setv(fr, st, i, C(n.get("cv", 0)))
    e_CharacterLiteral = e_CXXBoolLiteralExpr = e_IntegerLiteral

    def e_StringLiteral(self, fr, st, i, n, ch):
        self.setv(fr, st, i, T("str", n.get("v", "?"), n.get("len", 0)))

    def e_CXXNullPtrLiteralExpr(self, fr, st, i, n, ch):
        self.setv(fr, st, i, NULL)
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, fr, st, i, n, ch):
        ty = fr.fn.type_of(i)
        if ty.get("ptr"):
            self.setv(fr, st, i, NULL)
        elif self.is_class(ty):
            self.opaque(fr, st, i, n)
        else:
            self.setv(fr, st, i, C(0))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThisExpr(self, fr, st, i, n, ch):
        v = st.env.get(T("THISV", self.fid(fr)))
        if v is None:
            # lambda capturing this
            v = self.capture(fr, "this")
            if v is None:
                v = T("this", fr.fn.cls or "?")
                st.facts[("nn", v)] = True
        self.setv(fr, st, i, v)

    def capture(self, fr, key):
        return fr.caps.get(key) if fr.caps else None

    def e_DeclRefExpr(self, fr, st, i, n, ch):
        d = n["d"]
        dc = fr.fn.decls[d]
        k = dc["k"]
        if k == "EnumConstant":
            self.setv(fr, st, i, C(dc["v"]))
            return
        if k in ("Function", "CXXMethod"):
            self.setv(fr, st, i, T("fn", dc["fn"], dc["q"]))
            return
        if k == "Binding":
            if fr.caps is not None and (dc["n"], dc.get("loc")) in fr.caps:
                self.setv(fr, st, i, addr(fr.caps[(dc["n"], dc.get("loc"))]))
                return
            if "bind" in dc:
                if "hv" in dc:
                    loc = self.binding_loc(fr, st, dc)
                    if loc.op == "F" and loc.a[0].op == "D":
                        self.rule.on_element_read(self, st, fr, i, loc, fr.fn.type_of(i))
                    self.setv(fr, st, i, addr(loc))
                    return
                fr_n = fr.fn.nodes[dc["bind"]]
                self.deep_eval(fr, st, dc["bind"])
                self.setv(fr, st, i, self.val(fr, st, dc["bind"]))
                return
            self.opaque(fr, st, i, n)
            return
        if k == "NonTypeTemplateParm":
            self.setv(fr, st, i, C(n["cv"]) if "cv" in n else T("tparm", dc["n"]))
            return
        loc = self.decl_loc(fr, st, d)
        if "cv" in n and dc.get("glob"):
            # constant: still an lvalue
            if loc not in st.env:
                st.env[loc] = C(n["cv"])
        ty = fr.fn.types[dc["t"]] if dc["t"] >= 0 else {}
        if ty.get("ref"):
            self.setv(fr, st, i, addr(deref(self.read(st, loc))))
        else:
            self.setv(fr, st, i, addr(loc))

    def binding_loc(self, fr, st, dc):
        """Location of a structured binding over a tuple-like value."""
        dd = dc.get("dd", dc["hv"])
        ty = fr.fn.types[fr.fn.decls[dd]["t"]]
        base = T("V", self.fid(fr), dd)
        if ty.get("ref"):
            base = deref(self.read(st, base))
        if ty.get("rec") == "std::pair" and dc.get("bi", 9) < 2:
            name = PAIR[dc["bi"]]
        else:
            name = "get:%s" % dc.get("bi", dc["n"])
        return T("F", base, name)

    def decl_loc(self, fr, st, d):
        dc = fr.fn.decls[d]
        if dc["k"] == "Binding" and "hv" in dc and not (fr.caps and (dc["n"], dc.get("loc")) in fr.caps):
            return self.binding_loc(fr, st, dc)
        if dc.get("glob"):
            return T("G", dc.get("q", dc["n"]))
        if fr.caps is not None:
            c = fr.caps.get((dc["n"], dc.get("loc")))
            if c is not None:
                return c
        return T("V", self.fid(fr), d)

    def e_MemberExpr(self, fr, st, i, n, ch):
        d = fr.fn.decls[n["d"]]
        if d["k"] in ("CXXMethod", "Function", "CXXConversion", "CXXDestructor"):
            # callee position; the object is child 0
            self.setv(fr, st, i, self.val(fr, st, ch[0]) if ch else T("undef", "none"))
            return
        if d["k"] == "EnumConstant":
            self.setv(fr, st, i, C(d["v"]))
            return
        if d["k"] == "Var":
            self.setv(fr, st, i, addr(T("G", d.get("q", d["n"]))))
            return
        if n.get("arrow"):
            p = self.rv(fr, st, ch[0])
            self.rule.on_deref(self, st, fr, i, p)
            base = deref(p)
        else:
            base = deref(self.val(fr, st, ch[0]))
        self.rule.on_field(self, st, fr, i, base, d["q"])
        loc = T("F", base, "std::pair::" + d["n"] if d.get("cls") == "std::pair" else d["q"])
        ty = fr.fn.types[d["t"]] if d["t"] >= 0 else {}
        if d.get("cls") == "std::pair" and base.op == "D":
            self.rule.on_element_read(self, st, fr, i, loc, ty)
        if ty.get("ref"):
            self.setv(fr, st, i, addr(deref(self.read(st, loc))))
        else:
            self.setv(fr, st, i, addr(loc))

    def e_ArraySubscriptExpr(self, fr, st, i, n, ch):
        b = self.rv(fr, st, ch[0])
        x = self.rv(fr, st, ch[1])
        if b.op == "&":
            self.setv(fr, st, i, addr(T("E", b.a[0], x)))
        else:
            self.setv(fr, st, i, addr(T("E", T("D", b), x)))

    def e_UnaryOperator(self, fr, st, i, n, ch):
        op = n["op"]
        if "cv" in n:
            self.setv(fr, st, i, C(n["cv"]))
            return
        if op == "*":
            p = self.rv(fr, st, ch[0])
            self.rule.on_deref(self, st, fr, i, p)
            self.setv(fr, st, i, addr(deref(p)))
        elif op == "&":
            self.setv(fr, st, i, self.val(fr, st, ch[0]))
        elif op == "!":
            v = self.rv(fr, st, ch[0])
            t = self.truth(st, v)
            self.setv(fr, st, i, C(int(not t)) if t is not None else (v.a[0] if v.op == "not" else T("not", v)))
        elif op in ("++", "--"):
            loc = deref(self.val(fr, st, ch[0]))
            old = self.read(st, loc)
            nv = self.add(old, 1 if op == "++" else -1)
            self.rule.on_assign(self, st, fr, i, loc, nv)
            self.write(st, loc, nv)
            self.setv(fr, st, i, old if n.get("post") else addr(loc))
        elif op == "-":
            v = self.rv(fr, st, ch[0])
            self.setv(fr, st, i, C(-v.a[0]) if v.op == "c" else T("neg", v))
        elif op in ("+", "__extension__"):
            self.setv(fr, st, i, self.val(fr, st, ch[0]))
        else:
            self.setv(fr, st, i, T("un", op, self.rv(fr, st, ch[0])))

    def add(self, t, k):
        if t.op == "c":
            return C(t.a[0] + k)
        if t.op == "+" and isinstance(t.a[1], int):
            k += t.a[1]
            t = t.a[0]
        if k == 0:
            return t
        return T("+", t, k)

    def arith(self, op, a, b):
        if a.op == "c" and b.op == "c":
            x, y = a.a[0], b.a[0]
            try:
                r = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y,
                     "<<": x << y if 0 <= y < 64 else None, ">>": x >> y if 0 <= y < 64 else None,
                     "/": int(x / y) if y else None, "%": x % y if y else None, "^": x ^ y}.get(op)
                if r is not None:
                    return C(r)
            except (ValueError, OverflowError):
                pass
        if op == "+" and b.op == "c":
            return self.add(a, b.a[0])
        if op == "+" and a.op == "c":
            return self.add(b, a.a[0])
        if op == "-" and b.op == "c":
            return self.add(a, -b.a[0])
        if op == "-" and a is b:
            return C(0)
        return T("ar", op, a, b)

    def e_BinaryOperator(self, fr, st, i, n, ch):
        op = n["op"]
        fid = self.fid(fr)
        if op == "=":
            loc = deref(self.val(fr, st, ch[0]))
            v = self.rv(fr, st, ch[1])
            self.rule.on_assign(self, st, fr, i, loc, v)
            self.write(st, loc, v)
            self.setv(fr, st, i, addr(loc))
            return
        if op == ",":
            self.setv(fr, st, i, self.val(fr, st, ch[1]))
            return
        if op in ("&&", "||"):
            dec = st.vals.pop((fid, i, "dec"), None)
            a = self.rv(fr, st, ch[0])
            if dec is not None:
                short = (dec == 1) if op == "&&" else (dec == 0)
                if short:
                    self.setv(fr, st, i, FALSE if op == "&&" else TRUE)
                else:
                    self.setv(fr, st, i, self.boolify(st, self.rv(fr, st, ch[1])))
                return
            ta = self.truth(st, a)
            if ta is not None and ta == (op == "||"):
                self.setv(fr, st, i, C(int(ta)))
                return
            b = self.rv(fr, st, ch[1])
            self.setv(fr, st, i, self.boolify(st, T("and" if op == "&&" else "or", a, b)))
            return
        if "cv" in n:
            self.setv(fr, st, i, C(n["cv"]))
            return
        a, b = self.rv(fr, st, ch[0]), self.rv(fr, st, ch[1])
        if op in ("==", "!=", "<", ">", "<=", ">="):
            self.setv(fr, st, i, self.mkcmp(st, op, a, b))
            return
        self.setv(fr, st, i, self.arith(op, a, b))

    def mkcmp(self, st, op, a, b):
        # pointer compared with literal zero / nullptr
        if op in ("==", "!="):
            if b.op == "null" or a.op == "null":
                x = a if b.op == "null" else b
                c = T("nonnull", x)
                c = c if op == "!=" else T("not", c)
            else:
                c = T("cmp", op, a, b)
        else:
            c = T("cmp", op, a, b)
        t = self.truth(st, c)
        return C(int(t)) if t is not None else c

    def boolify(self, st, v):
        t = self.truth(st, v)
        return C(int(t)) if t is not None else v

    def e_CompoundAssignOperator(self, fr, st, i, n, ch):
        loc = deref(self.val(fr, st, ch[0]))
        a = self.read(st, loc)
        b = self.rv(fr, st, ch[1])
        v = self.arith(n["op"][:-1], a, b)
        self.rule.on_assign(self, st, fr, i, loc, v)
        self.write(st, loc, v)
        self.setv(fr, st, i, addr(loc))

    def e_ConditionalOperator(self, fr, st, i, n, ch):
        fid = self.fid(fr)
        dec = st.vals.pop((fid, i, "dec"), None)
        if dec is None:
            t = self.truth(st, self.rv(fr, st, ch[0]))
            if t is not None:
                dec = 0 if t else 1
        if dec is not None:
            self.setv(fr, st, i, self.val(fr, st, ch[1 + dec]))
            return
        have = [c for c in ch[1:] if (fid, c) in st.vals]
        if len(have) == 1:
            self.setv(fr, st, i, st.vals[(fid, have[0])])
            return
        self.opaque(fr, st, i, n)

    def e_ImplicitCastExpr(self, fr, st, i, n, ch):
        ck = n.get("ck")
        self.rule.on_cast(self, st, fr, i, n, None)
        c = ch[0]
        if ck == "LValueToRValue":
            if "cv" in n:
                self.setv(fr, st, i, C(n["cv"]))
                return
            self.setv(fr, st, i, self.read(st, deref(self.val(fr, st, c))))
            return
        if ck in ("NullToPointer", "NullToMemberPointer"):
            self.setv(fr, st, i, NULL)
            return
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            v = self.rv(fr, st, c)
            x = T("nonnull", v)
            t = self.truth(st, x)
            self.setv(fr, st, i, C(int(t)) if t is not None else x)
            return
        if ck in ("IntegralToBoolean",):
            v = self.rv(fr, st, c)
            x = T("cmp", "!=", v, C(0)) if v.op not in ("cmp", "not", "nonnull", "and", "or", "c") else v
            t = self.truth(st, x)
            self.setv(fr, st, i, C(int(t)) if t is not None else x)
            return
        if ck == "ArrayToPointerDecay":
            self.setv(fr, st, i, self.val(fr, st, c))
            return
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "BooleanToSignedIntegral"):
            if "cv" in n:
                self.setv(fr, st, i, C(n["cv"]))
                return
            v = self.rv(fr, st, c)
            if v.op == "c" and ck == "IntegralCast" and fr.fn.type_of(i).get("int") == 8:
                x = v.a[0] & 0xff
                v = C(x - 256 if fr.fn.type_of(i).get("sgn") and x >= 128 else x)
            self.setv(fr, st, i, v)
            return
        if ck == "UserDefinedConversion" or ck == "ConstructorConversion":
            self.setv(fr, st, i, self.val(fr, st, c))
            return
        self.setv(fr, st, i, self.val(fr, st, c))
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr
    e_BuiltinBitCastExpr = e_ImplicitCastExpr

    def e_LambdaExpr(self, fr, st, i, n, ch):
        caps = []
        fid = self.fid(fr)
        tmp = T("TMP", fid, i)
        for c in n.get("caps", []):
            if "d" in c:
                dc = fr.fn.decls[c["d"]]
                key = (dc["n"], dc.get("loc"))
                if c["by"] == "ref":
                    l = self.decl_loc(fr, st, c["d"])
                    dty = fr.fn.types[dc["t"]] if dc["t"] >= 0 else {}
                    if "init" in c and dc.get("loc") and self.is_init_capture(fr, c):
                        caps.append((key, "ref", self.val(fr, st, c["init"])))
                    else:
                        caps.append((key, "loc", l))
                else:
                    v = self.val(fr, st, c["init"]) if "init" in c else None
                    loc = T("F", tmp, "cap:" + dc["n"])
                    if v is not None:
                        ty = dict(fr.fn.types[dc["t"]]) if dc["t"] >= 0 else {}
                        isref = ty.pop("ref", None)
                        if isref and v is not None:
                            # copy of the referenced object
                            if self.is_class(ty):
                                self.store_init(fr, st, loc, ty, v)
                            else:
                                self.write(st, loc, v)
                            caps.append((key, "copyref", loc))
                        else:
                            self.store_init(fr, st, loc, ty, v)
                            caps.append((key, "copy", loc))
            else:
                v = st.env.get(T("THISV", fid)) or self.capture(fr, "this") or T("this", fr.fn.cls or "?")
                caps.append(("this", "this", v))
        lam = T("lam", n["fn"], fid, tuple(caps))
        st.env[tmp] = lam
        self.frames[fid] = fr
        self.setv(fr, st, i, addr(tmp))

    def is_init_capture(self, fr, c):
        init = fr.fn.strip(c["init"])
        m = fr.fn.nodes[init]
        return not (m["k"] == "DeclRefExpr" and m["d"] == c["d"])

    def e_DeclStmt(self, fr, st, i, n, ch):
        fid = self.fid(fr)
        fn = fr.fn
        for v in n.get("vars", []):
            d = v["d"]
            dc = fn.decls[d]
            ty = fn.types[dc["t"]] if dc["t"] >= 0 else {}
            if dc.get("glob") or v.get("static"):
                continue
            loc = T("V", fid, d)
            val = None
            if "init" in v:
                val = self.val(fr, st, v["init"])
                if not ty.get("ref") and not self.is_class(ty):
                    val = self.rv(fr, st, v["init"])
                self.store_init(fr, st, loc, ty, val)
            else:
                self.drop_overlay(st, loc)
                st.env[loc] = T("undef", loc)
            self.rule.on_decl(self, st, fr, i, d, loc, val)

    def e_ReturnStmt(self, fr, st, i, n, ch):
        fid = self.fid(fr)
        rl = T("RET", fid)
        if ch and ch[0] >= 0:
            ty = fr.fn.types[fr.fn.ret] if fr.fn.ret >= 0 else {}
            v = self.val(fr, st, ch[0])
            if not ty.get("ref") and not self.is_class(ty):
                v = self.rv(fr, st, ch[0])
            self.rule.on_return(self, st, fr, i, v)
            self.store_init(fr, st, rl, ty, v)
        else:
            self.rule.on_return(self, st, fr, i, None)

    def e_InitListExpr(self, fr, st, i, n, ch):
        ty = fr.fn.type_of(i)
        fid = self.fid(fr)
        if self.is_class(ty):
            loc = T("TMP", fid, i)
            self.drop_overlay(st, loc)
            st.env[loc] = T("r", fid, i, "init")
            fs = n.get("fields", [])
            for j, c in enumerate(ch):
                if j < len(fs) and fs[j] is not None and c >= 0:
                    fd = fr.fn.decls[fs[j]]
                    v = self.val(fr, st, c)
                    fty = fr.fn.types[fd["t"]] if fd["t"] >= 0 else {}
                    if not fty.get("ref") and not self.is_class(fty):
                        v = self.rv(fr, st, c)
                    self.store_init(fr, st, T("F", loc, fd["q"]), fty, v)
            self.setv(fr, st, i, addr(loc))
        elif len(ch) == 1:
            self.setv(fr, st, i, self.val(fr, st, ch[0]))
        elif not ch:
            self.setv(fr, st, i, NULL if ty.get("ptr") else C(0))
        else:
            self.opaque(fr, st, i, n)

    def e_CXXNewExpr(self, fr, st, i, n, ch):
        self.setv(fr, st, i, T("new", self.fid(fr), i))

    def e_CXXThrowExpr(self, fr, st, i, n, ch):
        return []

    # -- calls -------------------------------------------------------------
    def args_of(self, fr, n, ch):
        k = n["k"]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return ch
        return ch[1:]

    def e_CXXMemberCallExpr(self, fr, st, i, n, ch):
        cal = fr.fn.nodes[ch[0]]
        this = None
        if cal["k"] == "MemberExpr" and cal.get("ch"):
            oc = cal["ch"][0]
            if cal.get("arrow"):
                p = self.rv(fr, st, oc)
                self.rule.on_deref(self, st, fr, i, p)
                this = p
            else:
                this = self.val(fr, st, oc)
        return self.call(fr, st, i, n, this, ch[1:])

    def e_CXXOperatorCallExpr(self, fr, st, i, n, ch):
        args = ch[1:]
        this = None
        if n.get("cls") and not n.get("mstatic"):
            this = self.val(fr, st, args[0])
            args = args[1:]
        return self.call(fr, st, i, n, this, args)

    def e_CallExpr(self, fr, st, i, n, ch):
        return self.call(fr, st, i, n, None, ch[1:])
    e_UserDefinedLiteral = e_CallExpr

    def e_CXXConstructExpr(self, fr, st, i, n, ch):
        fid = self.fid(fr)
        loc = T("TMP", fid, i)
        r = self.rule.on_call(self, st, fr, i, n, addr(loc), ch)
        if r is not None:
            for s, v in r:
                self.setv(fr, s, i, v)
            return [s for s, _ in r]
        ty = fr.fn.type_of(i)
        rec = ty.get("rec", "")
        cls = n.get("cls", "")
        if n.get("copy") and ch:
            src = self.val(fr, st, ch[0])
            if n.get("elide"):
                self.setv(fr, st, i, src)
                return
            self.copy_object(st, loc, deref(src))
            self.setv(fr, st, i, addr(loc))
            self.rule.after_call(self, st, fr, i, n, addr(loc), ch, addr(loc))
            return
        if cls in PTR_CLASSES:
            self.write(st, loc, self.ptr_ctor(fr, st, i, n, ch, cls))
            self.setv(fr, st, i, addr(loc))
            self.rule.after_call(self, st, fr, i, n, addr(loc), ch, addr(loc))
            return
        f = self.prog.fns.get(n.get("fn"))
        if f is not None and f.cfg and self.may_inline(fr, f):
            self.drop_overlay(st, loc)
            st.env[loc] = T("new", fid, i)
            out = self.inline(fr, st, i, f, addr(loc), ch)
            for s in out:
                self.rule.on_construct(self, s, fr, i, f.cls, loc)
                self.setv(fr, s, i, addr(loc))
                self.rule.after_call(self, s, fr, i, n, addr(loc), ch, addr(loc))
            return out
        if cls == "std::pair" and len(ch) == 2:
            self.make_pair(fr, st, i, loc, ch)
            self.setv(fr, st, i, addr(loc))
            self.rule.after_call(self, st, fr, i, n, addr(loc), ch, addr(loc))
            return
        self.escape_args(fr, st, i, n, ch)
        # opaque object; a conversion from one argument keeps its identity so
        # that facts such as "the same string" survive
        self.drop_overlay(st, loc)
        vals = tuple(self.argterm(fr, st, c) for c in ch)
        if all(v is not None for v in vals):
            st.env[loc] = T("mk", cls, *vals)
        else:
            st.env[loc] = self.fresh(st, fr, i, "ctor")
        self.setv(fr, st, i, addr(loc))
        self.rule.after_call(self, st, fr, i, n, addr(loc), ch, addr(loc))
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def make_pair(self, fr, st, i, loc, ch):
        vals = [(self.val(fr, st, c) if self.is_class(fr.fn.type_of(c)) else None, self.rv(fr, st, c)) for c in ch]
        self.drop_overlay(st, loc)
        st.env[loc] = T("new", self.fid(fr), i)
        for f, (lv, rv) in zip(PAIR, vals):
            if lv is not None and lv.op == "&":
                self.copy_object(st, T("F", loc, f), deref(lv))
            else:
                self.write(st, T("F", loc, f), rv)

    def argterm(self, fr, st, c):
        return self.rv(fr, st, c)

    def ptr_ctor(self, fr, st, i, n, ch, cls):
        if not ch:
            return NULL
        a = ch[0]
        aty = fr.fn.type_of(a)
        an = self.rv(fr, st, a)
        arec = aty.get("rec", "") if not aty.get("ptr") else ""
        if an.op == "null" or arec in ("std::nullopt_t",):
            return NULL
        if cls == "llvm::Expected" and arec in ("llvm::Error", "llvm::ErrorSuccess") or \
                (cls == "llvm::Expected" and arec.startswith("llvm::") and arec.endswith("Error")):
            t = T("err", self.fid(fr), i)
            st.facts[("nn", t)] = False
            return t
        if cls in ("std::optional", "llvm::Expected"):
            if arec == cls and cls != "llvm::Expected":
                # converting from optional<U>: same presence
                return T("conv", cls, an) if False else an
            if arec == "llvm::Expected":
                return an
            t = T("wrap", self.fid(fr), i)
            st.facts[("nn", t)] = True
            # content: copy of the argument
            v = self.val(fr, st, a)
            if v.op == "&" or self.is_class(aty):
                self.copy_object(st, T("D", t), deref(v))
            else:
                self.write(st, T("D", t), an)
            return t
        if cls in ("std::shared_ptr", "std::unique_ptr"):
            return an
        if aty.get("lambda") or an.op == "lam":
            return an
        return an

    def this_is_ptrclass(self, n):
        return n.get("cls") in PTR_CLASSES

    def call(self, fr, st, i, n, this, args):
        r = self.rule.on_call(self, st, fr, i, n, this, args)
        if r is not None:
            for s, v in r:
                if v is not None:
                    self.setv(fr, s, i, v)
                    self.rule.after_call(self, s, fr, i, n, this, args, v)
            return [s for s, _ in r]
        if n.get("noret"):
            return []
        q = n.get("q", "")
        if self.rule.in_place and q in ("std::make_shared", "std::make_unique", "std::make_optional"):
            ta = fr.fn.type_of(i).get("args") or [{}]
            g = self.find_ctor(fr, ta[0].get("rec"), args)
            if g is not None and self.may_inline(fr, g):
                w = "wrap" if q == "std::make_optional" else "new"
                t = self.fresh_obj(st, w, fr, i)
                out = self.construct_at(fr, st, i, g, deref(t), args)
                for s in out:
                    loc = T("TMP", self.fid(fr), i)
                    self.write(s, loc, t)
                    self.setv(fr, s, i, addr(loc))
                    self.rule.after_call(self, s, fr, i, n, this, args, addr(loc))
                return out
        b = self.builtin(fr, st, i, n, q, this, args)
        if b is not None:
            self.setv(fr, st, i, b)
            self.rule.after_call(self, st, fr, i, n, this, args, b)
            return [st]
        # closure call
        lam = None
        if this is not None and n.get("op") == "()":
            lam = self.read(st, deref(this))
            if lam.op == "ver" and lam.a[0].op == "lam":
                lam = lam.a[0]  # written to since: the captures are read from the object
            if lam.op != "lam":
                lam = None
        f = self.prog.fns.get(lam.a[0] if lam is not None else n.get("fn"))
        if f is not None and f.cfg and (not n.get("virt") or self.devirt(n)) and self.may_inline(fr, f):
            out = self.inline(fr, st, i, f, this, args, lam)
            for s in out:
                self.rule.after_call(self, s, fr, i, n, this, args, s.vals.get((self.fid(fr), i)))
            return out
        self.unknown_call(fr, st, i, n, this, args)
        self.rule.after_call(self, st, fr, i, n, this, args, st.vals.get((self.fid(fr), i)))
        return [st]

    def fresh_obj(self, st, op, fr, i):
        t = T(op, self.fid(fr), i)
        self.kill_symbol(st, t)
        self.kill_wrap(st, t)
        return t

    def construct_at(self, fr, st, i, g, loc, args):
        """Run constructor g on the object at loc."""
        self.drop_overlay(st, loc)
        st.env[loc] = T("new", self.fid(fr), i, "o")
        out = self.inline(fr, st, i, g, addr(loc), args)
        for s in out:
            self.rule.on_construct(self, s, fr, i, g.cls, loc)
        return out

    def find_ctor(self, fr, cls, args):
        """The one constructor of a repository class that fits the arguments
        of an in-place construction; None when that is not clear."""
        if not cls or cls not in self.prog.recs:
            return None
        if self._ctors is None:
            self._ctors = {}
            for f in self.prog.fns.values():
                if f.d.get("ctor") and f.cfg:
                    self._ctors.setdefault(f.cls, []).append(f)
        best = []
        for f in self._ctors.get(cls, []):
            if len(f.params) != len(args):
                continue
            score = 0
            for d, a in zip(f.params, args):
                pt, at = f.types[f.decls[d]["t"]], fr.fn.type_of(a)
                pr, ar = pt.get("rec"), at.get("rec")
                if pr == ar and bool(pt.get("ptr")) == bool(at.get("ptr")):
                    score += 2 if pr or pt.get("s") == at.get("s") else 1
                elif pr and not ar and not pt.get("ptr") and at.get("enum"):
                    score -= 5
            best.append((score, f.id, f))
        best.sort(key=lambda x: (-x[0], x[1]))
        if not best or len(best) > 1 and best[0][0] == best[1][0]:
            return None
        return best[0][2]

    def devirt(self, n):
        if self._overriders is None:
            self._overriders = {}
            for f in self.prog.fns.values():
                for o in f.d.get("over", []):
                    self._overriders.setdefault(o, set()).add(f.id)
        return not self._overriders.get(n.get("fn"))

    def may_inline(self, fr, f):
        if fr.depth + 1 > self.rule.max_depth or f.id in self.rule.cut:
            return False
        if self.weight(f) > self.rule.max_inline_blocks:
            return False
        x = fr
        while x:
            if x.fn.id == f.id:
                return False
            x = x.parent
        return self.rule.inline(self, fr, f)

    def weight(self, f):
        """CFG blocks of f plus those of the callees that would be inlined;
        recursive functions weigh infinitely much (never inlined) and add
        nothing to their callers."""
        wk = ("weight", self.rule.cut)
        w = f.memo.get(wk)
        if w is None:
            if self.in_cycle(f):
                w = 10 ** 6
            else:
                w = len(f.blocks)
                for e in f.nodes:
                    if e and "fn" in e and e["fn"] in self.prog.fns:
                        g = self.prog.fns[e["fn"]]
                        if g.cfg and g.id not in self.rule.cut and not self.in_cycle(g):
                            w += self.weight(g)
            f.memo[wk] = w
        return w

    def in_cycle(self, f):
        ck = ("cyc", self.rule.cut)
        c = f.memo.get(ck)
        if c is None:
            seen, w = set(self.rule.cut) - {f.id}, [f.id]
            c = False
            while w and not c:
                g = self.prog.fns.get(w.pop())
                if g is None:
                    continue
                for e in g.nodes:
                    if e and "fn" in e:
                        if e["fn"] == f.id:
                            c = True
                            break
                        if e["fn"] not in seen and e["fn"] in self.prog.fns:
                            seen.add(e["fn"])
                            w.append(e["fn"])
            f.memo[ck] = c
        return c

    def inline(self, fr, st, i, f, this, args, lam=None):
        self.stats["inlined"] += 1
        sub = Frame(f, fr, i)
        sid = self.fid(sub)
        fid = self.fid(fr)
        # clear stale state of an earlier activation of this frame
        self.purge_frame(st, sid)
        if lam is not None:
            self.bind_caps(sub, lam, st)
        elif this is not None:
            st.env[T("THISV", sid)] = this
        for j, d in enumerate(f.params):
            if j >= len(args):
                break
            ty = f.types[f.decls[d]["t"]]
            a = args[j]
            loc = T("V", sid, d)
            v = self.val(fr, st, a)
            if ty.get("ref"):
                self.write(st, loc, v)
            elif self.is_class(ty):
                self.store_init(fr, st, loc, ty, v)
            else:
                self.write(st, loc, self.rv(fr, st, a))
        exits = self.run(sub, [st])
        out = []
        n = fr.fn.nodes[i]
        rty = f.types[f.ret] if f.ret >= 0 else {}
        for s in exits:
            rl = T("RET", sid)
            if rl in s.env or any(self.under(k, rl) for k in s.env if k.op in ("F", "E")):
                if rty.get("ref"):
                    v = s.env[rl]
                    self.setv(fr, s, i, v)
                elif self.is_class(rty):
                    tmp = T("TMP", fid, i)
                    self.copy_object(s, tmp, rl)
                    self.setv(fr, s, i, addr(tmp))
                else:
                    self.setv(fr, s, i, s.env[rl])
            elif n["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                self.opaque(fr, s, i, n, "noret")
            self.purge_frame(s, sid)
            out.append(s)
        return out

    def bind_caps(self, sub, lam, st):
        caps = {}
        for key, how, x in lam.a[2]:
            if how == "this":
                caps["this"] = x
            elif how == "loc":
                caps[key] = x
            elif how == "ref":
                l = T("F", T("TMP", "capref", lam), str(key))
                st.env[l] = x
                caps[key] = l
            elif how == "copyref":
                # decl has reference type in the body's table: hold an address
                l = T("F", T("TMP", "capref", lam), str(key))
                st.env[l] = addr(x)
                caps[key] = l
            else:
                caps[key] = x
        sub.caps = caps

    def purge_frame(self, st, sid):
        for k in [k for k in st.env if k.root == sid]:
            del st.env[k]
        for k in [k for k in st.vals if k[0] == sid]:
            del st.vals[k]

    def escape_lambda(self, fr, st, i, lam):
        """A closure is handed to unseen code: analyse its body here, with
        unknown arguments, then forget what it may write."""
        f = self.prog.fns.get(lam.a[0])
        if f is None or not f.cfg:
            return
        if self.rule.on_escape_lambda(self, st, fr, i, lam) and self.may_inline(fr, f):
            s = st.clone()
            sub = Frame(f, fr, i)
            sid = self.fid(sub)
            self.purge_frame(s, sid)
            self.bind_caps(sub, lam, s)
            for j, d in enumerate(f.params):
                ty = f.types[f.decls[d]["t"]]
                p = T("param", f.id, j)
                s.env[T("V", sid, d)] = p
                if ty.get("ref"):
                    s.facts[("nn", p)] = True
            self.run(sub, [s])
        m = self.fn_mods(lam.a[0])
        for key, how, x in lam.a[2]:
            if how == "loc" and key in m["named"]:
                self.havoc(st, x, fr, i, "lam:" + str(key))
        self.havoc_fields(st, fr, i, m, "lamf:")

    def havoc_fields(self, st, fr, i, m, tag):
        if not m["fields"]:
            return
        byf = {}
        for p in m["fields"]:
            byf.setdefault(p[-1], set()).add(p)
        ptd = self.pointed(st)
        for k in list(st.env):
            if k.op == "F" and k in st.env:
                root = k
                while root.op in ("F", "E"):
                    root = root.a[0]
                if root.op in ("V", "TMP", "RET") and root not in ptd:
                    continue
                if self.field_hit(k, byf):
                    st.env[k] = self.fresh(st, fr, i, tag + str(k.n))

    def escape_args(self, fr, st, i, n, args):
        for a in args:
            if a < 0:
                continue
            v = self.val(fr, st, a)
            t = self.read(st, deref(v)) if v.op == "&" else v
            if t.op == "lam":
                self.escape_lambda(fr, st, i, t)

    def unknown_call(self, fr, st, i, n, this, args):
        fn = fr.fn
        pts = n.get("pt", [])
        self.escape_args(fr, st, i, n, args)
        pure = (n.get("mconst") and this is not None) or (
            n.get("q", "") in PURE_FUNCS)
        if n.get("op") in ("==", "!=", "<", ">", "<=", ">=", "+", "-"):
            pure = True
        if n.get("op") in ("[]", "*", "->") or n.get("fnm") in (
                "begin", "end", "back", "front", "at", "data", "find", "size", "empty", "cbegin", "cend",
                "rbegin", "rend", "count", "contains"):
            pure = True
        ty = fn.type_of(i)
        if pure:
            ts = []
            if this is not None:
                ts.append(self.version(st, deref(this)))
            for a in args:
                ts.append(self.rv(fr, st, a))
            key = n.get("fnm", "?") + (n.get("op", ""))
            t = T("call", key, *ts)
            if n.get("lv") or n.get("xv"):
                # reference into the (current value of the) object
                self.setv(fr, st, i, t)
                if ("nn", t) not in st.facts:
                    st.facts[("nn", t)] = True
            elif self.is_class(ty):
                loc = T("TMP", self.fid(fr), i)
                self.write(st, loc, t)
                self.setv(fr, st, i, addr(loc))
            else:
                if t.op == "call" and n.get("op") in ("==", "!=", "<", ">", "<=", ">=") and len(ts) == 2:
                    t = self.mkcmp(st, n["op"], ts[0], ts[1])
                self.setv(fr, st, i, t)
            return
        if this is not None and not n.get("mconst"):
            l = deref(this)
            if n.get("inrepo"):
                # a repository method we do not inline: forget what it may write
                m = self.fn_mods(n.get("fn"))
                if n.get("fn") in self.prog.fns:
                    self.havoc_fields(st, fr, i, m, "mod:")
                    # fields nothing is known about yet, too
                    for p in m["fields"]:
                        k = T("F", l, p[0])
                        if k not in st.env:
                            st.env[k] = self.fresh(st, fr, i, "mod:" + str(k.n))
                else:
                    self.havoc(st, l, fr, i, "this")
            else:
                self.havoc(st, l, fr, i, "this")
        stdins = n.get("fnm") in ("push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_front",
                                  "insert_or_assign", "try_emplace") and \
            n.get("cls", "").startswith(("std::", "boost::", "llvm::"))
        for j, a in enumerate(args):
            pt = fn.types[pts[j]] if j < len(pts) and pts[j] >= 0 else {}
            v = st.vals.get((self.fid(fr), a))
            if v is None or stdins and not fn.nodes[a].get("xv"):
                continue        # containers copy what is not moved into them
            if pt.get("ref") and not pt.get("const"):
                if v.op == "&" or fn.nodes[a].get("lv") or fn.nodes[a].get("xv"):
                    self.havoc(st, deref(v), fr, i, "arg%d" % j, n.get("inrepo"))
            elif pt.get("ptr") and not pt.get("pconst"):
                if v.op == "&":
                    self.havoc(st, v.a[0], fr, i, "arg%d" % j, n.get("inrepo"))
        self.opaque(fr, st, i, n, "ret")

    def version(self, st, loc):
        """Value of an object together with what is known to have been written
        into it: equal terms mean an unchanged object."""
        base = self.read(st, loc)
        ov = [(k, v) for k, v in st.env.items() if k.op in ("F", "E") and self.under(k, loc)]
        if not ov:
            return base
        ov.sort(key=lambda kv: str(kv[0]))
        return T("ver", base, *[x for kv in ov for x in kv])

    def builtin(self, fr, st, i, n, q, this, args):
        """Models of a few library operations; None when not modelled."""
        fnm = n.get("fnm", "")
        cls = n.get("cls", "")
        op = n.get("op")
        fid = self.fid(fr)
        if q in IDENT_FUNCS and args:
            return self.val(fr, st, args[0])
        if cls in PTR_CLASSES and this is not None:
            loc = deref(this)
            cur = self.read(st, loc)
            if fnm == "operator bool" or fnm == "has_value":
                x = T("nonnull", cur)
                t = self.truth(st, x)
                return C(int(t)) if t is not None else x
            if op == "*" or fnm == "value":
                self.rule.on_deref(self, st, fr, i, cur)
                return addr(deref(cur)) if (n.get("lv") or n.get("xv")) else None
            if op == "->" or fnm == "get":
                if op == "->":
                    self.rule.on_deref(self, st, fr, i, cur)
                if cls == "llvm::Expected" and fnm == "get":
                    return addr(deref(cur))
                return cur
            if fnm == "lock" and cls == "std::weak_ptr":
                return None
            if op == "=":
                if args:
                    a = args[0]
                    av = self.rv(fr, st, a)
                    aty = fr.fn.type_of(a)
                    arec = aty.get("rec", "")
                    if av.op == "null" or arec == "std::nullopt_t":
                        nv = NULL
                    elif cls == "std::optional" and arec != "std::optional":
                        nv = T("wrap", fid, i)
                        self.kill_wrap(st, nv)
                        st.facts[("nn", nv)] = True
                        v = self.val(fr, st, a)
                        if v.op == "&" or self.is_class(aty):
                            self.copy_object(st, T("D", nv), deref(v))
                        else:
                            self.write(st, T("D", nv), av)
                    else:
                        nv = av
                    self.rule.on_assign(self, st, fr, i, loc, nv)
                    self.write(st, loc, nv)
                    return this
            if fnm == "reset":
                self.write(st, loc, self.rv(fr, st, args[0]) if args else NULL)
                return C(0)
            if fnm == "emplace":
                nv = T("wrap", fid, i)
                self.kill_wrap(st, nv)
                st.facts[("nn", nv)] = True
                self.escape_args(fr, st, i, n, args)
                self.write(st, loc, nv)
                return addr(T("D", nv))
            if fnm == "release":
                self.write(st, loc, NULL)
                return cur
            if fnm == "value_or" and args:
                t = self.truth(st, T("nonnull", cur))
                if t is False:
                    return self.val(fr, st, args[0]) if not self.is_class(fr.fn.type_of(i)) else None
                return None
        if q in ("std::operator==", "std::operator!=") and len(args) == 2 and op in ("==", "!="):
            # smart pointer / optional compared with nullptr / nullopt
            for x, y in ((0, 1), (1, 0)):
                ty = fr.fn.type_of(args[y])
                s = ty.get("s", "")
                if s in ("std::nullptr_t", "nullptr_t") or ty.get("rec") == "std::nullopt_t" or \
                        self.rv(fr, st, args[y]).op == "null":
                    xr = fr.fn.type_of(args[x]).get("rec")
                    if xr in PTR_CLASSES:
                        c = T("nonnull", self.rv(fr, st, args[x]))
                        if op == "==":
                            c = T("not", c)
                        t = self.truth(st, c)
                        return C(int(t)) if t is not None else c
            for x, y in ((0, 1), (1, 0)):
                if fr.fn.type_of(args[x]).get("rec") == "std::optional":
                    ov = self.rv(fr, st, args[x])
                    nn = self.nullness(st, ov)
                    yr = fr.fn.type_of(args[y]).get("rec")
                    if nn is False and yr != "std::optional":
                        return C(int(op == "!="))
                    if nn is True and yr != "std::optional":
                        return self.mkcmp(st, op, self.read(st, T("D", ov)), self.rv(fr, st, args[y]))
                    break
        if fnm in ("size", "length") and this is not None and cls.startswith("std::basic_string"):
            v = self.read(st, deref(this))
            return self.str_len(st, v)
        if fnm in ("end", "cend") and this is not None and cls.startswith("std::basic_string") and n.get("mconst"):
            v = self.read(st, deref(this))
            return self.arith("+", T("call", "begin", v), self.str_len(st, v))
        if fnm == "cbegin" and this is not None and cls.startswith("std::basic_string") and n.get("mconst"):
            return T("call", "begin", self.read(st, deref(this)))
        if fnm in ("empty",) and this is not None and cls.startswith("std::basic_string"):
            v = self.read(st, deref(this))
            return self.mkcmp(st, "==", self.str_len(st, v), C(0))
        if q == "std::get" and len(args) == 1 and fr.fn.type_of(args[0]).get("rec") in ("std::pair", "std::tuple"):
            return addr(T("TMP", fid, i))   # an element; reads only
        if q == "std::make_pair" and len(args) == 2:
            loc = T("TMP", fid, i)
            self.make_pair(fr, st, i, loc, args)
            return addr(loc)
        if q in ("std::make_shared", "std::make_unique", "std::make_optional"):
            self.escape_args(fr, st, i, n, args)
            t = T("new", fid, i)
            loc = T("TMP", fid, i)
            self.write(st, loc, t)
            return addr(loc)
        if fnm == "operator=" and this is not None and not n.get("inrepo") and len(args) == 1:
            # assignment of library classes: copy
            aty = fr.fn.type_of(args[0])
            if aty.get("rec") and aty.get("rec") == cls:
                v = self.val(fr, st, args[0])
                self.rule.on_assign(self, st, fr, i, deref(this), self.read(st, deref(v)))
                self.copy_object(st, deref(this), deref(v))
                return this
            v = self.rv(fr, st, args[0])
            self.rule.on_assign(self, st, fr, i, deref(this), v)
            self.write(st, deref(this), T("mk", cls, v))
            return this
        if fnm == "operator=" and this is not None and n.get("dflt") and len(args) == 1:
            v = self.val(fr, st, args[0])
            self.rule.on_assign(self, st, fr, i, deref(this), self.read(st, deref(v)))
            self.copy_object(st, deref(this), deref(v))
            return this
        return None

    def str_len(self, st, v):
        """Length term of a string-like value."""
        if v.op == "str":
            return C(v.a[1])
        if v.op == "mk" and len(v.a) == 2 and isinstance(v.a[1], Term):
            return self.str_len(st, v.a[1])
        if v.op == "mk" and len(v.a) == 3 and v.a[1].op == "str" and v.a[2].op == "c":
            return v.a[2]
        if v.op == "call" and v.a[0] == "substr" and (len(v.a) == 3 or len(v.a) == 4 and v.a[3].op == "c"
                                                      and v.a[3].a[0] in (-1, 2**64 - 1)):
            return self.arith("-", self.str_len(st, v.a[1]), v.a[2])
        return T("call", "length", v)

    def kill_wrap(self, st, t):
        for k in [k for k in st.env if k.op == "D" and k.a[0] is t or (k.op in ("F", "E") and self.under(k, T("D", t)))]:
            del st.env[k]


PURE_FUNCS = {"std::isalpha", "isalpha", "isdigit", "isalnum", "isspace", "std::min", "std::max",
              "std::distance", "std::next", "std::prev", "std::begin", "std::end", "std::size"}
