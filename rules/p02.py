"""P02: parsing terminates because every step consumes input.

Lexer: every loop iteration of every tokenising operation moves the cursor
forward (or the loop counts to a fixed bound), and a token is returned without
moving the cursor only if its kind is one of the end markers.  Parser: every
loop iteration consumes at least one token that is not an end marker, and no
cycle of recursive calls exists along which nothing is consumed.  Decided by
abstract interpretation with difference bounds on the cursor and on the abstract
token position; recursive parse functions are summarised by a fixpoint."""
import absint
import p01
import parsermodel
from absint import T, C, Engine
from check import load_prog
from facts import AnalysisBroken

EXPLANATION = __doc__


class LexProgress(p01.Bounds):
    max_states = 200
    peel = True
    join_above = 6

    def __init__(self, *a):
        super().__init__(*a)
        self.loops = {}
        self.exits = {}
        self.kind = None
        self.stash = {}
        self.rets = {}
        self.memo = {}

    keep_fact = None

    def ob(self, eng, fr, node, kind, ok, msg):
        pass

    ENTRY = T("G", "#entry")

    def on_call(self, eng, st, fr, node, n, this, args):
        # a predicate that writes nothing: equal arguments, equal answer
        g = self.prog.fns.get(n.get("fn"))
        if g is not None and g.cfg and g.ret >= 0 and g.types[g.ret].get("s") == "bool":
            m = eng.fn_mods(g.id)
            if not m["fields"] and not m["named"]:
                vs = [eng.rv(fr, st, a) for a in args]
                if len(vs) == 1 and vs[0].op == "mk" and vs[0].a[1].op == "str" and self.tests_prefix(g) and \
                        self.known_prefix(eng, st, vs[0].a[1].a[0]):
                    return [(st, C(1))]
                return [(st, T("call", "pure:" + g.id, self.off(eng, st), *vs))]
        return super().on_call(eng, st, fr, node, n, this, args)

    def known_prefix(self, eng, st, text):
        o = self.off(eng, st)
        for i, c in enumerate(text or ""):
            ch = T("obj", T("call", "operator[][]", eng.read(st, self.src_loc), eng.arith("+", o, C(i))))
            if st.facts.get(("dom", ch)) != ("in", frozenset([ord(c)])):
                return False
        d = eng.diff_lb(st, self.length(eng, st), o)
        return bool(text) and d is not None and d >= len(text)

    def tests_prefix(self, g):
        """Is `g() == true` only possible when the text at the cursor starts
        with the argument?"""
        v = self.prefix_fns.get(g.id)
        if v is None:
            rule, ok, self_ = p01.Bounds(self.chk, self.cls, self.f_cur, self.f_off, self.src_loc.a[1], []), [], self

            class R(type(rule)):
                keep_fact = None

                def on_call(r, eng, st, fr, node, n, this, args):
                    got = p01.Bounds.on_call(r, eng, st, fr, node, n, this, args)
                    if n.get("fnm") in ("starts_with", "startswith") and got and len(got) == 2:
                        t = T("call", "starts_with", eng.read(st, absint.deref(this)), eng.rv(fr, st, args[0]))
                        for s, v in got:
                            s.facts[("nn", t)] = v.a[0] == 1
                        return [(s, t) for s, v in got]
                    return got

                def on_assume(r, eng, st, fr, cond, truth):
                    if cond is not None and cond.op == "cmp" and cond.a[0] in ("<", ">", "<=", ">="):
                        op, a, b = cond.a
                        if op in ("<", "<="):
                            a, b = b, a
                        if (op in (">", "<")) != truth:      # a >(=) b holds negated
                            a, b = None, None
                        elif not truth:
                            a, b = b, a                      # not (a >= b): b > a
                        if a is not None:
                            d, k = eng.linear(eng.arith("-", eng.arith("+", self_.off(eng, st), eng.str_len(
                                st, T("param", g.id, 0))), self_.length(eng, st)))
                            d2, k2 = eng.linear(eng.arith("-", a, b))
                            if d == d2 and k2 <= k:
                                st.ts["short"] = True
                    return p01.Bounds.on_assume(r, eng, st, fr, cond, truth)

                def on_exit(r, eng, st, fr):
                    if fr.parent is None:
                        rv = st.env.get(T("RET", eng.fid(fr)))
                        t = eng.truth(st, rv) if rv is not None else None
                        p = T("param", g.id, 0)
                        if t is False:
                            # the only reasons to say no: too short, or no prefix
                            ok.append(any(f[0] == "nn" and w is False and f[1].op == "call" and f[1].a[0] == "starts_with"
                                          for f, w in st.facts.items()) or st.ts.get("short", False))
                            return
                        ok.append(any(f[0] == "nn" and w is True and f[1].op == "call" and f[1].a[0] == "starts_with"
                                      and f[1].a[1].op == "call" and f[1].a[1].a[0] == "substr"
                                      and f[1].a[1].a[2] is self_.off(eng, st) and f[1].a[2] is p
                                      for f, w in st.facts.items()))
            rule.__class__ = R
            Engine(self.prog, rule).run_root(g)
            v = self.prefix_fns[g.id] = bool(ok) and all(ok)
        return v

    prefix_fns = {}
    again = None

    def relex(self, eng, a, kind, b):
        """Kinds the operation b may return where operation a returned kind."""
        key = (a, kind, b.n)
        if key not in self.memo:
            self.again = set()
            for st, start in self.stash.get((a, kind), []):
                st = st.clone()
                st.vals = {}
                fr = absint.Frame(b, None, 1)
                st.env[T("THISV", eng.fid(fr))] = self.this
                eng.write(st, self.off_loc, start)
                st.env[self.ENTRY] = start
                eng.steps = 0
                eng.run(fr, [st])
            self.memo[key] = self.again or {None}
            self.again = None
        return self.memo[key]

    def on_assume(self, eng, st, fr, cond, truth):
        if cond is not None and truth and cond.op == "call" and str(cond.a[0]).startswith("pure:") and len(cond.a) == 3:
            a = cond.a[2]
            if a.op == "mk" and a.a[1].op == "str" and a.a[1].a[0] and \
                    self.tests_prefix(self.prog.fns[cond.a[0][5:]]):
                ch = T("obj", T("call", "operator[][]", eng.read(st, self.src_loc), cond.a[1]))
                if not eng.set_dom(st, ch, ("in", frozenset([ord(a.a[1].a[0][0])]))):
                    return False
        return super().on_assume(eng, st, fr, cond, truth)

    def on_loop_pre(self, eng, st, fr, head, first):
        super().on_loop_pre(eng, st, fr, head, first)
        h = T("G", "#head%d/%d" % (eng.fid(fr), head))
        o = self.off(eng, st)
        if first:
            st.env[h] = o
            st.ts[("idle", eng.fid(fr), head)] = False
        else:
            ok = parsermodel.structurally_bounded(fr.fn, fr.info, head)
            if not ok:
                d = eng.diff_lb(st, o, st.env[h]) if h in st.env else None
                ok = parsermodel.progressed(st, eng.fid(fr), head, d is not None and d >= 1)
            b = fr.info.blocks[head]
            node = b.get("t")
            if node is None:
                node = next((e for e in b["e"] if isinstance(e, int)), None)
            k = (fr.fn.id, node)
            v = self.loops.setdefault(k, [True, fr.fn.loc(node)])
            if not ok:
                v[0] = False
                self.alarm(eng, fr, node, "an iteration of this loop may leave the cursor where it was",
                           "loop progress (in %s)" % fr.fn.n)
        self.pend_heads = [(k, eng.diff_lb(st, o, v)) for k, v in st.env.items()
                           if k.op == "G" and k is not h and (k is self.ENTRY or str(k.a[0]).startswith("#head"))]

    def on_edge(self, eng, st, fr, src, dst):
        parsermodel.left_loops(st, eng.fid(fr), fr.info, dst)

    def on_loophead(self, eng, st, fr, head, first):
        super().on_loophead(eng, st, fr, head, first)
        o = self.off(eng, st)
        h = T("G", "#head%d/%d" % (eng.fid(fr), head))
        st.env[h] = o
        for k, d in self.pend_heads:
            if d is not None and d >= 0 and k in st.env:
                eng.set_diff(st, o, st.env[k], min(d, 1))

    def on_merge(self, eng, st, fr, bid, group):
        super().on_merge(eng, st, fr, bid, group)
        o = self.off(eng, st)
        for k in [k for k in st.env if k.op == "G" and (k is self.ENTRY or str(k.a[0]).startswith("#head"))]:
            ds = [eng.diff_lb(b, self.off(eng, b), b.env[k]) if k in b.env else None for b in group]
            if all(d is not None and d >= 0 for d in ds):
                eng.set_diff(st, o, st.env[k], min(min(ds), 1))

    def on_exit(self, eng, st, fr):
        if fr.parent is not None:
            return
        if self.again is not None:
            d = eng.diff_lb(st, self.off(eng, st), eng.read(st, self.ENTRY))
            k = eng.read(st, T("F", T("RET", eng.fid(fr)), self.kind))
            self.again.add(k.a[0] if k.op == "c" else None)
            return
        k = eng.read(st, T("F", T("RET", eng.fid(fr)), self.kind))
        dom = st.facts.get(("dom", k))
        self.rets.setdefault(fr.fn.n, set()).update(
            {k.a[0]} if k.op == "c" else set(dom[1]) if dom and dom[0] == "in" else {None})
        start = [l for l in self.offs if l is not self.off_loc]
        if k.op == "c" and len(start) == 1:
            self.stash.setdefault((fr.fn.n, k.a[0]), []).append((st.clone(), eng.read(st, start[0])))
        d = eng.diff_lb(st, self.off(eng, st), eng.read(st, self.ENTRY))
        if d is None or d < 1:
            k = eng.read(st, T("F", T("RET", eng.fid(fr)), self.kind))
            if k.op == "c":
                ks = {k.a[0]}
            else:
                dom = st.facts.get(("dom", k))
                ks = set(dom[1]) if dom and dom[0] == "in" else {None}
            self.exits.setdefault(fr.fn.n, set()).update(ks)
        else:
            self.exits.setdefault(fr.fn.n, set())


def lexer_progress(chk, prog):
    rule = p01.setup(chk, prog)
    r2 = LexProgress(chk, rule.cls, rule.f_cur, rule.f_off, rule.src_loc.a[1],
                     [c.a[1] for c in rule.cursors])
    r2.prog = prog
    r2.kind = parsermodel.member(prog, "nixf::Token", lambda t: "TokenKind" in t.get("s", ""), "token kind")
    eng = Engine(prog, r2)
    eng.step_budget = 20000000
    roots = [f for f in prog.fns.values() if f.cls == "nixf::Lexer" and f.cfg and f.d.get("acc") == "public"
             and f.ret >= 0 and f.types[f.ret].get("rec") == "nixf::Token"]
    if len(roots) < 2:
        raise AnalysisBroken("anchor vanished: tokenising operations")
    for f in roots:
        def init(eng, st, fr):
            r2.invariant(eng, st)
            o = r2.off(eng, st)
            st.env[r2.ENTRY] = o
            st.env[r2.off_loc] = o
        eng.run_root(f, init)
    if eng.stats["budget"]:
        raise AnalysisBroken("state budget exhausted")
    r2.eng = eng
    return r2, roots


def enum_kinds(prog):
    for q, e in prog.enums.items():
        if q.split("::")[-1] == "TokenKind":
            return {x["n"]: x["v"] for x in e["vals"]}
    raise AnalysisBroken("anchor vanished: TokenKind")


class ModeMixed(AnalysisBroken):
    pass


def modes(prog, lexroots):
    """mode constant -> tokenising operation used in that mode, read off the
    switch that fills the look-ahead buffer."""
    pk = prog.one(parsermodel.P + "::peek")
    out = {}

    class M(absint.Rule):
        max_depth = 3
        max_inline_blocks = 1 << 30

        def inline(self, eng, fr, fn):
            return bool(fn.d.get("lambda")) or fn.cls == parsermodel.P and fn.n != "peek"

        def on_call(self, eng, st, fr, node, n, this, args):
            if n.get("cls") == "std::stack" and n.get("fnm") == "top":
                loc = T("TMP", eng.fid(fr), node)
                eng.write(st, loc, C(self.mode))
                return [(st, absint.addr(loc))]
            if n.get("cls") == "nixf::Lexer" and n.get("fnm") in lexroots:
                self.seen.add(n["fnm"])
            return None

    for q, e in prog.enums.items():
        if q == parsermodel.P + "::ParserState":
            for x in e["vals"]:
                m = M()
                m.mode = x["v"]
                m.seen = set()
                Engine(prog, m).run_root(pk)
                if len(m.seen) != 1:
                    raise ModeMixed("mode %s does not select one tokenising operation: %s" % (x["n"], sorted(m.seen)))
                out[x["v"]] = m.seen.pop()
    if not out:
        raise AnalysisBroken("anchor vanished: lexing modes")
    return out


def initial_mode(prog, rule, eng):
    """Mode the constructor pushes."""
    out = set()
    keep = rule.on_exit

    def on_exit(eng, st, fr):
        if fr.parent is None:
            out.add(eng.read(st, parsermodel.MODE))
    rule.on_exit = on_exit
    rule.root = None
    for f in prog.fns.values():
        if f.cls == parsermodel.P and f.d.get("ctor") and f.cfg and len(f.params) == 2:
            eng.run_root(f)
    rule.on_exit = keep
    if len(out) != 1 or next(iter(out)).op != "c":
        raise AnalysisBroken("the parser's initial lexing mode is not a constant: %s" % out)
    return next(iter(out)).a[0]


def parser_model(chk, prog):
    lr, roots = lexer_progress(chk, prog)
    zero = {r.n: lr.exits.get(r.n, set()) for r in roots}
    mo = modes(prog, {r.n for r in roots})
    rule = parsermodel.Parser(prog, {k: {z for z in v if z is not None} for k, v in zero.items()}, mo)
    byname = {r.n: r for r in roots}
    rule.relex = lambda a, k, b: lr.relex(lr.eng, mo[a], k, byname[mo[b]])
    rule.producible = lr.rets
    eng = Engine(prog, rule)
    eng.step_budget = 3000000
    entry = [f for f in prog.fns.values() if f.cls == parsermodel.P and f.cfg and f.q == parsermodel.P + "::parse"]
    if not entry:
        raise AnalysisBroken("anchor vanished: Parser::parse")
    rule.solve(eng, entry, initial_mode(prog, rule, eng))
    if eng.stats["budget"]:
        raise AnalysisBroken("state budget exhausted")
    return lr, zero, mo, rule, eng


def run(chk):
    prog = load_prog(["parse"])
    lr, zero, mo, rule, eng = parser_model(chk, prog)
    kinds = {v: k for k, v in enum_kinds(prog).items()}
    for (fid, node), (ok, where) in lr.loops.items():
        chk.obligation("lexer loop moves the cursor", ok, where)
    chk.from_alarms(lr.alarms, "lexer loop progress")
    for fn, ks in zero.items():
        names = sorted(kinds.get(k, "?") for k in ks)
        ok = None not in ks and len(ks) <= 2
        chk.obligation("tokens without text are end markers", ok, "%s: %s" % (fn, names))
        bad = [kinds.get(k, "a token of unknown kind") for k in ks
               if k is None or kinds.get(k) not in ("tok_eof", "tok_path_end")]
        if bad:
            f = next(f for f in prog.fns.values() if f.cls == "nixf::Lexer" and f.n == fn)
            chk.violation("%s | zero-width %s" % (f.q, ",".join(sorted(bad))), f.loc(), f.q,
                          "may return %s without consuming a character" % ", ".join(sorted(bad)),
                          rule="tokens without text are end markers")
    report(chk, rule, ("loop progress",))
    # recursion
    for c in sorted(rule.kinds, key=str):
        cyc = find_cycle(rule.zero_edges, c)
        f = prog.fns[c[0]]
        chk.obligation("recursion consumes input", not cyc, f.q)
        if cyc:
            chk.violation("%s | recursion without progress" % f.q, f.loc(), f.q,
                          "can call itself again without consuming a token",
                          [prog.fns[x[0]].q for x in cyc], "recursion consumes input")
    # looking ahead terminates
    pk = prog.one(parsermodel.P + "::peek")
    info = absint.fninfo(pk)
    for h in info.loop_blocks:
        ok = parsermodel.structurally_bounded(pk, info, h)
        chk.obligation("look-ahead loop grows the buffer it tests", ok, pk.loc())
        if not ok:
            chk.violation("%s | look-ahead loop" % pk.q, pk.loc(), pk.q,
                          "the look-ahead loop may not fill the buffer", rule="look-ahead")
    chk.need("lexer loop moves the cursor", 3)
    chk.need("loop progress", 3)
    chk.need("recursion consumes input", 5)
    chk.cov.update(lexer_entries=[k for k in zero], zero_width={k: sorted(kinds.get(x, "?") for x in v) for k, v in zero.items()},
                   modes={str(k): v for k, v in mo.items()}, rounds=rule.rounds,
                   summaries={"%s/mode %s" % (prog.fns[f[0]].n, f[1]): {str(k): v for k, v in s.items()} for f, s in rule.summ.items()},
                   contexts=len(rule.kinds),
                   states_blocks=eng.stats["blocks"])


def report(chk, rule, kinds):
    for (fid, node, kind), (ok, where, fn) in rule.sites.items():
        if kind in kinds:
            chk.obligation(kind, ok, where)
    seen = set()
    for root, pr in rule.problems.items():
        for key, (fn, node, kind, msg, path) in pr.items():
            if kind in kinds and key not in seen:
                seen.add(key)
                chk.violation("%s | %s" % (fn.q, kind), fn.loc(node), fn.q, msg, path, kind)


def find_cycle(g, f):
    stack = [(f, [f])]
    seen = set()
    while stack:
        x, p = stack.pop()
        for y in g.get(x, ()):
            if y == f:
                return p + [f]
            if y not in seen:
                seen.add(y)
                stack.append((y, p + [y]))
    return None
