"""P07: no syntax tree makes the analysis library abort, follow an absent node or mistake a node's kind.

Every function of libnixf outside the parser is interpreted abstractly, in the
contexts its callers create.  Obligations: every access through a smart or raw
pointer or an optional, every assertion about presence or kind, every
'unreachable' arm of a dispatch over node kinds, every checked downcast, and
every pointer argument bound to a parameter that is used unconditionally.
What may be absent, and which kinds a member can have, is derived from the
places where the parser and the desugaring construct each node."""
import treesafe
from check import load_prog

EXPLANATION = __doc__
ASSUMPTIONS = ["nodes are built only by the parser and the lowering (the constructions found in the source)",
               "assertions on quantities (sizes, positions) rather than presence or kind are not decided"]


def decide(chk, groups, own, minimum):
    prog = load_prog(groups)
    r = treesafe.analyse(prog, own)
    seen = {}
    for (kind, fid, node), ok in sorted(r.obl.items()):
        f = prog.fns.get(fid)
        seen[kind] = seen.get(kind, 0) + 1
        chk.obligation(kind, ok, "%s %s" % (f.loc(node), f.q) if f else fid)
    chk.need("dereference", minimum)
    chk.from_alarms(r.alarms, "presence and kind")
    chk.cov.update(functions=r.stats["functions"], blocks=r.stats["blocks"], inlined_calls=r.stats["inlined"],
                   passes=r.stats["passes"], undecided_functions=len(set(r.over)))
    if r.over:
        chk.cov["undecided"] = sorted(set(r.over))
    chk.cov["parameter_requirements"] = {k.split("#")[-1]: sorted(v) for k, v in list(r.requires.items())[:40] if v}
    return r


def run(chk):
    decide(chk, ["parse", "basic", "sema", "gen"], lambda p: "/libnixf/src/Sema" in p or "/libnixf/src/Basic" in p, 60)
