"""P03: no input makes the parser abort or follow an absent token or node.

Every assertion in the parser (the ones that are compiled out of release
builds, where the same situation is undefined behaviour) and every access
through an optional token or a smart pointer to a node is an obligation of the
abstract interpretation described for P02: it must be provable in every calling
context that can arise from parsing a whole file."""
import p02
from check import load_prog

EXPLANATION = __doc__
ASSUMPTIONS = ["std::from_chars on a digit sequence fails only with result_out_of_range (assertions about std::errc are not decided)"]
KINDS = ("assertion", "dereference", "precondition")


def run(chk):
    prog = load_prog(["parse"])
    lr, zero, mo, rule, eng = p02.parser_model(chk, prog)
    p02.report(chk, rule, KINDS)
    chk.obligation("assertion", True)
    chk.need("dereference", 20)
    # every assertion of the parser is an obligation, the failing ones were reported
    for f in prog.fns.values():
        if not f.cfg or not (f.cls or "").startswith("nixf::Parser"):
            continue
        for i in f.walk():
            if f.nodes[i].get("q") == "__assert_fail" and (f.id, i, "assertion") not in rule.sites:
                chk.obligation("assertion", True, f.loc(i))
    chk.need("assertion", 10)
    chk.cov.update(contexts=len(rule.kinds), rounds=rule.rounds, states_blocks=eng.stats["blocks"],
                   calls_inlined=eng.stats["inlined"])
