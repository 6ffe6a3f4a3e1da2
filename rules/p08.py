"""P08: no document makes a code action abort, follow an absent node or mistake a node's kind.

The interpretation of P07, applied to the code actions of the server: every
access through a pointer or optional, presence or kind assertion, downcast and
pointer argument in them is an obligation, for every tree the parser can build
and every position the client can ask about."""
import p07

EXPLANATION = __doc__
ASSUMPTIONS = p07.ASSUMPTIONS


def run(chk):
    p07.decide(chk, ["parse", "basic", "sema", "actions", "gen"], lambda p: "/nixd/lib/Controller/CodeActions" in p, 60)
