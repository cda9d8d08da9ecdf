"""C04: string and binary leaves enforce every length and pattern."""
from pbt import typecheck
from pbt.typecheck import RULE, reduce  # noqa: F401

F = {"types": {"string": 6, "bin": 3, "ref": 6}}

ASSUMPTIONS = ["patterns are drawn from a set whose meaning is the same in XSD and in Python when matched against the "
               "entire value; '$' and '^' are only used where the existing tests fix their meaning"]


def want(n):
    return n.rt["b"] in ("str", "bin")


def label(n):
    rt = n.rt
    return "%s, %d lengths, %d patterns" % (rt["b"], len(rt["lens"]), len(rt.get("pats") or []))


def parts(tier):
    return typecheck.parts_for(F, want, tier)


def run(case, st):
    typecheck.run(case, st, label)
