"""C03: numeric leaves take exactly the values of their YANG type."""
from pbt import typecheck
from pbt.typecheck import RULE, reduce  # noqa: F401

ASSUMPTIONS = ["floats given to integers, and values that rounding moves across a bound, are left open"]

F = {"types": {"int": 6, "dec": 4, "ref": 5}}


def want(n):
    return n.rt["b"] in ("int", "dec")


def label(n):
    rt = n.rt
    return "%s, %d range statements" % (rt["b"] if rt["b"] == "dec" else rt["name"], len(rt["ranges"]))


def parts(tier):
    return typecheck.parts_for(F, want, tier)


def run(case, st):
    typecheck.run(case, st, label)
