"""C05: enumeration, identityref, bits, boolean and empty take exactly their names."""
from pbt import typecheck, ytypes as yt
from pbt.engine import check
from pbt.typecheck import RULE, reduce  # noqa: F401

ASSUMPTIONS = ["numbers and text of numbers given to booleans are left open", "an identityref has one base"]

F = {"types": {"enum": 5, "idref": 6, "bits": 5, "bool": 2, "empty": 2, "ref": 4}, "mods": (1, 3), "ids": (3, 8),
     "p_multibase": 0.25, "p_sub": 0.3}

KINDS = ("enum", "idref", "bits", "bool", "empty")


def want(n):
    return n.rt["b"] in KINDS


def label(n):
    return n.rt["b"] + (" in leaf-list" if n.kind == "leaf-list" else "")


def extra(d, n, env):
    b = n.rt["b"]
    if b == "idref":
        base = n.rt["base"]
        k = d.int(0, 2)
        if k == 0:
            return d.pick([base, base.split(":")[1]])       # the base itself is not derived from itself
        ids = list(env.identities)
        i = d.pick(ids)
        return d.pick([i, i.split(":")[1], "%s:%s" % (env.mods[i.split(":")[0]]["prefix"], i.split(":")[1])])
    if b == "enum":
        return d.pick([x for x, _ in n.rt["names"]])
    if b == "bits":
        return " ".join(d.shuffle([x for x, _ in n.rt["bits"]]))
    return None


def after(n, canon, live, what):
    if n.rt["b"] == "enum":
        want_v = dict((k, v) for k, v in n.rt["names"])[canon[1]]
        got = live.getValue(mapped=True)
        check(int(got) == want_v, "%s: the enum's number is %r, not %r", what, got, want_v)


def parts(tier):
    return typecheck.parts_for(F, want, tier, extra=extra)


def run(case, st):
    typecheck.run(case, st, label, after)
