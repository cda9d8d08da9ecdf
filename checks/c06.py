"""C06: unions and typedefs take exactly what their members and bases take."""
from pbt import typecheck, ytypes as yt
from pbt.typecheck import RULE, reduce  # noqa: F401

ASSUMPTIONS = ["numbers given to unions of strings are left open", "leafrefs are not members of unions"]

F = {"types": {"int": 3, "string": 3, "dec": 2, "enum": 2, "bool": 1, "bits": 1, "bin": 1, "idref": 2, "union": 8, "ref": 9},
     "mods": (1, 3), "td": (3, 6), "ids": (1, 4), "p_sub": 0.3, "p_local_td": 0.3, "p_collide": 0.5, "p_multipat": 0.3}


def want(n):
    return n.rt["b"] == "union" or n.T["t"] == "ref"


def label(n):
    if n.rt["b"] != "union":
        return "typedef of " + n.rt["b"]
    return "union of " + "+".join(sorted(set(m["b"] for m in n.rt["m"])))


def extra(d, n, env):
    return None


def parts(tier):
    return typecheck.parts_for(F, want, tier, extra=extra)


def run(case, st):
    typecheck.run(case, st, label)
