"""C10: at most one case of a choice holds data."""
from pbt import hist, schema as sc
from pbt.engine import Part, check, cut
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Live, Model, OpGen, check_get, compare, conflicts, show

RULE = ("a case applies a generated history to bindings of a schema with choices and compares the whole tree with the "
        "model after every operation; it is non-trivial when setting something removed data of another case")

ASSUMPTIONS = ["a tenth of the histories run with a path helper, which is not consulted"]

F = {"depth": 3, "maxnodes": 26, "cap": 70, "width": (2, 4), "top": (2, 3), "p_cfalse": 0.05, "p_nested_choice": 0.45, "p_aug": 0.85, "p_augchoice": 0.75, "mods": (1, 3),
     "gr": (0, 3), "td": (0, 2), "ids": (0, 3), "p_default": 0.35,
     "types": {"int": 6, "string": 5, "bool": 2, "enum": 2, "bits": 2, "union": 1, "ref": 1, "dec": 1, "empty": 1, "bin": 1, "idref": 1},
     "w": {"leaf": 6, "container": 4, "list": 3, "leaf-list": 3, "choice": 9, "uses": 3}}

W = {"set": 12, "add": 8, "app": 6, "ext": 2, "lset": 4, "pres": 4, "unset": 1, "unset_c": 1, "rm": 1, "del": 1, "bit": 8}


def gen(d, S):
    helper = d.bool(0.1)
    return dict(hist.gen_ops(16, W, helper=helper)(d, S), helper=helper)


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 22, outer=sc.gen_schema(F), n_outer=28 * k)]


def run(case, st):
    helper = case["h"].get("helper")
    c = hist.comp(case, ("--presence", "--use-xpathhelper") if helper else ("--presence",))
    ph = None
    if helper:
        from pyangbind.lib.xpathhelper import YANGPathHelper
        ph = YANGPathHelper
    m, live = Model(c), Live(c, path_helper=ph)
    lost_any = False
    for x in sc.choice_classes(case["schema"]):
        st.cls(x)
    for op in case["h"]["ops"]:
        when = "after %s" % op
        lost = m.apply(op)
        cut("%s" % op, live.apply, op)
        st.op()
        if lost:
            lost_any = True
            st.cls("removed by " + op[0])
        for mod in c.names:
            compare(c, live.roots[mod], m.roots[mod], [mod], when)
            check_get(c, cut("get(filter=True) " + when, live.roots[mod].get, filter=True), m.roots[mod], [mod], when)
    st.nontrivial(lost_any)
