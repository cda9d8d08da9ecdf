"""C07: leaves that are not set have the default of their schema."""
from pbt import hist, schema as sc
from pbt.engine import Part, check, cut, outcome
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Live, Model, check_get, check_get_all, compare, is_default, show, entry_of

RULE = ("a case applies a generated history of set and unset operations to bindings of a schema with defaults on leaves "
        "and typedefs, and checks the default of every leaf after each; it is non-trivial when a leaf with a default was "
        "set or unset")

ASSUMPTIONS = ["the identity in a default is compared without its prefix"]

F = {"depth": 2, "maxnodes": 24, "mods": (1, 3), "p_default": 0.7, "p_default_td": 0.7, "td": (2, 6), "strdefault": "any",
     "p_uniondefault": 0.8, "p_cfalse": 0.12, "w": {"leaf": 14, "container": 4, "list": 2, "leaf-list": 1, "choice": 1, "uses": 2},
     "types": {"int": 5, "string": 5, "dec": 3, "bool": 3, "empty": 1, "enum": 2, "idref": 2, "bits": 2, "bin": 2,
               "union": 3, "ref": 9}}

W = {"set": 10, "unset": 6, "unset_c": 2, "add": 3, "bit": 4}


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", hist.gen_ops(8, W), 10, outer=sc.gen_schema(F), n_outer=60 * k)]


def defaults(c, live, x, path, when, st):
    for name, n in x.n.kids.items():
        lv = getattr(live, n.py)
        here = path + [name]
        if n.kind == "leaf":
            d = cut("default() of " + show(here), lv.default)
            if n.default is None:
                check(d is False or d is None, "%s: %s has the default %r, the schema has none", when, show(here), d)
            else:
                check(d is not False and d is not None, "%s: %s has no default instead of %r", when, show(here), n.default)
                check(is_default(c, n, d), "%s: %s has the default %r instead of %r", when, show(here), d, n.default)
        elif n.kind == "container":
            defaults(c, lv, x.v[name], here, when, st)
        elif n.kind == "list":
            for k, e in x.v[name].items():
                defaults(c, entry_of(lv, k), e, path + [[name, list(k)]], when, st)


def as_if_set(c, live, x, path, st):
    """The default equals, in value and in text, what setting its text gives."""
    for name, n in x.n.kids.items():
        if n.kind == "container":
            as_if_set(c, getattr(live, n.py), x.v[name], path + [name], st)
        elif n.kind == "leaf" and n.default is not None and not n.iskey:
            d = getattr(live, n.py).default()
            ok, _ = outcome(getattr(live, "_set_" + n.py), n.default)
            if not ok:
                check(n.rt["b"] in ("idref", "union"), "%s refuses its own default %r", show(path + [name]), n.default)
                continue
            got = getattr(live, n.py)
            st.cls("default of " + n.rt["b"])
            if n.rt["b"] == "idref":
                continue
            check(got == d and str(got) == str(d), "%s: the default is %r but setting %r gives %r", show(path + [name]), d,
                  n.default, got)
            getattr(live, "_unset_" + n.py)()


def run(case, st):
    c = hist.comp(case)
    m, live = Model(c), Live(c)
    seen = False

    def look(when):
        for mod in c.names:
            defaults(c, live.roots[mod], m.roots[mod], [mod], when, st)
            compare(c, live.roots[mod], m.roots[mod], [mod], when)
            check_get(c, cut("get(filter=True) " + when, live.roots[mod].get, filter=True), m.roots[mod], [mod], when)
            check_get_all(c, cut("get()", live.roots[mod].get), m.roots[mod], [mod], when)

    look("at first")
    for op in case["h"]["ops"]:
        if op[0] in ("set", "unset") and m.node(op[1]).default is not None:
            seen = True
        m.apply(op)
        cut("%s" % op, live.apply, op)
        st.op()
        look("after %s" % op)
    fresh = Live(c)
    e = Model(c)
    for mod in c.names:
        as_if_set(c, fresh.roots[mod], e.roots[mod], [mod], st)
    st.nontrivial(seen)
