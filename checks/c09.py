"""C09: the tree reports exactly what was set, with the last value."""
from pbt import hist
from pbt.engine import Part, check, cut
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Live, Model, check_get, check_get_all, compare, show
from pbt import schema as sc

RULE = ("a case applies a generated history of operations to bindings of a generated schema and compares the whole tree "
        "with a reference model after every operation; it is non-trivial when at least one unset or delete removed data "
        "that had been set")

ASSUMPTIONS = ["the history only uses operations the property describes as accepted; refused ones are the subject of C08"]

F = {"depth": 3, "maxnodes": 26, "p_nested_choice": 0.2}


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", hist.gen_ops(14, {"bit": 6}), 14, outer=sc.gen_schema(F), n_outer=26 * k)]


def walk_iface(c, live, x, path, when):
    """get-item by attribute name and iteration agree with attribute access."""
    names = [n.py for n in x.n.kids.values()]
    got = [k for k, _ in live]
    check(sorted(got) == sorted(names), "%s: iterating %s yields %r instead of %r", when, show(path), got, names)
    check(sorted(live.elements()) == sorted(names), "%s: elements() of %s is %r", when, show(path), live.elements())
    parts = [(f, live.get(filter=f)) for f in (False, True)]
    for n in x.n.kids.values():
        if n.kind in ("container", "list"):
            for f, d in parts:
                got = cut("get(filter=%s) of %s/%s" % (f, show(path), n.name), getattr(live, n.py).get, **({"filter": f} if f else {}))
                check(got == d.get(n.name, {}), "%s: get(filter=%s) of %s/%s is %r, and in that of what it is in %r", when, f, show(path),
                      n.name, got, d.get(n.name))
        check(dict(live)[n.py] is getattr(live, n.py), "%s: iterating %s yields another object for %s", when, show(path), n.name)
        check(getattr(live, "_get_" + n.py)() is getattr(live, n.py), "%s: the getter of %s differs from the attribute", when, n.name)
        if n.kind == "container":
            walk_iface(c, getattr(live, n.py), x.v[n.name], path + [n.name], when)


def run(case, st):
    c = hist.comp(case)
    m, live = Model(c), Live(c)
    removed = False
    for mod in c.names:
        compare(c, live.roots[mod], m.roots[mod], [mod], "at first")
        check_get(c, live.roots[mod].get(filter=True), m.roots[mod], [mod], "at first")
        check_get_all(c, live.roots[mod].get(), m.roots[mod], [mod], "at first")
    for op in case["h"]["ops"]:
        when = "after %s" % op
        if op[0] in ("unset", "del", "rm", "pop", "ldel"):
            p = m.parent(op[1])
            removed = removed or not m.is_unset(p, op[1][-1])
        m.apply(op)
        cut("%s" % op, live.apply, op)
        st.op()
        st.cls("op " + op[0])
        for mod in c.names:
            compare(c, live.roots[mod], m.roots[mod], [mod], when)
            check_get(c, cut("get(filter=True) " + when, live.roots[mod].get, filter=True), m.roots[mod], [mod], when)
    for mod in c.names:
        walk_iface(c, live.roots[mod], m.roots[mod], [mod], "at the end")
        check_get_all(c, cut("get()", live.roots[mod].get), m.roots[mod], [mod], "at the end")
        compare(c, live.roots[mod], m.roots[mod], [mod], "after get()")
    st.nontrivial(removed)
