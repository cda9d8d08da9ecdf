"""Shared body of the checks about leaf types (C03 to C06): generated types, probe
values judged by the reference model of pbt.ytypes, the real leaf's verdict."""
from . import schema as sc, ytypes as yt
from .engine import Part, check, outcome, cut, Violation
from .live import compiled, node_at, reduce_case

BASE_F = {
    "mods": (1, 2), "depth": 1, "width": (3, 5), "top": (5, 8), "w": {"leaf": 12, "container": 2, "leaf-list": 3},
    "p_reserved": 0.0, "p_cfalse": 0.0, "p_presence": 0.0, "p_default": 0.0, "p_default_td": 0.0,
    "p_multipat": 0.5, "p_restrict": 0.75, "td": (2, 5), "gr": (0, 0), "maxnodes": 18, "p_aug": 0.0, "p_nested_choice": 0.0,
}


def leaves(S, want):
    out = []
    for m, r in sc.build_tree(S).items():
        for n in r.walk():
            if n.kind in ("leaf", "leaf-list") and n.config and want(n):
                out.append([m, n.path])
    return out


def make_gen(want, extra=None, hi=10):
    def gen(d, S):
        ls = leaves(S, want)
        if not ls:
            return {"leaf": None, "probes": []}
        m, path = d.pick(ls)
        env = sc.Env(S)
        n = sc.build_tree(S, env)[m].at(path)

        def one():
            w = None
            if extra is not None and d.bool(0.3):
                w = extra(d, n, env)
            if w is None:
                w = yt.gen_valid(d, n.rt, env, 3) if d.bool(0.25) else yt.gen_probe(d, n.rt, env)
            return [d.weighted([(4, "attr"), (2, "meth"), (1, "load")]), w]
        return {"leaf": [m, path], "probes": d.repeat(hi, one)}
    return gen


def read_dec(rt, canon, live):
    return yt.live_matches(canon, live, rt["fd"], None)


def read(n, canon, live, env):
    """Does the value read back equal what was given?"""
    rt = n.rt
    if rt["b"] == "union":
        v = canon[1]
        ok = canon[0]
        if ok == "dec":
            return any(m["b"] == "dec" and read_dec(m, canon, live) for m in rt["m"])
        if ok == "bits":
            return any(m["b"] == "bits" and set(v) <= set(x for x, _ in m["bits"]) and
                       yt.live_matches(canon, live, None, m) for m in rt["m"])
        return yt.live_matches(canon, live, None, None)
    if rt["b"] == "dec":
        return read_dec(rt, canon, live)
    return yt.live_matches(canon, live, None, rt if rt["b"] == "bits" else None)


def put(parent, n, how, v):
    if how == "attr":
        setattr(parent, n.py, v)
    elif how == "meth":
        getattr(parent, "_set_" + n.py)(v)
    else:
        getattr(parent, "_set_" + n.py)(v, load=True)


def run(case, st, label=None, after=None):
    h = case["h"]
    if h["leaf"] is None:
        return
    S = case["schema"]
    c = compiled(S)
    m, path = h["leaf"]
    n = node_at(c, m, path)
    obj = cut("constructing the bindings", c.new, m)
    parent = obj
    node = c.tree[m]
    for p in path[:-1]:
        node = node.kids[p]
        parent = getattr(parent, node.py)
    held = None
    accepted = refused = 0
    st.cls("leaf type " + (label(n) if label else n.rt["b"]))
    for how, w in h["probes"]:
        v = yt.to_py(w)
        verdict = yt.judge(n.rt, v, c.env)
        if n.kind == "leaf-list" and not isinstance(v, str) and verdict[0] == "ok" and verdict[1][0] == "str":
            verdict = yt.UNK   # numbers are only taken as strings by leaves
        st.op()
        what = "%s %s := %r" % (n.kind, "/".join(path), v)
        if n.kind == "leaf-list":
            ll = getattr(parent, n.py)
            before = list(ll)
            how = "append"
            ok, res = outcome(ll.append, v)
        else:
            ok, res = outcome(put, parent, n, how, v)
        st.cls("probe %s" % verdict[0])
        if verdict[0] == "ok":
            check(ok, "%s (%s) is valid for the type but was refused: %s: %s", what, how, type(res).__name__, res)
            accepted += 1
            if n.kind == "leaf":
                live = getattr(parent, n.py)
                check(read(n, verdict[1], live, c.env), "%s (%s): reads back as %r (%s)", what, how, live, type(live).__name__)
                check(live._changed(), "%s: the leaf does not report being changed", what)
                held = verdict[1]
                if after is not None:
                    after(n, verdict[1], live, what)
            else:
                ll = getattr(parent, n.py)
                if not (verdict[1][0] in ("int", "bool", "dec") and verdict[1][1] in (0, 1) and verdict[1][1] in before):
                    # (0 and false, and 1 and true, count as the same element)
                    check(any(read(n, verdict[1], x, c.env) for x in ll), "%s: reads back as %r", what, list(ll))
                check(len(ll) - len(before) in (0, 1), "%s: %d elements became %d", what, len(before), len(ll))
        elif verdict is yt.BAD:
            if ok:
                raise Violation("%s (%s) is outside the type but was accepted, reads back as %r" % (
                    what, how, getattr(parent, n.py)))
            check(isinstance(res, ValueError), "%s (%s): refused with %s: %s instead of ValueError", what, how,
                  type(res).__name__, res)
            refused += 1
            if n.kind == "leaf":
                live = getattr(parent, n.py)
                if held is None:
                    check(not live._changed(), "%s: refused, but the leaf reports being changed", what)
                else:
                    check(read(n, held, live, c.env), "%s: refused, but the value became %r", what, live)
            else:
                check(len(getattr(parent, n.py)) == len(before), "%s: refused, but the contents changed", what)
        else:
            # no claim about this spelling; what it left behind is not known
            if n.kind == "leaf":
                getattr(parent, "_unset_" + n.py)()
                held = None
    st.nontrivial(accepted > 0 and refused > 0)


RULE = ("a case sets one generated leaf or leaf-list to a sequence of probe values; it is non-trivial when the model "
        "called at least one of them valid and at least one invalid, and both were tried on the real leaf")


def parts_for(F, want, tier, quick=(30, 45), thorough=(250, 80), extra=None):
    n_outer, n = quick if tier == "quick" else thorough
    return [Part("types", make_gen(want, extra), n, outer=sc.gen_schema(dict(BASE_F, **F)), n_outer=n_outer)]


reduce = reduce_case
