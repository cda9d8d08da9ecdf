"""C13: leaf-lists behave as ordered sets of valid values."""
from pbt import hist, schema as sc, ytypes as yt
from pbt.engine import Part, check, cut, outcome, Violation
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Live, Model, OpGen, compare, show, has
from pbt.typecheck import read
from checks.c08 import bad_value

RULE = ("a case applies a generated sequence of list operations, valid and refused, to the leaf-lists of a schema; it is "
        "non-trivial when one of them held two or more values and an element was removed, replaced, repeated or refused")

ASSUMPTIONS = ["numbers given to leaf-lists of strings, and values equal in another type of a union, are left out"]

F = {"depth": 2, "maxnodes": 18, "width": (2, 4), "p_cfalse": 0.1, "td": (1, 4), "p_multipat": 0.3, "p_restrict": 0.6,
     "types": {"int": 5, "string": 5, "dec": 3, "bool": 1, "enum": 3, "idref": 3, "bits": 2, "bin": 2, "union": 3, "ref": 5},
     "w": {"leaf": 1, "container": 2, "list": 2, "leaf-list": 12, "choice": 1, "uses": 1}}

W = {"set": 0, "unset": 2, "add": 2, "del": 0, "pres": 0, "app": 8, "ins": 5, "lset": 3, "ext": 4, "rm": 4, "pop": 3, "ldel": 3,
     "unset_c": 0}


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 30, outer=sc.gen_schema(F), n_outer=28 * k)]


def gen(d, S):
    g = OpGen(d, hist.ctx(S), W)

    def one():
        if d.bool(0.25):
            return refused(g)
        op = g.one()
        if op is not None and op[0] == "ins":
            # an index may be given from the end, or by assignment
            how = d.pick(["insert", "insert", "item", "neg"])
            op = op + [how]
        return op
    return {"ops": [x for x in d.repeat(16, one) if x is not None]}


def refused(g):
    d = g.d
    for _ in range(5):
        path, x = g.place()
        lls = [n for n in x.n.kids.values() if n.kind == "leaf-list"]
        if not lls:
            continue
        n = d.pick(lls)
        ll = x.v.get(n.name) or []
        h = path + [n.name]
        k = d.pick(["app", "ins", "item", "ext", "lset", "dupins", "dupitem", "noidx", "norm", "nopop"])
        if k in ("app", "ins", "item"):
            w = bad_value(d, n, g.c.env)
            if w is not None:
                return ["!", h, k, d.int(0, len(ll)), w]
        elif k in ("ext", "lset"):
            w = bad_value(d, n, g.c.env)
            ws = [v for v in (g.value(n) for _ in range(d.int(0, 3))) if v is not None]
            if w is not None and g.fits(n, ll if k == "ext" else [], ws, True):
                ws.insert(d.int(0, len(ws)), w)
                return ["!", h, k, 0, ws]
        elif k in ("dupins", "dupitem") and ll:
            w = g.again(n, d.pick(ll))
            if w is not None:
                return ["!", h, k, d.int(0, len(ll)), w]
        elif k == "noidx":
            return ["!", h, k, len(ll) + d.int(0, 3), None]
        elif k == "nopop" and not ll:
            return ["!", h, k, 0, None]
        elif k == "norm":
            w = g.value(n)
            if w is not None and g.fits(n, ll, [w], False):
                return ["!", h, k, 0, w]
    return None


def attempt(live, op):
    _, path, k, i, w = op
    ll = live.obj(path)
    if k == "app":
        ll.append(yt.to_py(w))
    elif k in ("ins", "dupins"):
        ll.insert(i, yt.to_py(w))
    elif k in ("item", "dupitem"):
        ll[i] = yt.to_py(w)
    elif k == "ext":
        ll.extend([yt.to_py(x) for x in w])
    elif k == "lset":
        live.apply(["lset", path, w, "attr"])
    elif k == "noidx":
        del ll[i]
    elif k == "nopop":
        ll.pop()
    elif k == "norm":
        ll.remove(yt.to_py(w))


def extra(c, n, ll, want, when):
    """The read side of the list interface."""
    check(list(iter(ll)) == [ll[i] for i in range(len(ll))], "%s: iteration and indexing of %s differ", when, n.name)
    for i, w in enumerate(want):
        x = ll[i]
        check(x in ll, "%s: %s does not contain its element %r", when, n.name, x)
        check(ll.index(x) == i, "%s: index of element %r of %s is %r instead of %d", when, x, n.name, ll.index(x), i)
        check(ll.count(x) == 1, "%s: count of element %r of %s is %r", when, x, n.name, ll.count(x))
        check(read(n, w, ll[i - len(want)], c.env), "%s: negative index into %s", when, n.name)
    check(ll == list(ll), "%s: %s does not equal its own elements", when, n.name)
    check(bool(ll) == bool(want), "%s: truth of %s", when, n.name)


def run(case, st):
    c = hist.comp(case)
    m, live = Model(c), Live(c)
    removed = big = False
    for op in case["h"]["ops"]:
        n = m.node(op[1])
        if op[0] == "!":
            what = "refused %s" % (op[1:],)
            ok, e = outcome(attempt, live, op)
            if ok:
                raise Violation("%s was accepted, the leaf-list is %r" % (what, list(live.obj(op[1]))))
            want = IndexError if op[2] in ("noidx", "nopop") else ValueError
            check(isinstance(e, want), "%s raised %s: %s instead of %s", what, type(e).__name__, e, want.__name__)
            st.cls("refused " + op[2])
            when = "after the %s" % what
            removed = True
        else:
            when = "after %s" % op
            before = m.parent(op[1]).v.get(n.name) if n.kind == "leaf-list" else None
            m.apply(op)
            if op[0] == "ins" and op[-1] == "item":
                cut("%s" % op, live.obj(op[1]).__setitem__, op[2], yt.to_py(op[3]))
            elif op[0] == "ins" and op[-1] == "neg":
                ll = live.obj(op[1])
                i = op[2] - len(ll)
                cut("%s" % op, ll.insert, i if i < 0 else op[2], yt.to_py(op[3]))
            else:
                got = cut("%s" % op, live.apply, op)
                if op[0] == "pop":
                    check(read(n, before[op[2]], got, c.env), "%s returned %r instead of %r", op, got, before[op[2]])
            if n.kind == "leaf-list":
                after = m.parent(op[1]).v.get(n.name) or []
                removed = removed or op[0] in ("rm", "pop", "ldel", "unset") or len(after) == len(before or [])
                big = big or len(after) > 1
                st.cls("op " + op[0])
        st.op()
        for mod in c.names:
            compare(c, live.roots[mod], m.roots[mod], [mod], when)
        if n.kind == "leaf-list":
            extra(c, n, live.obj(op[1]), m.parent(op[1]).v.get(n.name) or [], when)
    st.nontrivial(removed and big)
