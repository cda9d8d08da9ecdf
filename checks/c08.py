"""C08: a refused write raises the documented error and changes nothing."""
from pbt import hist, schema as sc, ytypes as yt
from pbt.engine import Part, check, outcome, cut, Violation
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Live, Model, OpGen, check_get, compare, show, gen_key, same, change_bits

RULE = ("a case alternates accepted operations with refused writes and compares the whole tree with the model after each; "
        "it is non-trivial when a refused write was attempted while the tree held data")

ASSUMPTIONS = ["refused values are scalars, lists of scalars for leaf-lists, and scalars for containers and lists"]

F = {"depth": 3, "maxnodes": 24, "p_cfalse": 0.15, "p_nested_choice": 0.2, "p_multipat": 0.4, "p_restrict": 0.7,
     "w": {"leaf": 8, "container": 4, "list": 3, "leaf-list": 4, "choice": 4, "uses": 2}}


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 22, outer=sc.gen_schema(F), n_outer=26 * k)]


def bad_value(d, n, env, elements=False):
    for _ in range(8):
        w = yt.gen_probe(d, n.rt, env)
        if yt.judge(n.rt, yt.to_py(w), env) is yt.BAD:
            return w
    for w in ("\x00no such value \u4e2d", -(2 ** 70), "maybe", {"$d": "1E+30"}):
        if yt.judge(n.rt, yt.to_py(w), env) is yt.BAD:
            return w
    return None


def refused(g):
    """A refused write for the current state of the model."""
    d = g.d
    for _ in range(5):
        path, x = g.place()
        kids = list(x.n.kids.values())
        n = d.pick(kids) if kids else None
        k = d.int(0, 11)
        if n is None or k == 0:
            return ["attr?", path, d.pick(["no_such_node", "Alpha", "x_1", "_nope", "yang", "config_"])]
        h = path + [n.name]
        if n.kind == "leaf" and n.iskey:
            w = g.value(n)
            if w is None:
                continue
            if x.n.kind == "list":
                return ["key", h, w, d.pick(["attr", "meth"])]
            continue
        if not n.config and d.bool(0.5):
            w = g.value(n) if n.kind in ("leaf",) else (["a"] if n.kind == "leaf-list" else "x")
            if w is None:
                continue
            return ["ro", h, w]
        if n.kind == "leaf" and n.rt["b"] == "bits" and d.bool(0.5):
            names = [b for b, _ in n.rt["bits"]]
            how = d.pick(["add", "discard", "remove", "pop", "update", "|=", "^=", "flip"])
            cur = (x.v.get(n.name) or (0, ()))[1]
            if how == "pop" and cur:
                continue
            if how == "remove":
                bs = [d.pick([b for b in names if b not in cur] + ["no-such-bit"])]
            else:
                bs = [b for b in names if how not in ("add", "discard", "pop") and d.bool(0.6)] + ["no-such-bit"]
            return ["bit", h, how, bs]
        if n.kind == "leaf":
            w = bad_value(d, n, g.c.env)
            if w is None:
                continue
            return ["val", h, w, d.pick(["attr", "meth", "load"])]
        if n.kind == "leaf-list":
            ll = x.v.get(n.name) or []
            if ll and d.bool(0.2):
                w = g.again(n, d.pick(ll))
                if w is None:
                    continue
                return ["llins", h, d.int(0, len(ll)), w]
            w = bad_value(d, n, g.c.env)
            if w is None:
                continue
            kk = d.int(0, 3)
            if kk == 0:
                return ["llapp", h, w]
            if kk == 1:
                return ["llins", h, d.int(0, len(ll)), w]
            ws = [v for v in (g.value(n) for _ in range(d.int(0, 3))) if v is not None]
            if not g.fits(n, [] if kk == 2 else ll, ws, True):
                continue
            ws.insert(d.int(0, len(ws)), w)
            if kk == 2:
                return ["llset", h, ws, d.pick(["attr", "meth"])]
            return ["llext", h, ws]
        if n.kind == "list" and n.keys and d.bool(0.75):
            es = list(x.v[n.name])
            kk = d.int(0, 3)
            if kk == 0 and es:
                return ["dup", h, list(d.pick(es)), d.pick(g.keyhow)]
            if kk == 1 and es:
                return ["gone", h, ["zz-none"] * len(n.keys)] if ("zz-none",) * len(n.keys) not in x.v[n.name] else None
            ks = []
            bad = d.idx(len(n.keys))
            for i, kn in enumerate(n.keys):
                kw = None
                if i == bad:
                    for _ in range(6):
                        kw = yt.gen_probe(d, n.kids[kn].rt, g.c.env)
                        if isinstance(kw, str) and kw and not any(c.isspace() for c in kw) \
                                and yt.judge(n.kids[kn].rt, kw, g.c.env) is yt.BAD:
                            break
                        kw = None
                else:
                    kw = gen_key(d, n.kids[kn], g.c.env, True)
                ks.append(kw)
            if None in ks:
                continue
            return ["badkey", h, ks, d.pick(g.keyhow)]
        if n.kind in ("list", "container"):
            return ["node", h, d.pick(["x", 5, True, "true", 1.5]), d.pick(["attr", "meth"])]
    return None


def gen(d, S):
    g = OpGen(d, hist.ctx(S), {"bit": 4})
    ops = []

    def one():
        if d.bool(0.45):
            r = refused(g)
            return None if r is None else ["!"] + r
        return g.one()
    ops = [x for x in d.repeat(16, one) if x is not None]
    return {"ops": ops}


def attempt(live, op):
    k, path = op[0], op[1]
    if k == "attr?":
        o = live.obj(path)
        setattr(o, op[2], 1)
        return
    n = live.node(path)
    p = live.parent(path)
    if k in ("val", "key", "node"):
        v = yt.to_py(op[2])
        if op[3] == "attr" and n.config:
            setattr(p, n.py, v)
        elif op[3] == "load":
            getattr(p, "_set_" + n.py)(v, load=True)
        else:
            getattr(p, "_set_" + n.py)(v)
    elif k == "ro":
        setattr(p, n.py, yt.to_py(op[2]))
    elif k == "bit":
        change_bits(live.obj(path), op[2], op[3])
    elif k == "llapp":
        live.obj(path).append(yt.to_py(op[2]))
    elif k == "llins":
        live.obj(path).insert(op[2], yt.to_py(op[3]))
    elif k == "llset":
        live.apply(["lset", path, op[2], op[3]])
    elif k == "llext":
        live.obj(path).extend([yt.to_py(w) for w in op[2]])
    elif k in ("dup", "badkey"):
        live.apply(["add", path, op[2], op[3]])
    elif k == "gone":
        live.obj(path).delete(" ".join(op[2]))


ERR = {"attr?": AttributeError, "ro": AttributeError, "key": AttributeError, "dup": KeyError, "badkey": KeyError,
       "gone": KeyError}


def run(case, st):
    c = hist.comp(case)
    m, live = Model(c), Live(c)
    tried = False
    for op in case["h"]["ops"]:
        if op[0] == "!":
            r = op[1:]
            held = any(not x.empty() for x in m.roots.values())
            ok, e = outcome(attempt, live, r)
            what = "refused write %s" % (r,)
            if ok:
                if r[0] == "attr?":
                    n = r[2]
                    raise Violation("%s: setting the unknown attribute %s of %s was accepted" % (what, n, show(r[1])))
                raise Violation("%s was accepted" % what)
            want = ERR.get(r[0], ValueError)
            if r[0] == "bit" and r[2] in ("remove", "pop"):
                want = KeyError     # as for any set
            check(isinstance(e, want), "%s raised %s (%s) instead of %s", what, type(e).__name__, e, want.__name__)
            st.cls("refused " + r[0])
            when = "after the %s" % what
            tried = tried or held
        else:
            m.apply(op)
            cut("%s" % op, live.apply, op)
            when = "after %s" % op
        st.op()
        for mod in c.names:
            compare(c, live.roots[mod], m.roots[mod], [mod], when)
            check_get(c, cut("get(filter=True) " + when, live.roots[mod].get, filter=True), m.roots[mod], [mod], when)
    st.nontrivial(tried)
