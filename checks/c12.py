"""C12: lists behave as maps keyed by their key leaves."""
from pbt import hist, schema as sc, ytypes as yt
from pbt.engine import Part, check, cut, outcome, HarnessError, Violation
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Live, Model, OpGen, compare, show, gen_key, live_key
from pbt.typecheck import read

RULE = ("a case applies a generated sequence of additions, deletions, edits and refused operations to the lists of a "
        "schema; it is non-trivial when a list held two or more entries and one was deleted, replaced or refused")

ASSUMPTIONS = ["keys are given as text, those of several parts hold at most one bit, and one value is always spelled one way"]

F = {"depth": 3, "maxnodes": 20, "width": (2, 4), "p_cfalse": 0.05, "p_multikey": 0.5, "p_reserved": 0.25, "td": (0, 3),
     "key_types": {"int": 4, "string": 5, "enum": 2, "bool": 1, "dec": 1, "idref": 1, "union": 1, "ref": 3, "bits": 0},
     "w": {"leaf": 6, "container": 2, "list": 9, "leaf-list": 2, "choice": 1, "uses": 2}}

W = {"set": 5, "unset": 1, "add": 12, "del": 6, "pres": 1, "app": 1, "ins": 0, "lset": 1, "rm": 0, "pop": 0, "ldel": 0,
     "unset_c": 1}


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 30, outer=sc.gen_schema(F), n_outer=28 * k)]


def gen(d, S):
    g = OpGen(d, hist.ctx(S), W, keyhow=("add", "add", "kw", "obj", "item"))
    return {"ops": [x for x in d.repeat(16, lambda: one(g)) if x is not None]}


def one(g):
    d = g.d
    if d.bool(0.25):
        return refused(g)
    if d.bool(0.12):
        # an entry that exists is replaced by another object
        for _ in range(3):
            path, x = g.place()
            ls = [n for n in x.n.kids.values() if n.kind == "list" and n.keys and x.v[n.name]]
            if ls:
                n = d.pick(ls)
                op = ["repl", path + [n.name], list(d.pick(list(x.v[n.name]))), fields(g, n)]
                replace(g.m, op)
                return op
    op = g.one()
    if op is not None and op[0] == "add" and op[3] == "obj" and not spelled(g.m.node(op[1]), op[2], g.c.env):
        op[3] = "add"
    if op is not None and op[0] == "add" and op[3] in ("obj", "item"):
        op = op + [fields(g, g.m.node(op[1]))]
        fill(g.m, g.m.parent(op[1]).v[op[1][-1]][tuple(op[2])], op[4])
    if op is not None and op[0] == "del" and d.bool(0.2):
        op[3] = "delitem"
    return op


def spelled(n, keys, env):
    """Is the text of each key the text of its value?  (An object's key is taken from
    its values: true is True then, and 1.50 is 1.5.)"""
    for kn, kv in zip(n.keys, keys):
        r = yt.judge(n.kids[kn].rt, kv, env)
        if len(n.keys) == 1 and r[0] == "ok" and r[1][0] == "int":
            return False   # the number itself becomes the key
        if r[0] != "ok" or r[1][0] not in ("str", "int", "enum", "id") or (r[1][0] != "id" and str(r[1][1]) != kv):
            return False
        if n.kids[kn].rt["b"] == "union" and any(m["b"] in ("bool", "dec") for m in n.kids[kn].rt["m"]):
            return False
    return True


def fields(g, n):
    """Values for leaves of an object that is to become an entry."""
    out = []
    for k in n.kids.values():
        if k.kind == "leaf" and not k.iskey and k.config and not k.choice and g.d.bool(0.5):
            w = g.value(k)
            if w is not None and stable(k, w, g.c.env):
                out.append([k.name, w])
    return out


def stable(k, w, env):
    """Is the value that is held the same one when it is given again?  (A number that a
    union holds as text is copied as text.)"""
    cv = yt.judge(k.rt, yt.to_py(w), env)
    if k.rt["b"] != "union" or cv[0] != "ok" or cv[1][0] in ("int", "enum"):
        return True
    return cv[1][0] == "str" and yt.judge(k.rt, cv[1][1], env) == cv


def fill(m, e, fs):
    for name, w in fs:
        if name not in e.n.kids:
            raise HarnessError("no leaf %s" % name)
        e.v[name] = m.canon(e.n.kids[name], w)


def replace(m, op):
    n = m.node(op[1])
    lst = m.parent(op[1]).v[op[1][-1]]
    lost = m.touch(op[1])
    e = lst[tuple(op[2])] = m.entry(n, op[2])
    fill(m, e, op[3])
    return lost


def refused(g):
    d = g.d
    for _ in range(6):
        path, x = g.place()
        ls = [n for n in x.n.kids.values() if n.kind == "list" and n.keys]
        if not ls:
            continue
        n = d.pick(ls)
        h = path + [n.name]
        es = list(x.v[n.name])
        k = d.pick(["dup", "badkey", "get", "del", "key", "parts", "kwmiss", "notentry"])
        how = d.pick(["add", "kw"])
        if k == "dup" and es:
            return ["!", h, k, list(d.pick(es)), how]
        if k == "key" and es:
            kn = d.pick(n.keys)
            w = gen_key(d, n.kids[kn], g.c.env, True)
            if w is not None:
                return ["!", h, k, list(d.pick(es)), kn, w, d.pick(["attr", "meth"])]
        if k in ("get", "del"):
            ks = [gen_key(d, n.kids[kn], g.c.env, len(n.keys) > 1) for kn in n.keys]
            if None not in ks and not any(all(g.eqkey(n.kids[a], b, c) for a, b, c in zip(n.keys, ks, e)) for e in es):
                return ["!", h, k, ks, d.pick(["del", "delitem"])]
        if k == "parts" and len(n.keys) > 1:
            ks = [gen_key(d, n.kids[kn], g.c.env, True) for kn in n.keys]
            if None not in ks:
                return ["!", h, k, ks[:-1] if d.bool(0.5) else ks + ["x"], "add"]
        if k == "kwmiss" and len(n.keys) > 1:
            ks = [gen_key(d, n.kids[kn], g.c.env, True) for kn in n.keys]
            if None not in ks:
                return ["!", h, k, ks[:-1], "kw"]
        if k == "badkey":
            from checks.c08 import bad_value
            ks = []
            bad = d.idx(len(n.keys))
            for i, kn in enumerate(n.keys):
                kw = gen_key(d, n.kids[kn], g.c.env, True)
                if i == bad:
                    w = bad_value(d, n.kids[kn], g.c.env)
                    kw = w if isinstance(w, str) and w and not any(c.isspace() for c in w) else None
                ks.append(kw)
            if None not in ks:
                return ["!", h, k, ks, how]
        if k == "notentry":
            ks = [gen_key(d, n.kids[kn], g.c.env, len(n.keys) > 1) for kn in n.keys]
            if None not in ks:
                return ["!", h, k, ks, d.pick(["x", 5, "leaf"])]
    return None


def new_object(c, n, lst, keys, fs):
    o = cut("_new_item", lst._new_item)
    if keys is not None:
        for kn, kv in zip(n.keys, keys):
            if n.kids[kn].config:
                cut("setting key %s of a new entry" % kn, setattr, o, n.kids[kn].py, kv)
            else:
                cut("setting key %s of a new entry" % kn, getattr(o, "_set_" + n.kids[kn].py), kv)
    for name, w in fs:
        cut("setting %s of a new entry" % name, setattr, o, n.kids[name].py, yt.to_py(w))
    return o


def attempt(c, live, op):
    _, path, k, ks = op[:4]
    n = live.node(path)
    lst = live.obj(path)
    if k in ("dup", "badkey", "parts"):
        if op[4] == "kw":
            lst.add(**{n.kids[a].py: b for a, b in zip(n.keys, ks)})
        else:
            lst.add(" ".join(ks))
    elif k == "kwmiss":
        lst.add(**{n.kids[a].py: b for a, b in zip(n.keys, ks)})
    elif k == "get":
        return lst[" ".join(ks)]
    elif k == "del":
        if op[4] == "del":
            lst.delete(" ".join(ks))
        else:
            del lst[" ".join(ks)]
    elif k == "notentry":
        v = op[4]
        if v == "leaf":
            v = getattr(lst._new_item(), n.kids[n.keys[0]].py)
        lst[" ".join(ks)] = v
    elif k == "key":
        e = lst[live_key(lst, ks)]
        py = n.kids[op[4]].py
        if op[6] == "attr":
            setattr(e, py, op[5])
        else:
            getattr(e, "_set_" + py)(op[5])


ERR = {"key": AttributeError, "notentry": ValueError, "kwmiss": AttributeError}


def look(c, lst, n, mv, when):
    """Every way to look at a list."""
    keys = [" ".join(k) for k in mv]
    check([str(k) for k in lst] == keys, "%s: iterating %s yields %r instead of %r", when, n.name, list(lst), keys)
    check([str(k) for k, _ in lst.items()] == keys, "%s: items() of %s has the keys %r", when, n.name, list(lst))
    vals = list(lst.values())
    check(len(vals) == len(keys), "%s: values() of %s has length %d", when, n.name, len(vals))
    for i, (k, e) in enumerate(mv.items()):
        lk = live_key(lst, k)
        check(lk in lst, "%s: %r is not in %s", when, lk, n.name)
        o = lst[lk]
        check(o is vals[i], "%s: values() of %s has another object for %r", when, n.name, lk)
        for kn in n.keys:
            check(read(n.kids[kn], e.v[kn], getattr(o, n.kids[kn].py), c.env),
                  "%s: key %s of entry %r of %s is %r", when, kn, lk, n.name, getattr(o, n.kids[kn].py))
    check("no such key at all" not in lst, "%s: %s contains a key never added", when, n.name)


def step(c, m, live, op, st):
    """One operation on the model and the bindings: (a description, was an entry deleted,
    replaced or refused)."""
    n = m.node(op[1])
    if op[0] == "!":
        what = "refused %s" % (op[1:],)
        ok, e = outcome(attempt, c, live, op)
        if ok:
            raise Violation("%s was accepted" % what)
        want = ERR.get(op[2], KeyError)
        check(isinstance(e, want), "%s raised %s: %s instead of %s", what, type(e).__name__, e, want.__name__)
        st.cls("refused " + op[2])
        return "after the %s" % what, True
    when = "after %s" % op
    if op[0] == "repl":
        replace(m, op)
        lst = live.obj(op[1])
        o = new_object(c, n, lst, None, op[3])
        cut("%s" % op, lst.__setitem__, live_key(lst, op[2]), o)
        st.cls("replaced")
        return when, True
    m.apply(op)
    if op[0] == "add" and op[3] in ("obj", "item"):
        fill(m, m.parent(op[1]).v[op[1][-1]][tuple(op[2])], op[4])
        lst = live.obj(op[1])
        o = new_object(c, n, lst, op[2] if op[3] == "obj" else None, op[4])
        if op[3] == "obj":
            cut("%s" % op, lst.append, o)
        else:
            cut("%s" % op, lst.__setitem__, " ".join(op[2]), o)
    elif op[0] == "del" and op[3] == "delitem":
        lst = live.obj(op[1])
        cut("%s" % op, lst.__delitem__, live_key(lst, op[2]))
    else:
        got = cut("%s" % op, live.apply, op)
        if op[0] == "add":
            check(got is live.obj(op[1])[live_key(live.obj(op[1]), op[2])], "%s: add() returned another object", when)
    st.cls("op " + op[0] + (" " + str(op[3]) if op[0] in ("add", "del") else ""))
    return when, op[0] == "del"


def run(case, st):
    c = hist.comp(case)
    m, live = Model(c), Live(c)
    big = gone = False
    for op in case["h"]["ops"]:
        n = m.node(op[1])
        when, g = step(c, m, live, op, st)
        gone = gone or g
        st.op()
        for mod in c.names:
            compare(c, live.roots[mod], m.roots[mod], [mod], when)
        if n.kind == "list":
            mv = m.parent(op[1]).v[n.name]
            big = big or len(mv) > 1
            look(c, live.obj(op[1]), n, mv, when)
    st.nontrivial(big and gone)
