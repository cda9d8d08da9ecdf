"""Rewritings of module sets that keep their meaning."""
import copy
import random

from . import schema as sc, ytypes as yt
from .engine import HarnessError

KINDS = ("order", "inline", "submodule", "prefix", "typedef", "cmdline", "split", "ownprefix", "noise")


def parts_of(S):
    for m in S["mods"]:
        yield m, m
        for s in m.get("subs", []):
            yield m, s


def rewrite(S, rw):
    """(rewritten schema, order of the modules, split?)"""
    T = copy.deepcopy({k: v for k, v in S.items() if k != "rw"})
    order, split = sc.mod_names(T), False
    for step, seed in rw:
        r = random.Random(seed)
        if step == "order":
            shuffle(T, r)
        elif step == "inline":
            inline(T)
        elif step == "submodule":
            submodules(T, r)
        elif step == "prefix":
            prefixes(T, r)
        elif step == "typedef":
            typedefs(T, r)
        elif step == "cmdline":
            r.shuffle(order)
        elif step == "split":
            split = True
        elif step == "noise":
            T["noise"] = 0 if S.get("noise") and r.random() < 0.4 else r.randint(1, 9999)
        elif step == "ownprefix":
            for m in T["mods"]:
                m["ownprefix"] = True
        else:
            raise HarnessError("rewriting %s" % step)
    return T, order, split


def shuffle(x, r):
    if isinstance(x, dict):
        for k in ("body", "kids", "cases", "identities", "typedefs", "groupings", "augments", "rpcs", "notifs", "input",
                  "output", "subs"):
            if isinstance(x.get(k), list):
                r.shuffle(x[k])
        for v in x.values():
            shuffle(v, r)
    elif isinstance(x, list):
        for v in x:
            shuffle(v, r)


def inline(T):
    env = sc.Env(copy.deepcopy(T))

    def rec(kids):
        return [y for k in kids for y in sc.spread(k, env)]
    for m, p in parts_of(T):
        p["body"] = rec(p.get("body", []))
        p["groupings"] = []
        for a in p.get("augments", []):
            a["kids"] = rec(a["kids"])
        for o in p.get("rpcs", []):
            o["input"], o["output"] = rec(o["input"]), rec(o["output"])
        for o in p.get("notifs", []):
            o["kids"] = rec(o["kids"])
    # an augment of the module's own nodes stands for nodes of the module
    for m in T["mods"]:
        rest = []
        for a in m.get("augments", []):
            tgt = None
            if a["target"][0] == m["name"] and not a.get("into"):
                for p in [m] + m.get("subs", []):
                    try:
                        tgt = sc.find(p["body"], a["target"][1:])[0]
                    except KeyError:
                        continue
                    if p is not m:
                        tgt = None   # (a submodule does not see the definitions of its module)
                    break
            if tgt is not None:
                tgt["kids"].extend(a["kids"])
            else:
                rest.append(a)
        m["augments"] = rest
    # what the expanded definitions refer to is imported
    for m, p in parts_of(T):
        for o in sorted(refs(p)):
            if o != m["name"] and o not in m["imports"]:
                n = 0
                while "px%d" % n in m["imports"].values() or "px%d" % n == m["prefix"]:
                    n += 1
                m["imports"][o] = "px%d" % n


def refs(x):
    out = set()
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("td", "base", "g") and isinstance(v, str) and ":" in v:
                out.add(v.split(":")[0])
            elif k == "ext":
                out |= set(e[0] for e in v)
            elif k != "subs":
                out |= refs(v)
    elif isinstance(x, list):
        for v in x:
            out |= refs(v)
    return out


def submodules(T, r):
    for m in T["mods"]:
        if m.get("subs"):
            for s in m.pop("subs"):
                for k in ("identities", "typedefs", "groupings", "body", "extdefs"):
                    if s.get(k):
                        m[k] = m.get(k, []) + s[k]
        elif r.random() < 0.8:
            s = {"name": m["name"] + "-part"}
            for k in ("identities", "typedefs", "groupings", "extdefs"):
                s[k] = m.pop(k, [])
                m[k] = []
            s["body"] = [x for x in m["body"] if r.random() < 0.5]
            m["body"] = [x for x in m["body"] if x not in s["body"]]
            m["subs"] = [s]


def prefixes(T, r):
    for m in T["mods"]:
        own = r.choice(["q", "z-%s" % m["name"].replace(".", "_"), "pp.%d" % r.randint(0, 9), m["name"].replace(".", "_")])
        m["prefix"] = own
        taken = {own}
        for o in m["imports"]:
            p = r.choice(["q", "i1", "x-y", o, "pp.%d" % r.randint(0, 9)])
            while p in taken:
                p = "w%d" % r.randint(0, 999)
            taken.add(p)
            m["imports"][o] = p


def typedefs(T, r):
    count = [0]

    def wrap(t, part, mod):
        if t["t"] == "union" and r.random() < 0.4:
            t["m"] = [wrap(x, part, mod) for x in t["m"]]
        if t["t"] in ("ref", "leafref") or r.random() < 0.4:
            return t
        count[0] += 1
        name = "%s%d" % (r.choice(["wrap", "w.t", "Wr-"]), count[0])
        part.setdefault("typedefs", []).append({"name": name, "type": t})
        return {"t": "ref", "td": "%s:%s" % (mod, name)}

    def rec(x, part, mod):
        if isinstance(x, list):
            for v in x:
                rec(v, part, mod)
        elif isinstance(x, dict):
            if x.get("k") in ("leaf", "leaf-list"):
                x["type"] = wrap(x["type"], part, mod)
            for k, v in x.items():
                if k not in ("subs", "typedefs", "type"):
                    rec(v, part, mod)
    for m, p in parts_of(T):
        rec(p, p, m["name"])


def sanity(S, T):
    """The two resolve to the same data tree, as the harness reads them."""
    def desc(r):
        return {n.name: [n.kind, n.mod, n.ns, n.config, sorted(map(str, n.choice)), n.presence, n.keys, n.ordered, n.default,
                         str(n.rt) if n.rt else None, desc(n)] for n in r.kids.values()}
    a = {m: desc(r) for m, r in sc.build_tree(S).items()}
    b = {m: desc(r) for m, r in sc.build_tree(T).items()}
    if a != b:
        raise HarnessError("the rewriting changes the data tree")


def idref_in(rt):
    return rt["b"] == "idref" or (rt["b"] == "union" and any(idref_in(m) for m in rt["m"]))


def plain_prefix(S):
    """Values that do not depend on the prefixes of modules."""
    mods = set(sc.mod_names(S))

    def ok(n, w, cv=None):
        return not (idref_in(n.rt) and isinstance(w, str) and ":" in w and w.split(":")[0] not in mods)
    return ok


def identity_defaults(S):
    """Is an identity the default of a node of the modules (as it is written, it depends on where)?"""
    env = sc.Env(S)

    def rec(x):
        if isinstance(x, list):
            return any(rec(v) for v in x)
        if not isinstance(x, dict):
            return False
        if x.get("default") is not None:
            if "type" in x:
                if idref_in(yt.resolve(x["type"], env.typedefs)):
                    return True
            elif any(i.split(":")[1] == x["default"].split(":")[-1] for i in env.identities):
                return True
        return any(rec(v) for k, v in x.items() if k != "type")
    return rec(S["mods"])
