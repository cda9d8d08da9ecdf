"""C20: leafrefs take exactly the values that exist where they point."""
import json

from pbt import build
from pbt.engine import Part, check, cut, outcome, HarnessError, Violation

RULE = ("a case writes values to the targets of generated leafrefs, and to the leafrefs, and removes them again, in a generated "
        "order; it is non-trivial when a leafref accepted a value that existed and another was refused")

ASSUMPTIONS = ["targets are strings, integers and enumerations",
               "a leafref to a leaf that is not a key is a pointer when its path has exactly one node; where the path goes "
               "through a list it is written when the list has several entries"]

TYPES = ["string", "int16", "enum"]
POOL = {"string": ["a", "b", "ab", "c d", "0", "x/y", "it's", "None", "caf\u00e9", "a:b", "current()/../x"], "int16": ["1", "2", "10", "-3", "0"],
        "enum": ["up", "down", "n-1"]}
TYPE = {"string": "type string;", "int16": "type int16;", "enum": "type enumeration { enum up; enum down; enum n-1; }"}


# ---------------------------------------------------------------- schemas
def gen_schema(d):
    two = d.bool(0.45)
    mods = [{"name": "tm", "kids": []}] + ([{"name": "rm", "kids": []}] if two else [])
    targets = []     # (schema path, type, kind)

    def wrap(nm, kids, depth):
        for i in range(depth):
            kids = [{"n": "%s%d" % (nm, i), "k": "container", "kids": kids}]
        return kids

    def leaf(n, t):
        return {"n": n, "k": "leaf", "t": t}

    def near(base, to, up):
        return {"to": to, "up": up, "pf": d.int(0, 3), "ri": d.pick([None, True]), "td": 0}
    tops = mods[0]["kids"]
    for i in range(d.int(1, 4)):
        t = d.weighted([(4, "string"), (2, "int16"), (1, "enum")])
        k = d.weighted([(4, "leaf-list"), (4, "list"), (3, "list2"), (2, "nested"), (2, "llin"), (2, "leaf"), (2, "nonkey"),
                        (2, "oc")])
        n = "t-%d" % i
        depth = d.int(0, 2)
        base = ["tm"] + ["tc%d%d" % (i, j) for j in reversed(range(depth))] + [n]
        key = d.pick(["k", "key", "id-1", "name"])
        if k == "leaf-list":
            x = {"n": n, "k": "leaf-list", "t": t}
            targets.append((base, t))
        elif k == "leaf":
            x = leaf(n, t)
            targets.append((base, t))
        else:
            x = {"n": n, "k": "list", "keys": [key], "kids": [leaf(key, t)]}
            if k == "list":
                targets.append((base + [key], t))
            elif k == "list2":
                t = "enum" if t == "enum" else "int16" if t == "int16" else "word"
                x["kids"][0]["t"] = t
                x["keys"].append("j")
                x["kids"].append(leaf("j", d.pick(["word", "int16", "enum"])))
                x["kids"].append(leaf("val", "string"))
                targets.append((base + [key], t))
                targets.append((base + ["j"], x["kids"][1]["t"]))
            elif k == "nested":
                x["kids"].append({"n": "in", "k": "container", "kids": [
                    {"n": "u", "k": "list", "keys": ["uk"], "kids": [leaf("uk", "string")]}]})
                targets.append((base + ["in", "u", "uk"], "string"))
            elif k == "llin":
                x["kids"].append({"n": "ll", "k": "leaf-list", "t": "string"})
                targets.append((base + ["ll"], "string"))
            elif k == "nonkey":
                x["kids"].append(leaf("val", "string"))
                targets.append((base + ["val"], "string"))
            else:
                x["kids"].append({"n": "config", "k": "container", "kids": [leaf(key, t)]})
                x["kids"][0]["t"] = {"to": base + ["config", key], "up": 1, "pf": d.int(0, 3), "ri": None, "td": 0}
                targets.append((base + [key], t))
        extra = []
        if depth and k in ("leaf-list", "list", "list2") and d.bool(0.4):
            extra.append({"n": "s-%d" % i, "k": d.pick(["leaf", "leaf-list"]), "t": near(base, targets[-1][0], 1)})
        if k == "llin" and d.bool(0.6):
            x["kids"].append({"n": "cur", "k": "leaf", "t": near(base, base + ["ll"], 1)})
        if k == "nested" and d.bool(0.6):
            x["kids"].append({"n": "act", "k": d.pick(["leaf", "leaf-list"]), "t": near(base, base + ["in", "u", "uk"], 1)})
        tops += wrap("tc%d" % i, [x] + extra, depth)
    rmod = mods[-1]
    nr = d.int(1, 4)
    for i in range(nr):
        n = "r-%d" % i
        to, t = d.pick(targets)
        inlist = d.bool(0.35)
        kind = d.weighted([(5, "leaf"), (4, "leaf-list"), (3, "list")])
        if kind == "list" and "val" in to:
            kind = "leaf"      # (a key is not a pointer)
        depth = d.int(0, 2)
        base = [rmod["name"]] + ["rc%d%d" % (i, j) for j in reversed(range(depth))]
        if inlist:
            base.append("rl%d" % i)
        box = kind != "list" and d.bool(0.2)
        if box:
            base.append("rb%d" % i)
        r = {"to": to, "pf": d.int(0, 3), "ri": d.pick([None, None, True, False]), "td": 0}
        r["up"] = len(base) - 1 + (2 if kind == "list" else 1) if d.bool(0.4) else 0
        if kind != "leaf" and leafy(mods, to):
            r["ri"], kind = None, "leaf"
            r["up"] = r["up"] and len(base)
        # the leaves that predicates select by are beside the leafref, or around it
        kids, around, outside = [], [], []
        ls = [j for j in range(1, len(to)) if node_at(mods, to[:j + 1])["k"] == "list"]
        if kind != "list" and ls and d.bool(0.4):
            r["preds"] = []
            for j in ls:
                lst = node_at(mods, to[:j + 1])
                for kn in d.subset(lst["keys"], 0.6):
                    kt = [x for x in lst["kids"] if x["n"] == kn][0]["t"]
                    if to[j + 1:] == [kn] or not isinstance(kt, str):
                        continue
                    sel = "sel-%d%s" % (i, "bcd"[len(r["preds"])] if r["preds"] else "")
                    lf = leaf(sel, kt if d.bool(0.6) else {"to": to[:j + 1] + [kn], "up": 0, "pf": 1, "ri": None, "td": 0})
                    where = d.pick(["kids", "kids", "down"] + ["around"] * 2 * box + ["outside"] * inlist)
                    pr = {"at": j, "key": kn, "sel": sel, "sp": d.pick(["", " ", "\n   ", "\t"]),
                          "in": d.pick(["", "", " ", "\n"]), "up": 1, "down": [], "pf": d.bool(0.3)}
                    if where == "down":
                        pr["down"] = ["rd" + sel]
                        lf = {"n": "rd" + sel, "k": "container", "kids": [lf]}
                    elif where == "around":
                        pr["up"] = 2
                    elif where == "outside":
                        pr["up"] = 2 + box
                    {"around": around, "outside": outside}.get(where, kids).append(lf)
                    r["preds"].append(pr)
            r["preds"] = d.shuffle(r["preds"])
            if not r["preds"]:
                del r["preds"]
        if to[0] != rmod["name"]:
            r["up"] = 0
        if not r["up"] and d.bool(0.25):
            r["td"] = 1
        if kind == "list":
            kids.append({"n": n, "k": "list", "keys": ["ref"], "kids": [leaf("ref", r)]})
            targets.append((base + [n, "ref"], t))
        else:
            kids.append({"n": n, "k": kind, "t": r})
            if not inlist and "preds" not in r and not (kind == "leaf" and "val" in to):
                targets.append((base + [n], t))
        if box:
            kids = [{"n": "rb%d" % i, "k": "container", "kids": kids}] + around
        if inlist:
            kids = [{"n": "rl%d" % i, "k": "list", "keys": ["id"], "kids": [leaf("id", "string")] + kids}] + outside
        rmod["kids"] += wrap("rc%d" % i, kids, depth)
    return {"mods": mods, "one": d.bool(0.5)}


def leafy(mods, to):
    n = node_at(mods, to)
    return n["k"] == "leaf" and not iskey(mods, to)


def node_at(mods, path):
    kids = [m for m in mods if m["name"] == path[0]][0]["kids"]
    n = None
    for s in path[1:]:
        n = [k for k in kids if k["n"] == s]
        if not n:
            raise HarnessError("no node %s" % path)
        n = n[0]
        kids = n.get("kids", [])
    return n


def iskey(mods, path):
    return len(path) > 2 and path[-1] in node_at(mods, path[:-1]).get("keys", [])


def path_text(r, mod, at=0):
    """The YANG path of a reference."""
    to = r["to"]
    out = []
    far = to[0] != mod
    up = r["up"]
    common = 0
    for j, s in enumerate(to):
        if j == 0:
            continue
        p = "tm:" if far else (mod + ":" if r["pf"] in (1, 2 + j % 2) else "")
        t = p + s
        for pr in r.get("preds", []):
            if pr["at"] == j:
                sp, i = pr["sp"], pr["in"]
                cur = [".."] * pr["up"] + [(mod + ":" if pr["pf"] else "") + x for x in pr["down"] + [pr["sel"]]]
                t += i + "[" + i + p + pr["key"] + sp + "=" + sp + "current" + i + "()/" + "/".join(cur) + i + "]" + i
        out.append(t)
    if up:
        return "/".join([".."] * up + out[at:])
    return "/" + "/".join(out)


def emit(S):
    files = {}
    two = len(S["mods"]) > 1
    for m in S["mods"]:
        tds = []

        def typ(t, path):
            if isinstance(t, str):
                return TYPE.get(t) or "type string { pattern '[a-z]+'; }"
            at = 0
            if t["up"]:
                here = path
                base = here[:len(here) - t["up"]]
                at = len(base) - 1
                if t["to"][:len(base)] != base:
                    if len(base) > 1:
                        raise HarnessError("relative path of %s" % path)
                    at = 0
            ri = "" if t["ri"] is None else " require-instance %s;" % ("true" if t["ri"] else "false")
            s = 'type leafref { path "%s";%s }' % (path_text(t, m["name"], at), ri)
            if t["td"]:
                tds.append("  typedef td-%d { %s }" % (len(tds), s))
                return "type td-%d;" % (len(tds) - 1)
            return s

        def node(n, path, ind):
            p = path + [n["n"]]
            if n["k"] in ("leaf", "leaf-list"):
                return [ind + "%s %s { %s }" % (n["k"], n["n"], typ(n["t"], p))]
            out = [ind + "%s %s {" % (n["k"], n["n"])]
            if n["k"] == "list":
                out.append(ind + '  key "%s";' % " ".join(n["keys"]))
            for k in n["kids"]:
                out += node(k, p, ind + "  ")
            return out + [ind + "}"]
        body = []
        for n in m["kids"]:
            body += node(n, [m["name"]], "  ")
        head = ["module %s {" % m["name"], "  yang-version 1.1;", '  namespace "urn:%s";' % m["name"], "  prefix %s;" % m["name"]]
        if m["name"] == "rm":
            head.append("  import tm { prefix tm; }")
        files[m["name"]] = "\n".join(head + tds + body + ["}"]) + "\n"
    return files


# ---------------------------------------------------------------- the model
class M(object):
    """Containers are dicts by name, lists dicts of key tuples, leaves texts or None."""

    def __init__(self, S, helper=True):
        self.S = S
        self.helper = helper
        self.root = {m["name"]: self.inst(m["kids"]) for m in S["mods"]}

    def inst(self, kids):
        return {n["n"]: self.inst(n["kids"]) if n["k"] == "container" else {} if n["k"] == "list" else
                [] if n["k"] == "leaf-list" else None for n in kids}

    def at(self, path):
        x = self.root
        for s in path:
            x = x[s] if isinstance(s, str) else x[s[0]][tuple(s[1])]
        return x

    def nodes(self, ref, here):
        """Instance paths of the leaves or leaf-lists a reference at ``here`` points to."""
        to = ref["to"]
        paths = [[to[0]]]
        at = 1
        if ref["up"]:
            base = here[:len(here) - ref["up"]]
            if len(base) > 1:
                paths = [base]
                at = len(base)
        for j in range(at, len(to)):
            n = node_at(self.S["mods"], to[:j + 1])
            if n["k"] != "list":
                paths = [p + [to[j]] for p in paths]
                continue
            out = []
            prs = [pr for pr in ref.get("preds", []) if pr["at"] == j]
            for p in paths:
                for key in self.at(p)[to[j]]:
                    sels = [self.text(here[:len(here) - pr["up"]] + pr["down"] + [pr["sel"]]) for pr in prs]
                    if any(sel is None or key[n["keys"].index(pr["key"])] != sel for pr, sel in zip(prs, sels)):
                        continue
                    out.append(p + [[to[j], list(key)]])
            paths = out
        return paths

    def text(self, path):
        """What the leaf at an instance path reads as."""
        v = self.at(path)
        if v == "<ptr>":
            ns = self.nodes(self.ref(path), path)
            if len(ns) != 1:
                return "<dangling>"
            return self.text(ns[0])
        return v

    def schema(self, path):
        return node_at(self.S["mods"], [s if isinstance(s, str) else s[0] for s in path])

    def ref(self, path):
        return self.schema(path)["t"]

    def values(self, path):
        v = self.at(path)
        if isinstance(v, list):
            return list(v)
        t = self.text(path)
        return [] if t is None else [t]

    def takes(self, t, path, v):
        """"ok", "no", "ptr" or None (no claim) for giving v to a leaf of type t."""
        if isinstance(t, str):
            return "ok" if valid(t, v) else "no"
        if not self.helper:
            return "ok"
        ns = self.nodes(t, path)
        last = node_at(self.S["mods"], t["to"])
        if last["k"] == "leaf" and not iskey(self.S["mods"], t["to"]):
            if len(ns) == 1:
                if "preds" in t or any(not isinstance(s, str) for s in ns[0]) and not t["up"]:
                    return None
                r = self.takes(last["t"], ns[0], v)
                return "ptr" if r in ("ok", "ptr") else r
        vals = [x for n in ns for x in self.values(n)]
        if "<dangling>" in vals:
            return None
        if t["ri"] is False:
            return "ok"
        return "ok" if v in vals else "no"

    def put(self, path, v):
        """The value goes to the leaf, and through pointers to what they point at."""
        t = self.ref(path)
        if isinstance(t, dict) and self.takes(t, path, v) == "ptr":
            self.put(self.nodes(t, path)[0], v)
            v = "<ptr>"
        self.at(path[:-1])[path[-1]] = v


def valid(t, v):
    if t == "string":
        return True
    if t == "word":
        return v.isascii() and v.isalpha() and v.islower()
    if t == "int16":
        try:
            return str(int(v)) == v
        except ValueError:
            return False
    return v in POOL["enum"]


def walk(S):
    """All schema paths."""
    def go(kids, path):
        for n in kids:
            yield path + [n["n"]], n
            for x in go(n.get("kids", []), path + [n["n"]]):
                yield x
    for m in S["mods"]:
        for x in go(m["kids"], [m["name"]]):
            yield x


def insts(m, path):
    """Instance paths of a schema path, up to the last step's parent."""
    out = [[path[0]]]
    for j in range(1, len(path) - 1):
        n = node_at(m.S["mods"], path[:j + 1])
        if n["k"] == "container":
            out = [p + [path[j]] for p in out]
        else:
            out = [p + [[path[j], list(k)]] for p in out for k in m.at(p)[path[j]]]
    return [p + [path[-1]] for p in out]


# ---------------------------------------------------------------- histories
def gen(d, S):
    helper = not d.bool(0.06)
    m = M(S, helper)
    all_ = [(p, n) for p, n in walk(S) if n["k"] != "container" and not iskey(S["mods"], p) and p[-2] != "config"]
    tg = [x for x in all_ if not isref(x[1])]
    rf = [x for x in all_ if isref(x[1])]
    ops = []

    def one():
        op = draw(d, m, *(d.pick(rf) if rf and (not tg or d.bool(0.5)) else d.pick(tg)))
        if op is not None:
            ops.append(op)
            apply(m, op)
    d.repeat(26, one)
    return {"ops": ops, "helper": helper}


def isref(n):
    if n["k"] == "list":
        return isinstance(n["kids"][0]["t"], dict) and n["kids"][0]["n"] == "ref"
    return isinstance(n["t"], dict)


def base_type(S, t):
    while isinstance(t, dict):
        n = node_at(S["mods"], t["to"])
        t = n["t"]
    return t


def draw(d, m, sp, n):
    ps = insts(m, sp)
    if not ps:
        return None
    path = d.pick(ps)
    S = m.S

    def value(t, path):
        b = base_type(S, t)
        if b == "word":
            pool = ["a", "b", "ab", "up"]
        else:
            pool = POOL[b]
        if isinstance(t, dict):
            k = d.int(0, 9)
            if k < 6:
                vals = [v for x in m.nodes(t, path) for v in m.values(x)]
                if vals:
                    return d.pick(vals)
            if k == 9:
                return d.pick(["", "0", "None", "zzz", "1", "a", "[]", "False", "true"])
        return d.pick(pool)
    if n["k"] == "leaf":
        if d.bool(0.15):
            return ["unset", path]
        v = value(n["t"], path)
        if m.takes(n["t"], path, v) is None:
            return None
        return ["set", path, v, d.pick(["attr", "meth", "load"]), d.bool(0.3)]
    if n["k"] == "leaf-list":
        have = m.at(path)
        k = d.int(0, 9)
        if have and k < 2:
            return ["rm", path, d.pick(have), d.pick(["remove", "del"])]
        if k == 2:
            vs = [value(n["t"], path) for _ in range(d.int(1, 3))]
            return ["assign", path, vs]
        if k == 3:
            return ["unset", path]
        if have and k == 4:
            return ["app", path, d.pick(have), d.bool(0.3)]
        return ["app", path, value(n["t"], path), d.bool(0.3)]
    have = m.at(path)
    if have and d.bool(0.25):
        return ["del", path, list(d.pick(list(have)))]
    ks = []
    for i, kn in enumerate(n["keys"]):
        kl = [k for k in n["kids"] if k["n"] == kn][0]
        t = kl["t"]
        v = value(base_type(S, t) if isinstance(t, dict) and "config" in t["to"] else t, key_path(path, kn))
        if v == "" or (len(n["keys"]) > 1 and not valid(kl["t"] if isinstance(kl["t"], str) else "string", v)):
            return None
        ks.append(v)
    return ["add", path, ks]


def key_type(m, kl):
    """A key that points into its own entry takes what is valid there."""
    t = kl["t"]
    return base_type(m.S, t) if isinstance(t, dict) and "config" in t["to"] and m.helper else t


def key_path(path, kn):
    return path[:-1] + [[path[-1], []], kn]


def apply(m, op):
    """Apply to the model: True, or False if the operation has to be refused."""
    k, path = op[0], op[1]
    n = m.schema(path)
    par = m.at(path[:-1])
    if k == "set":
        r = m.takes(n["t"], path, op[2])
        if r is None:
            raise HarnessError("no claim")
        if r == "no":
            return False
        m.put(path, op[2])
    elif k == "unset":
        par[path[-1]] = None if n["k"] == "leaf" else [] if n["k"] == "leaf-list" else {}
    elif k == "app":
        r = m.takes(n["t"], path, op[2])
        if r == "no":
            return False
        if r != "ok":
            raise HarnessError("a pointer in a leaf-list")
        if op[2] not in par[path[-1]]:
            par[path[-1]].append(op[2])
    elif k == "rm":
        if op[2] not in par[path[-1]]:
            raise HarnessError("not there")
        par[path[-1]].remove(op[2])
    elif k == "assign":
        rs = [m.takes(n["t"], path, v) for v in op[2]]
        if "no" in rs:
            return False
        if set(rs) - {"ok"}:
            raise HarnessError("a pointer in a leaf-list")
        par[path[-1]] = list(dict.fromkeys(op[2]))
    elif k == "add":
        if tuple(op[2]) in par[path[-1]]:
            return False
        for kn, v in zip(n["keys"], op[2]):
            kl = [x for x in n["kids"] if x["n"] == kn][0]
            if m.takes(key_type(m, kl), key_path(path, kn), v) != "ok":
                return False
        e = m.inst(n["kids"])
        for kn, v in zip(n["keys"], op[2]):
            e[kn] = v
            kl = [x for x in n["kids"] if x["n"] == kn][0]
            if isinstance(kl["t"], dict) and "config" in kl["t"]["to"] and m.helper:
                e[kn] = "<ptr>"
                e["config"][kn] = v
        par[path[-1]][tuple(op[2])] = e
    elif k == "del":
        del par[path[-1]][tuple(op[2])]
    else:
        raise HarnessError(k)
    return True


# ---------------------------------------------------------------- the bindings
_cache = {}


def compiled(S):
    key = json.dumps(S, sort_keys=True)
    if key not in _cache:
        if len(_cache) > 3:
            _cache.clear()
        names = [m["name"] for m in S["mods"]]
        _cache[key] = build.compile_yang(emit(S), names, flags=("--use-xpathhelper",))
    return _cache[key]


def safe(name):
    from pbt import schema as sc
    return sc.safe(name)


class Live(object):
    def __init__(self, S, ns, helper):
        from pyangbind.lib.xpathhelper import YANGPathHelper
        self.S = S
        self.helper = YANGPathHelper() if helper else None
        self.root = {}
        kw = {"path_helper": self.helper} if helper else {}
        for m in S["mods"]:
            self.root[m["name"]] = cut("constructing the bindings", getattr(ns, safe(m["name"])), **kw)

    def at(self, path):
        o = self.root[path[0]]
        for s in path[1:]:
            if isinstance(s, str):
                o = getattr(o, safe(s))
            else:
                o = getattr(o, safe(s[0]))
                o = o[self.key(o, s[1])]
        return o

    @staticmethod
    def key(lst, ks):
        got = [k for k in lst if str(k) == " ".join(ks)]
        if len(got) != 1:
            raise Violation("the list has no entry with the key %r (%r)" % (ks, list(lst)))
        return got[0]

    def apply(self, op, n):
        k, path = op[0], op[1]
        par = self.at(path[:-1])
        py = safe(path[-1])

        def give(v):
            num = op[-1] is True and v.lstrip("-").isdigit() and str(int(v)) == v
            return int(v) if num else v
        if k == "set":
            v = give(op[2]) if op[-1] is True and self.isint(n) else op[2]
            if op[3] == "attr":
                setattr(par, py, v)
            elif op[3] == "meth":
                getattr(par, "_set_" + py)(v)
            else:
                getattr(par, "_set_" + py)(v, load=True)
        elif k == "unset":
            getattr(par, "_unset_" + py)()
        elif k == "app":
            getattr(par, py).append(give(op[2]) if self.isint(n) else op[2])
        elif k == "rm":
            ll = getattr(par, py)
            if op[3] == "remove":
                ll.remove([x for x in ll if str(x) == op[2]][0] if isint_native(self.S, n) else op[2])
            else:
                del ll[[str(x) for x in ll].index(op[2])]
        elif k == "assign":
            setattr(par, py, list(op[2]))
        elif k == "add":
            getattr(par, py).add(" ".join(op[2]))
        elif k == "del":
            lst = getattr(par, py)
            lst.delete(self.key(lst, op[2]))
        else:
            raise HarnessError(k)

    def isint(self, n):
        return base_type(self.S, n["t"]) == "int16"


def isint_native(S, n):
    return n["t"] == "int16"


def compare(m, live, when):
    def go(n, v, o, path):
        if n["k"] == "container":
            for k in n["kids"]:
                go(k, v[k["n"]], getattr(o, safe(k["n"])), path + [k["n"]])
        elif n["k"] == "list":
            keys = [str(k) for k in o]
            check(keys == [" ".join(k) for k in v], "%s: %s has the keys %r instead of %r", when, path, keys, list(v))
            for k, e in v.items():
                x = o[live.key(o, k)]
                for kid in n["kids"]:
                    go(kid, e[kid["n"]], getattr(x, safe(kid["n"])), path[:-1] + [[n["n"], list(k)], kid["n"]])
        elif n["k"] == "leaf-list":
            got = [str(x) for x in o]
            check(got == v, "%s: %s holds %r instead of %r", when, path, got, v)
            for x in v:
                if not isint_native(m.S, n):
                    check(x in o, "%s: %r is not found in %s", when, x, path)
        else:
            want = m.text(path)
            if want == "<dangling>":
                return
            if v is None:
                check(not o._changed(), "%s: %s was not set but reports being changed (%s)", when, path, o)
                return
            if want is None:
                return     # a pointer to something unset
            check(str(o) == want, "%s: %s reads as %r instead of %r", when, path, str(o), want)
            if isref(n) and not isint_native(m.S, n):
                check(o == want and not (o != want), "%s: %s is %r and does not compare as equal to it", when, path, want)
            check(o._changed(), "%s: %s was set but does not report being changed", when, path)
    for mod in m.S["mods"]:
        go({"k": "container", "kids": mod["kids"]}, m.root[mod["name"]], live.root[mod["name"]], [mod["name"]])


def expected(n, v, m, path):
    """Filtered data as nested dicts of texts; None where nothing is known."""
    out = {}
    for k in n["kids"]:
        x, p = v[k["n"]], path + [k["n"]]
        if k["k"] == "container":
            s = expected(k, x, m, p)
            if s:
                out[k["n"]] = s
        elif k["k"] == "list":
            if x:
                out[k["n"]] = [[" ".join(key), expected(k, e, m, path + [[k["n"], list(key)]])] for key, e in x.items()]
        elif k["k"] == "leaf-list":
            if x:
                out[k["n"]] = list(x)
        elif x is not None:
            out[k["n"]] = m.text(p)
    return out


def found(n, o):
    """The same of a filtered get()."""
    out = {}
    for name, x in o.items():
        k = [k for k in n["kids"] if k["n"] == name]
        check(len(k) == 1, "get() has an element %r", name)
        k = k[0]
        if k["k"] == "container":
            out[name] = found(k, x)
        elif k["k"] == "list":
            if len(x):
                out[name] = [[str(key), found(k, e)] for key, e in x.items()]
        elif k["k"] == "leaf-list":
            if len(x):
                out[name] = [str(e) for e in x]
        else:
            out[name] = str(x)
    return out


def hazy(m):
    """Does some leaf point nowhere?"""
    for p, n in walk(m.S):
        if n["k"] == "leaf":
            for i in insts(m, p):
                if m.at(i) == "<ptr>" and m.text(i) in ("<dangling>", None):
                    return True
    return False


def data(m, live, when):
    if hazy(m):
        return
    for mod in m.S["mods"]:
        n = {"kids": mod["kids"]}
        got = found(n, cut("%s: get()" % when, live.root[mod["name"]].get, filter=True))
        want = expected(n, m.root[mod["name"]], m, [mod["name"]])
        check(got == want, "%s: get() of %s is %r instead of %r", when, mod["name"], got, want)


def plain(n, x):
    """A loaded JSON document in the form of found()."""
    out = {}
    for name, v in x.items():
        k = [k for k in n["kids"] if k["n"] == name.split(":")[-1]]
        check(len(k) == 1, "the JSON text has an element %r", name)
        k = k[0]
        if k["k"] == "container":
            v = plain(k, v)
        elif k["k"] == "list":
            es = [plain(k, e) for e in (v.values() if isinstance(v, dict) else v)]
            v = [[" ".join(str(e[kn]) for kn in k["keys"]), e] for e in es]
        elif k["k"] == "leaf-list":
            v = [str(e) for e in v]
        else:
            v = str(v)
        out[k["n"]] = v
    return out


def dumped(m, live, st):
    from pyangbind.lib import pybindJSON
    if hazy(m):
        return
    for mod in m.S["mods"]:
        n = {"kids": mod["kids"]}
        want = expected(n, m.root[mod["name"]], m, [mod["name"]])
        for mode in ("default", "ietf"):
            text = cut("dumping %s (%s)" % (mod["name"], mode), pybindJSON.dumps, live.root[mod["name"]], mode=mode)
            got = plain(n, json.loads(text))
            check(got == want, "the %s JSON text of %s holds %r instead of %r", mode, mod["name"], got, want)
    st.cls("dumped")


def nodes_found(m, live, when):
    """The helper still finds the entries, and no others."""
    for p, n in walk(m.S):
        if n["k"] != "list":
            continue
        path = "/" + "/".join(p[1:])
        want = sum(len(m.at(i)) for i in insts(m, p))
        got = cut("%s: get(%r)" % (when, path), live.helper.get, path)
        check(len(got) == want, "%s: the path helper finds %d entries at %s instead of %d", when, len(got), path, want)


def run(case, st):
    S = case["schema"]
    ns = compiled(S)
    helper = case["h"].get("helper", True)
    m, live = M(S, helper), Live(S, ns, helper)
    good = bad = False
    data(m, live, "at first")
    for op in case["h"]["ops"]:
        n = m.schema(op[1])
        ok = apply(m, op)
        what = "%s" % (op,)
        done, e = outcome(live.apply, op, n)
        st.op()
        ref = isref(n) if n["k"] != "container" else False
        if ok:
            if not done:
                raise Violation("%s is valid but was refused: %s: %s" % (what, type(e).__name__, e))
            good = good or (ref and op[0] in ("set", "app", "add"))
        else:
            if done:
                raise Violation("%s was accepted, although %s" % (what, "no such value exists at %s" % n["t"]["to"]
                                if ref and n["k"] != "list" else "it is not valid"))
            want = KeyError if op[0] == "add" else ValueError
            check(isinstance(e, want), "%s was refused with %s: %s instead of %s", what, type(e).__name__, e, want.__name__)
            bad = bad or ref
        st.cls("%s %s%s" % ("took" if ok else "refused", op[0], " reference" if ref else ""))
        when = "after %s" % what if ok else "after %s was refused" % what
        compare(m, live, when)
        data(m, live, when)
        if helper:
            nodes_found(m, live, when)
    dumped(m, live, st)
    if not helper:
        st.cls("no path helper")
    st.nontrivial(good and (bad or not helper))


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 40, outer=gen_schema, n_outer=26 * k)]


def reduce(case):
    S = case["schema"]
    for mi, mod in enumerate(S["mods"]):
        for i in range(len(mod["kids"])):
            T = json.loads(json.dumps(S))
            top = T["mods"][mi]["kids"].pop(i)
            T["mods"] = [x for x in T["mods"] if x["kids"]]
            try:
                if not T["mods"]:
                    continue
                for p, n in list(walk(T)):
                    if isinstance(n.get("t"), dict):
                        node_at(T["mods"], n["t"]["to"])
            except (HarnessError, IndexError):
                continue
            ops = [op for op in case["h"]["ops"] if (op[1][1] if isinstance(op[1][1], str) else op[1][1][0]) != top["n"]
                   or op[1][0] != mod["name"]]
            yield dict(case, schema=T, h=dict(case["h"], ops=ops))
