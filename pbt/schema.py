"""Random YANG schemas (JSON-able AST), their YANG text, and their resolution to a
data tree -- an independent reading of RFC 7950 sections 5 to 7."""
import copy
import re
from collections import OrderedDict
from decimal import Decimal

from . import ytypes as yt
from .noise import Noise

# The words docs and existing bindings append an underscore to.
RESERVED = (
    "list str int global decimal float as if else elif map set class from import pass return is exec pop insert "
    "remove add delete local get default yang_name def print del break continue raise in assert while for try "
    "finally with except lambda or and not yield property min max async "
    "await nonlocal None True False append extend "
    "_add_metadata _base_type _changed _choice _cpresent _default _defining_module _extensions _extensionsd "
    "_extmethods _is_config _is_container _is_keyval _is_leaf _mchanged _metadata _namespace _parent _path _path_helper _presence "
    "_present _pyangbind_elements _pybind_base_class _pybind_generated_by _pybind_union _register _register_path _register_paths "
    "_registers _set _set_present _supplied_register_path _yang_name _yang_namespace _yang_path _yang_type OrderedDict "
    "__builtin__ __doc__ __init__ __module__ __new__ __slots__"
).split()


def safe(n):
    n = n.replace("-", "_").replace(".", "_")
    return n + "_" if n in RESERVED else n


class Env(object):
    """Typedefs, identities and prefixes of a module set."""

    def __init__(self, S):
        self.S = S
        self.mods = {m["name"]: m for m in S["mods"]}
        self.typedefs = {}
        self.identities = OrderedDict()
        self.groupings = {}
        for m in S["mods"]:
            for part in [m] + m.get("subs", []):
                for td in part.get("typedefs", []):
                    self.typedefs["%s:%s" % (m["name"], td["name"])] = td
                for i in part.get("identities", []):
                    self.identities["%s:%s" % (m["name"], i["name"])] = i["bases"]
                for g in part.get("groupings", []):
                    self.groupings["%s:%s" % (m["name"], g["name"])] = g
                for td in local_typedefs(part):
                    self.typedefs["%s:%s" % (m["name"], td["name"])] = td
        self._forms = {}

    def id_forms(self, base):
        """Names by which identities derived from base may be written."""
        if base not in self._forms:
            out = set()
            for i in yt.derived(base, self.identities):
                mod, n = i.split(":")
                out.update([n, i, "%s:%s" % (self.mods[mod]["prefix"], n)])
                for m in self.S["mods"]:
                    if mod in m["imports"]:
                        out.add("%s:%s" % (m["imports"][mod], n))
            self._forms[base] = out
        return self._forms[base]

    def id_loose(self, base):
        """Spellings that use a prefix some other module chose for the import."""
        out = set()
        pfx = set()
        for m in self.S["mods"]:
            pfx.add(m["prefix"])
            for p in m.get("imports", {}).values():
                pfx.add(p)
        for i in yt.derived(base, self.identities):
            n = i.split(":")[1]
            for p in pfx:
                out.add("%s:%s" % (p, n))
        return out

    def all_id_forms(self):
        out = set()
        for i in self.identities:
            mod, n = i.split(":")
            out.update([n, i])
        return out

    def id_module(self, name, base):
        """Defining module of an identity written in any accepted form."""
        n = name.split(":")[-1]
        for i in yt.derived(base, self.identities):
            mod, nn = i.split(":")
            if nn == n:
                return mod
        return None


def local_typedefs(x):
    """The typedefs within the data definitions of a module or submodule."""
    if isinstance(x, list):
        for v in x:
            for td in local_typedefs(v):
                yield td
        return
    if not isinstance(x, dict):
        return
    if "k" in x:
        for td in x.get("typedefs", []):
            yield td
    for k in ("body", "groupings", "augments", "rpcs", "notifs", "kids", "cases", "aug", "input", "output"):
        for td in local_typedefs(x.get(k, [])):
            yield td


def used_groupings(x):
    if isinstance(x, dict):
        if x.get("k") == "uses":
            yield x["g"]
        for v in x.values():
            for g in used_groupings(v):
                yield g
    elif isinstance(x, list):
        for v in x:
            for g in used_groupings(v):
                yield g


class RNode(object):
    """A node of the resolved data tree."""

    __slots__ = ("kind", "name", "py", "mod", "ns", "config", "kids", "keys", "ordered", "presence", "rt", "T",
                 "default", "choice", "parent", "path", "ext", "origtype", "iskey", "reg", "mandatory", "chs")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))
        if self.kids is None:
            self.kids = OrderedDict()
        self.chs = OrderedDict()    # (choice, case, choice, ...) -> config; they are module:name

    def walk(self):
        for c in self.kids.values():
            yield c
            for x in c.walk():
                yield x

    def at(self, path):
        n = self
        for p in path:
            n = n.kids[p]
        return n


def build_tree(S, env=None):
    """{module name: RNode root} of data nodes, plus rpc and notification roots."""
    env = env or Env(S)
    roots = OrderedDict()

    def effdefault(T):
        while T["t"] == "ref":
            td = env.typedefs[T["td"]]
            if td.get("default") is not None:
                return td["default"]
            T = td["type"]
        return None

    def add(parent, kids, mod, ns, config, choice, reg=True):
        for k in kids:
            if k["k"] == "uses":
                add(parent, used_nodes(k, env), mod, ns, config, choice, reg)
                continue
            if k["k"] == "choice":
                cases(parent, k["name"], mod, [(c["name"], c["kids"]) for c in k["cases"]], mod, ns,
                      config and k.get("config") is not False, choice, reg)
                continue
            n = RNode(kind=k["k"], name=k["name"], py=safe(k["name"]), mod=mod, ns=ns,
                      config=config and k.get("config") is not False, choice=list(choice), parent=parent,
                      path=(parent.path or []) + [k["name"]], ext=k.get("ext") or [], presence=bool(k.get("presence")),
                      origtype=k["k"], reg=reg, ordered=bool(k.get("ordered")))
            if k["k"] in ("leaf", "leaf-list"):
                n.T = k["type"]
                n.rt = yt.resolve(k["type"], env.typedefs)
                n.origtype = type_name(k["type"], env, mod)
                if k["k"] == "leaf":
                    n.default = k.get("default")
                    if n.default is None:
                        n.default = effdefault(k["type"])
                n.iskey = parent.kind == "list" and k["name"] in (parent.keys or [])
            else:
                n.keys = k.get("keys")
                add(n, k["kids"], mod, ns, n.config, [], reg)
            parent.kids[k["name"]] = n

    def cases(parent, name, chmod, cs, mod, ns, config, choice, reg=True):
        ch = "%s:%s" % (chmod, name)
        chain = tuple(x for c in choice for x in c) + (ch,)
        parent.chs[chain] = config
        for cname, kids in cs:
            ca = "%s:%s" % (mod, cname)
            parent.chs[chain + (ca,)] = config
            add(parent, kids, mod, ns, config, choice + [[ch, ca]], reg)

    for m in S["mods"]:
        r = RNode(kind="module", name=m["name"], py=safe(m["name"]), mod=m["name"], ns=m["ns"], config=True, path=[])
        roots[m["name"]] = r
        add(r, m.get("body", []), m["name"], m["ns"], True, [])
        for s in m.get("subs", []):
            add(r, s.get("body", []), m["name"], m["ns"], True, [])
    # (an augment may be of nodes that another one adds)
    todo = [(m, a) for m in S["mods"] for a in m.get("augments", [])]
    while todo:
        later = []
        for m, a in todo:
            try:
                tgt = roots[a["target"][0]].at(a["target"][1:])
                into = a.get("into") or []
                if len(a["target"]) + len(into) < 2:
                    raise KeyError(a["target"][0])
                cfg = tgt.chs[tuple(into)] if into else tgt.config
            except KeyError:
                later.append((m, a))
                continue
            chain = [list(x) for x in zip(into[::2], into[1::2])]
            if len(into) % 2:
                chmod, ch = into[-1].split(":")
                cases(tgt, ch, chmod, [(k["name"], k["kids"] if k["k"] == "case" else [k]) for k in a["kids"]],
                      m["name"], m["ns"], cfg, chain)
            else:
                add(tgt, a["kids"], m["name"], m["ns"], cfg, chain)
        if len(later) == len(todo):
            raise KeyError(later[0][1]["target"][-1])
        todo = later
    return roots


def used_nodes(u, env):
    """The nodes that a uses statement stands for, its refinements and augments applied."""
    kids = env.groupings[u["g"]]["kids"]
    if not u.get("refine") and not u.get("aug"):
        return kids
    kids = [x for k in copy.deepcopy(kids) for x in spread(k, env)]
    for r in u.get("refine", []):
        k = find(kids, r["path"])[0]
        for s in ("default", "config", "presence"):
            if s in r:
                k[s] = r[s]
    for a in u.get("aug", []):
        find(kids, a["path"])[0]["kids"].extend(copy.deepcopy(a["kids"]))
    return kids


def spread(k, env):
    """A node without uses statements in it."""
    if k["k"] == "uses":
        return [y for x in copy.deepcopy(used_nodes(k, env)) for y in spread(x, env)]
    if k["k"] == "choice":
        for c in k["cases"]:
            c["kids"] = [y for x in c["kids"] for y in spread(x, env)]
    elif "kids" in k:
        k["kids"] = [y for x in k["kids"] for y in spread(x, env)]
    return [k]


def find(kids, path):
    """A node below others by the names of data nodes, and the names of schema nodes to it."""
    for k in kids:
        if k["k"] == "choice":
            for c in k["cases"]:
                try:
                    x, segs = find(c["kids"], path)
                except KeyError:
                    continue
                return x, [k["name"], c["name"]] + segs
        elif k["name"] == path[0]:
            if len(path) == 1:
                return k, [k["name"]]
            x, segs = find(k.get("kids", []), path[1:])
            return x, [k["name"]] + segs
    raise KeyError(path[0])


def build_ops(S, env=None):
    """{name of the class: root} of the operations and the notifications of each module."""
    T = dict(S, mods=[])
    where = OrderedDict()
    for m in S["mods"]:
        body = []
        for r in m.get("rpcs", []):
            if r.get("input") or r.get("output"):
                body.append({"k": "container", "name": r["name"], "kids": [
                    {"k": "container", "name": io, "kids": r[io]} for io in ("input", "output") if r.get(io)]})
        where[m["name"], "rpc"] = body
        where[m["name"], "notification"] = [dict(n, k="container") for n in m.get("notifs", [])]
    out = OrderedDict()
    for kind in ("rpc", "notification"):
        T["mods"] = [dict(m, body=where[m["name"], kind], augments=[],
                          subs=[dict(x, body=[]) for x in m.get("subs", [])]) for m in S["mods"]]
        for mod, r in build_tree(T).items():
            for n in r.kids.values():
                n.origtype = kind
                if kind == "rpc":
                    for io in n.kids.values():
                        io.origtype = io.name
            if r.kids:
                out["%s_%s" % (safe(mod), kind)] = r
    return out


def type_name(T, env, mod):
    """The argument of the type statement as written."""
    if T["t"] != "ref":
        return T["t"]
    m, n = T["td"].split(":")
    return n if m == mod else None


# ---------------------------------------------------------------- text
class _Emit(object):
    def __init__(self, mod, S, noise=None):
        self.mod = mod
        self.S = S
        self.N = noise
        self.where = mod["name"]    # (the submodule, in one)
        self.free = False           # can nodes be mandatory?
        self.keys = []              # those of the list around

    def q(self, s):
        return yt.q(s) if self.N is None else self.N.q(s)

    def mixed(self, out, a, lines, ind):
        """The statements of a, with lines among them."""
        if self.N is not None:
            if self.N.some(0.1):
                lines = lines + [self.N.comment()]
            self.N.mix(a, [[ind + x] for x in lines])
        return out + [x for b in a for x in b]

    def inside(self, fn, ind, **kw):
        """Emits with another context."""
        old = {k: getattr(self, k) for k in kw}
        for k, v in kw.items():
            setattr(self, k, v)
        try:
            return fn(ind)
        finally:
            for k, v in old.items():
                setattr(self, k, v)

    def pfx(self, other):
        if other == self.mod["name"]:
            return self.mod["prefix"] + ":" if self.mod.get("ownprefix") else ""
        return self.mod["imports"][other] + ":"

    def node(self, k, ind):
        kind = k["k"]
        out = []
        N = self.N
        i2 = ind + "  "
        if kind == "uses":
            m, g = k["g"].split(":")
            extra = [] if N is None else N.doc() + N.when() + N.feature(self.where)
            if not k.get("refine") and not k.get("aug") and not extra:
                return ["%suses %s%s;" % (ind, self.pfx(m), g)]
            env = Env(self.S)
            kids = [y for x in copy.deepcopy(env.groupings[k["g"]]["kids"]) for y in spread(x, env)]
            out.append("%suses %s%s {" % (ind, self.pfx(m), g))
            a = []
            for r in k.get("refine", []):
                b = ["%s  refine %s {" % (ind, "/".join(find(kids, r["path"])[1]))]
                st = []
                if r.get("presence"):
                    st.append(['%s    presence "refined";' % ind])
                if "default" in r:
                    st.append(["%s    default %s;" % (ind, self.q(r["default"]))])
                if "config" in r:
                    st.append(["%s    config %s;" % (ind, "true" if r["config"] else "false")])
                b = self.mixed(b, st, [] if N is None else N.doc(status=False), ind + "    ")
                a.append(b + [ind + "  }"])
            for x in k.get("aug", []):
                b = ["%s  augment %s {" % (ind, "/".join(find(kids, x["path"])[1]))]
                st = self.inside(lambda i: [self.node(y, i) for y in x["kids"]], ind + "    ", free=False, keys=[])
                b = self.mixed(b, st, [] if N is None else N.doc() + N.when() + N.feature(self.where), ind + "    ")
                a.append(b + [ind + "  }"])
            return self.mixed(out, a, extra, i2) + [ind + "}"]
        if kind == "choice":
            out.append("%schoice %s {" % (ind, k["name"]))
            a = []
            if k.get("config") is False:
                a.append([ind + "  config false;"])
            for c in k["cases"]:
                if c.get("short"):
                    a.append(self.inside(lambda i: self.node(c["kids"][0], i), i2, free=False))
                else:
                    b = ["%s  case %s {" % (ind, c["name"])]
                    st = self.inside(lambda i: [self.node(x, i) for x in c["kids"]], ind + "    ", free=False)
                    b = self.mixed(b, st, [] if N is None else N.doc() + N.when() + N.feature(self.where), ind + "    ")
                    a.append(b + [ind + "  }"])
            extra = []
            if N is not None:
                extra = N.doc() + N.when() + N.feature(self.where)
                if N.some(0.2):
                    extra.append("mandatory %s;" % ("true" if self.free else "false"))
                elif k["cases"] and N.some(0.2):
                    c = N.choice(k["cases"])
                    nm = c["kids"][0].get("name") if c.get("short") else c["name"]
                    if nm:
                        extra.append("default %s;" % self.q(nm))
            return self.mixed(out, a, extra, i2) + [ind + "}"]
        out.append("%s%s %s {" % (ind, kind, k["name"] if N is None else N.choice([k["name"], N.q(k["name"])])))
        a = []
        if k.get("desc") is not None:
            a.append(["%sdescription %s;" % (i2, self.q(k["desc"]))])
        for td in k.get("typedefs", []):
            a.append(self.typedef(td, i2))
        if kind in ("leaf", "leaf-list"):
            a.append([i2 + yt.text(k["type"], self.pfx, i2)])
            if k.get("default") is not None:
                a.append(["%sdefault %s;" % (i2, self.q(k["default"]))])
        if kind == "list" and k.get("keys"):
            sep = " " if N is None else N.choice([" ", " ", "  ", "\n     "])
            a.append(['%skey "%s";' % (i2, sep.join(k["keys"]))])
        if k.get("ordered") is not None and k["ordered"]:
            a.append([i2 + "ordered-by user;"])
        if kind == "container" and k.get("presence"):
            a.append([i2 + "presence %s;" % (yt.q("yes") if N is None else N.text())])
        if k.get("config") is not None:
            a.append(["%sconfig %s;" % (i2, "true" if k["config"] else "false")])
        for m, e, arg in k.get("ext") or []:
            a.append(["%s%s%s%s;" % (i2, self.pfx(m) or (self.mod["prefix"] + ":"), e, "" if arg is None else " " + self.q(arg))])
        a += self.inside(lambda i: [self.node(x, i) for x in k.get("kids", [])], i2,
                         keys=(k.get("keys") or []) if kind == "list" else self.keys if kind == "choice" else [])
        extra = [] if N is None else N.node(k, self.where, k["name"] in self.keys, self.free)
        return self.mixed(out, a, extra, i2) + [ind + "}"]

    def typedef(self, td, ind):
        out = ["%stypedef %s {" % (ind, td["name"])]
        a = [[ind + "  " + yt.text(td["type"], self.pfx, ind + "  ")]]
        if td.get("default") is not None:
            a.append(["%s  default %s;" % (ind, self.q(td["default"]))])
        extra = []
        if self.N is not None:
            extra = self.N.doc() + (["units %s;" % self.N.text()] if self.N.some(0.2) else [])
        return self.mixed(out, a, extra, ind + "  ") + [ind + "}"]

    def part(self, p, ind="  "):
        out = []
        N = self.N
        if N is not None:
            out += [ind + x for x in N.head(self.where) + N.defs(self.where)]
        for e in p.get("extdefs", []):
            out.append("%sextension %s%s" % (ind, e, ";" if e.startswith("flag") else " { argument value; }"))
        for i in p.get("identities", []):
            doc = [] if N is None else N.doc(0.15)
            if i["bases"] or doc:
                out.append("%sidentity %s {" % (ind, i["name"]))
                a = []
                for b in i["bases"]:
                    m, n = b.split(":")
                    a.append(["%s  base %s%s;" % (ind, self.pfx(m), n)])
                out = self.mixed(out, a, doc, ind + "  ") + [ind + "}"]
            else:
                out.append("%sidentity %s;" % (ind, i["name"]))
        for td in p.get("typedefs", []):
            out += self.typedef(td, ind)
        for g in p.get("groupings", []):
            out.append("%sgrouping %s {" % (ind, g["name"]))
            a = [self.node(x, ind + "  ") for x in g["kids"]]
            out = self.mixed(out, a, [] if N is None else N.doc(), ind + "  ") + [ind + "}"]
        for x in p.get("body", []):
            out += self.inside(lambda i: self.node(x, i), ind, free=True)
            if N is not None and N.some(0.1):
                out.append(ind + N.comment())
        return out


def emit(S):
    """{file name: YANG text}"""
    noise = Noise(S["noise"], S) if S.get("noise") else None
    yt.NOISE[0] = noise
    try:
        return _emit(S, noise)
    finally:
        yt.NOISE[0] = None


def _emit(S, noise):
    files = OrderedDict()

    def at(name):
        return "" if noise is None else noise.at(name)

    def include(name):
        x = at(name)
        return "  include %s%s" % (name, " {%s }" % x if x else ";")
    byname = {m["name"]: m for m in S["mods"]}
    full = build_tree(S)
    for m in S["mods"]:
        e = _Emit(m, S, noise)
        out = ["module %s {" % m["name"]]
        if m.get("v11"):
            out.append('  yang-version "1.1";')
        out += ['  namespace "%s";' % m["ns"], '  prefix "%s";' % m["prefix"]]
        for o, p in m.get("imports", {}).items():
            out.append('  import %s { prefix "%s";%s }' % (o, p, at(o)))
        for s in m.get("subs", []):
            out.append(include(s["name"]))
        out += e.part(m)
        for a in m.get("augments", []):
            segs = []
            cur_mod = a["target"][0]
            root = full[cur_mod]
            n = root
            for nm in a["target"][1:]:
                n = n.kids[nm]
                for x in [x for c in n.choice for x in c] + ["%s:%s" % (n.mod, nm)]:
                    segs += [e.pfx(x.split(":")[0]) or m["prefix"] + ":", x.split(":")[1]]
            for x in a.get("into") or []:
                segs += [e.pfx(x.split(":")[0]) or m["prefix"] + ":", x.split(":")[1]]
            path = "".join("/%s%s" % (segs[i], segs[i + 1]) for i in range(0, len(segs), 2))
            out.append('  augment "%s" {' % path)
            st = [e.node(x, "    ") for x in a["kids"]]
            out = e.mixed(out, st, [] if noise is None else noise.doc() + noise.when() + noise.feature(m["name"]), "    ")
            out.append("  }")
        for r in m.get("rpcs", []):
            out.append("  rpc %s {" % r["name"])
            if noise is not None:
                out += ["    " + x for x in noise.doc() + noise.feature(m["name"])]
            for io in ("input", "output"):
                if r.get(io):
                    out.append("    %s {" % io)
                    for x in r[io]:
                        out += e.node(x, "      ")
                    out.append("    }")
            out.append("  }")
        for nt in m.get("notifs", []):
            out.append("  notification %s {" % nt["name"])
            if noise is not None:
                out += ["    " + x for x in noise.doc() + noise.feature(m["name"])]
            for x in nt["kids"]:
                out += e.node(x, "    ")
            out.append("  }")
        out.append("}")
        files[m["name"]] = "\n".join(out) + "\n"
        for s in m.get("subs", []):
            out = ["submodule %s {" % s["name"]]
            if m.get("v11"):
                out.append('  yang-version "1.1";')
            out.append('  belongs-to %s { prefix "%s"; }' % (m["name"], m["prefix"]))
            for o, p in m.get("imports", {}).items():
                out.append('  import %s { prefix "%s";%s }' % (o, p, at(o)))
            e.where = s["name"]
            out += e.part(s)
            out.append("}")
            files[s["name"]] = "\n".join(out) + "\n"
    assert byname
    return files


# ---------------------------------------------------------------- generation
WORDS = ["alpha", "beta", "gamma", "delta", "x", "y1", "speed", "mtu", "peer-group", "in-octets", "a-b", "c.d",
         "Upper", "under_score", "interface", "state", "config", "name", "id", "next-hop", "v4.addr"]
RES_POOL = ["list", "global", "class", "in", "max", "import", "default", "get", "as", "from", "set", "if", "yang_name",
            "add", "delete", "lambda", "is", "with", "async", "str", "int", "min", "or", "pop", "insert", "remove",
            "None", "True", "await", "append", "extend", "_x", "x_", "a--b", "args", "v", "t", "load", "kwargs",
            "_parent", "_path", "_set", "_default", "_changed", "_yang_name", "_metadata", "_present", "_extmethods",
            "_path_helper", "_register", "_choice", "_extensions", "_is_leaf", "OrderedDict",
            "yang-name", "yang.name", "_path-helper", "_yang.name", "_is-leaf", "yang-name", "_set-present", "_register-path",
            "type", "object", "Decimal", "bitarray", "super", "hasattr", "getattr", "isinstance", "ValueError"]

DEFAULT_F = {
    "mods": (1, 2), "depth": 3, "width": (1, 4), "top": (1, 3),
    "types": {"int": 6, "string": 5, "dec": 2, "bool": 2, "empty": 1, "enum": 2, "idref": 2, "bits": 1, "bin": 1,
              "union": 2, "ref": 4},
    "w": {"leaf": 8, "container": 4, "list": 3, "leaf-list": 2, "choice": 2, "uses": 2},
    "p_reserved": 0.15, "p_default": 0.25, "p_cfalse": 0.08, "p_presence": 0.2, "p_bare": 0.15, "p_ordered": 0.3, "p_keyless": 0.0,
    "p_multikey": 0.35, "p_sub": 0.2, "p_aug": 0.4, "p_restrict": 0.5, "p_multipat": 0.0, "p_import": 0.8,
    "td": (0, 4), "gr": (0, 2), "ids": (0, 6), "rpc": 0.0, "notif": 0.0, "p_local_td": 0.0, "p_nested_choice": 0.0,
    "p_ext": 0.0, "ext_args": ["v1", "some value", "42"], "p_desc": 0.0, "key_types": {"int": 4, "string": 4, "enum": 2, "bool": 1, "ref": 2},
    "ll_types": None, "p_default_td": 0.3, "maxnodes": 40, "strdefault": "plain", "p_prefix_alias": 0.3,
    "p_uniondefault": 0.3, "pats": None, "p_multibase": 0.0,
    "p_collide": 0.25, "p_refine": 0.25, "p_choice_cfalse": 0.04, "p_augchoice": 0.3, "pool": None, "p_modname": 0.0,
}


class SchemaGen(object):
    def __init__(self, d, F=None):
        self.d = d
        self.F = dict(DEFAULT_F, **(F or {}))
        self.S = {"mods": []}
        self.n = 0
        self.uid = 0
        self.typedefs = OrderedDict()   # "mod:name" -> td
        self.identities = OrderedDict()
        self.tdrt = {}
        self.cur = None
        self.noconfig = 0   # 1: inside a grouping; 2: inside an operation

    # -- names
    def fresh(self, used, pool=None, suffix=""):
        d = self.d
        for _ in range(4):
            if pool is None and d.bool(self.F["p_reserved"]):
                n = d.pick(RES_POOL)
            else:
                n = d.pick(pool or self.F["pool"] or WORDS)
            n += suffix
            if safe(n) not in used:
                used.add(safe(n))
                return n
        self.uid += 1
        n = "n%d%s" % (self.uid, suffix)
        used.add(safe(n))
        return n

    # -- types
    def ranges_int(self, lo, hi, cur):
        d = self.d
        a, b = d.pick(cur) if cur else (lo, hi)
        if a == b:
            return None
        k = d.weighted([(6, 1), (3, 2), (1, 3)])
        pts = set()
        for _ in range(2 * k):
            m = d.int(0, 5)
            if m == 0:
                pts.add(a)
            elif m == 1:
                pts.add(b)
            elif m == 2:
                pts.add(max(a, min(b, d.int(-5, 20))))
            elif m == 3:
                pts.add(max(a, min(b, a + d.int(0, 30))))
            elif m == 4:
                pts.add(max(a, min(b, b - d.int(0, 30))))
            else:
                pts.add(d.int(a, b))
        pts = sorted(pts)
        out = []
        i = 0
        while i < len(pts):
            if i + 1 < len(pts) and not d.bool(0.15):
                out.append([pts[i], pts[i + 1]])
                i += 2
            else:
                out.append([pts[i], pts[i]])
                i += 1
        if not out:
            return None
        # min and max stand for the bounds of the type being restricted
        flo = cur[0][0] if cur else lo
        fhi = cur[-1][1] if cur else hi
        if out[0][0] == flo and out[0][0] != out[0][1] and d.bool(0.5):
            out[0][0] = "min"
        if out[-1][1] == fhi and out[-1][0] != out[-1][1] and d.bool(0.5):
            out[-1][1] = "max"
        self.single_bounds(out, flo, fhi)
        return out

    def single_bounds(self, out, lo, hi):
        """A part can be "min" or "max" alone."""
        d = self.d
        if out[0] == [lo, lo] and d.bool(0.5):
            out[0] = ["min", "min"]
        if hi is not None and out[-1] == [hi, hi] and d.bool(0.5):
            out[-1] = ["max", "max"]

    def range_txt(self, rs):
        d = self.d
        dots = d.pick(["..", "..", " .. ", ".. ", " ..", "\t..", "..\n  "])
        bar = d.pick(["|", " | ", "| ", "\n   | ", "|\n\t"])
        return bar.join(str(a) if a == b else "%s%s%s" % (a, dots, b) for a, b in rs)

    def lens(self, cur):
        d = self.d
        a, b = d.pick(cur) if cur else (0, None)
        hi = b if b is not None else a + 12
        if a >= hi:
            return None
        k = d.weighted([(6, 1), (2, 2)])
        pts = sorted(set(d.int(a, hi) for _ in range(2 * k)))
        out, i = [], 0
        while i < len(pts):
            if i + 1 < len(pts) and not d.bool(0.2):
                out.append([pts[i], pts[i + 1]])
                i += 2
            else:
                out.append([pts[i], pts[i]])
                i += 1
        if b is None and d.bool(0.2) and out[-1][0] != out[-1][1]:
            out[-1][1] = "max"
        if out[0][0] == (cur[0][0] if cur else 0) and out[0][0] != out[0][1] and d.bool(0.3):
            out[0][0] = "min"
        self.single_bounds(out, cur[0][0] if cur else 0, cur[-1][1] if cur else None)
        return out

    def restrict(self, T, rt):
        """Add restrictions to T over resolved base rt."""
        d, F = self.d, self.F
        b = rt["b"]
        if b == "int":
            rs = self.ranges_int(rt["lim"][0], rt["lim"][1], rt["ranges"][-1] if rt["ranges"] else None)
            if rs:
                T["range"] = rs
                if d.bool(0.5):
                    T["range_txt"] = self.range_txt(rs)
        elif b == "dec":
            fd = rt["fd"]
            sc = lambda s: int(Decimal(s).scaleb(fd))  # noqa: E731
            cur = [[sc(x), sc(y)] for x, y in rt["ranges"][-1]] if rt["ranges"] else None
            rs = self.ranges_int(sc(rt["lim"][0]), sc(rt["lim"][1]), cur)
            if rs:
                T["range"] = [[x if isinstance(x, str) else decstr(x, fd), y if isinstance(y, str) else decstr(y, fd)]
                              for x, y in rs]
                if d.bool(0.5):
                    T["range_txt"] = self.range_txt(T["range"])
        elif b == "bin":
            ls = self.lens(rt["lens"][-1] if rt["lens"] else None)
            if ls:
                T["len"] = ls
                if d.bool(0.4):
                    T["len_txt"] = self.range_txt(ls)
        elif b == "str":
            k = d.int(0, 4)
            T2 = dict(T)
            pats = F["pats"] or yt.PAT_NAMES
            if k in (0, 1, 4):
                T2["pat"] = [d.pick(pats)]
                if d.bool(F["p_multipat"]):
                    T2["pat"].append(d.pick(pats))
            if k in (2, 3, 4):
                ls = self.lens(rt["lens"][-1] if rt["lens"] else None)
                if ls:
                    T2["len"] = ls
                    if d.bool(0.4):
                        T2["len_txt"] = self.range_txt(ls)
            try:
                rt2 = yt.resolve(T2, self.typedefs)
            except KeyError:
                rt2 = None
            if rt2 is not None and yt.gen_valid(d, rt2, None, 4) is not None:
                T.update(T2)
        return T

    def usable_typedefs(self, kinds, allow_default=True):
        out = []
        for k, td in self.typedefs.items():
            mod = k.split(":")[0]
            if mod != self.cur["name"] and mod not in self.cur["imports"]:
                continue
            if td.get("_scope") is not None:
                continue
            rt = self.tdrt[k]
            kk = KIND_OF[rt["b"]]
            if kk not in kinds and not (kk == "union" and "union" in kinds):
                continue
            if not allow_default and self.td_has_default(k):
                continue
            out.append(k)
        return out

    def td_has_default(self, k):
        while True:
            td = self.typedefs[k]
            if td.get("default") is not None:
                return True
            if td["type"]["t"] != "ref":
                return False
            k = td["type"]["td"]

    def usable_bases(self):
        out = []
        for i in self.identities:
            mod = i.split(":")[0]
            if mod == self.cur["name"] or mod in self.cur["imports"]:
                if yt.derived(i, self.identities):
                    out.append(i)
        return out

    def gen_type(self, weights=None, depth=0, allow_default=True):
        d = self.d
        weights = weights or self.F["types"]
        pairs = []
        for k in ("int", "string", "bool", "enum", "dec", "empty", "idref", "bits", "bin", "union", "ref"):
            w = weights.get(k, 0)
            if not w:
                continue
            if k == "union" and depth >= 2:
                continue
            if k == "idref" and not self.usable_bases():
                continue
            if k == "ref":
                kinds = set(x for x in weights if weights[x]) - {"ref"}
                if not self.usable_typedefs(kinds, allow_default):
                    continue
            pairs.append((w, k))
        k = d.weighted(pairs)
        if k == "int":
            T = {"t": d.pick(yt.INT_NAMES)}
        elif k == "string":
            T = {"t": "string"}
        elif k == "dec":
            T = {"t": "decimal64", "fd": d.weighted([(6, d.int(1, 4)), (2, d.int(1, 18))])}
        elif k == "bool":
            return {"t": "boolean"}
        elif k == "empty":
            return {"t": "empty"}
        elif k == "bin":
            T = {"t": "binary"}
        elif k == "enum":
            names = d.sample(["red", "green", "blue", "UP", "down-state", "x.y", "with space", "n_1", "true", "max"], d.int(1, 5))
            return {"t": "enumeration", "enums": self.enum_values(names)}
        elif k == "bits":
            names = d.sample(["b0", "syn", "ack", "URG", "fin-x", "p.s", "zeta", "mid"], d.int(1, 6))
            mode = d.int(0, 2)
            if mode == 0:
                return {"t": "bits", "bits": [[n, None] for n in names]}
            pos = d.sample(list(range(0, 14)), len(names))
            if mode == 2:
                return {"t": "bits", "bits": self.mixed_bits(names, pos)}
            return {"t": "bits", "bits": [[n, p] for n, p in zip(names, pos)]}
        elif k == "idref":
            return {"t": "identityref", "base": d.pick(self.usable_bases())}
        elif k == "union":
            w2 = dict(weights)
            w2["empty"] = 0
            ms = [self.gen_type(w2, depth + 1, allow_default=False) for _ in range(d.int(1, 4))]
            return {"t": "union", "m": ms}
        elif k == "ref":
            kinds = set(x for x in weights if weights[x]) - {"ref"}
            key = d.pick(self.usable_typedefs(kinds, allow_default))
            T = {"t": "ref", "td": key}
        rt = yt.resolve(T, self.typedefs)
        if k == "ref" and self.td_has_default(T["td"]):
            return T   # a narrower range could exclude the inherited default
        if rt["b"] in ("int", "dec", "str", "bin") and d.bool(self.F["p_restrict"]):
            T = self.restrict(T, rt)
        return T

    def enum_values(self, names):
        d = self.d
        if d.bool(0.5):
            return [[n, None] for n in names]
        vals = d.sample(list(range(-3, 20)), len(names))
        mode = d.bool(0.5)
        out, used, hi = [], set(), None
        for n, v in zip(names, vals):
            if mode and d.bool(0.4) and (hi is None or hi >= -1):   # (pyang starts at 0 otherwise)
                # automatic: one more than the highest so far
                auto = 0 if hi is None else hi + 1
                out.append([n, None])
                used.add(auto)
                hi = auto if hi is None else max(hi, auto)
            elif v in used:
                return [[m, None] for m in names]
            else:
                out.append([n, v])
                used.add(v)
                hi = v if hi is None else max(hi, v)
        return out

    def mixed_bits(self, names, pos):
        d = self.d
        out, used, hi = [], set(), -1
        for n, p in zip(names, pos):
            if d.bool(0.5) or p in used:
                p2 = hi + 1
                out.append([n, None])
            else:
                p2 = p
                out.append([n, p])
            used.add(p2)
            hi = max(hi, p2)
        return out

    # -- defaults
    def lexical_default(self, T, strdefault=None):
        """A default in its YANG lexical form, or None."""
        d = self.d
        rt = yt.resolve(T, self.typedefs)
        b = rt["b"]
        env = Env(dict(self.S, mods=self.S["mods"] + ([self.cur] if self.cur not in self.S["mods"] else [])))
        if b == "empty":
            return None
        if b == "union" and not d.bool(self.F["p_uniondefault"]):
            return None
        for _ in range(8):
            w = yt.gen_probe(d, rt, env)
            v = yt.to_py(w)
            if yt.judge(rt, v, env)[0] != "ok":
                continue
            m = yt.find_member(rt, v, env)
            if m["b"] == "bool":
                s = "true" if v in (True, "true") else "false"
            elif m["b"] == "int":
                s = str(v)
            elif m["b"] == "dec":
                x = Decimal(str(v)).quantize(Decimal(1).scaleb(-m["fd"]))
                s = format(x, "f")
            elif m["b"] == "bits":
                s = yt.bits_text(m, set(v.split()))
            elif m["b"] == "bin":
                if isinstance(v, bytes):
                    import base64
                    s = base64.b64encode(v).decode()
                else:
                    s = v
            elif m["b"] == "idref":
                # a default must use a prefix known in the module
                mod = env.id_module(v, m["base"])
                s = v.split(":")[-1]
                if mod != self.cur["name"]:
                    if mod not in self.cur["imports"]:
                        continue
                    s = "%s:%s" % (self.cur["imports"][mod], s)
            else:
                s = v
            if not isinstance(s, str):
                continue
            if yt.judge(rt, s, env)[0] != "ok":
                continue
            if b == "union" and (yt.find_member(rt, s, env) is not m):
                continue
            if "\r" in s:
                continue   # (pyang reads it as a line break)
            if (strdefault or self.F["strdefault"]) == "plain" and re.search(r"[^ -~]|[\"\\\n]", s):
                continue
            return s
        return None

    # -- nodes
    def kids(self, depth, used, config, lo=1, in_case=False, suffix=""):
        d, F = self.d, self.F
        out = []
        n = d.int(max(lo, F["width"][0]), F["width"][1])
        for _ in range(n):
            if self.n >= F["maxnodes"] and len(out) >= lo:
                break
            d.d.start_span(3)
            x = self.node(depth, used, config, suffix)
            d.d.stop_span()
            if x is not None:
                out.append(x)
        if not out:
            out.append(self.leaf(used, config, suffix))
        return out

    def node(self, depth, used, config, suffix=""):
        d, F = self.d, self.F
        w = dict(F["w"])
        if depth <= 0:
            for k in ("container", "list", "choice"):
                w[k] = 0
        gs = [g for g in self.usable_groupings() if not (set(safe(x) for x in self.top_names(g)) & used)]
        if not gs:
            w["uses"] = 0
        kind = d.weighted([(w[k], k) for k in ("leaf", "container", "list", "leaf-list", "choice", "uses") if w.get(k)])
        if kind == "uses":
            g = d.pick(gs)
            used.update(safe(x) for x in self.top_names(g))
            x = {"k": "uses", "g": g}
            if d.bool(F["p_refine"]):
                self.refine(x, config)
            return x
        if kind == "leaf":
            return self.leaf(used, config, suffix)
        if kind == "leaf-list":
            self.n += 1
            x = {"k": "leaf-list", "name": self.fresh(used, suffix=suffix),
                 "type": self.gen_type(F["ll_types"] or self.no_empty(), allow_default=False)}
            if d.bool(F["p_ordered"]):
                x["ordered"] = True
            self.common(x, config)
            return x
        if kind == "container":
            self.n += 1
            x = {"k": "container", "name": self.fresh(used, suffix=suffix)}
            if d.bool(F["p_presence"]):
                x["presence"] = True
            self.common(x, config)
            if x.get("presence") and d.bool(F["p_bare"]):
                x["kids"] = []
                return x
            cfg = config and x.get("config") is not False
            if d.bool(F["p_local_td"]):
                self.local_td(x)
            sub = set()
            x["kids"] = self.kids(depth - 1, sub, cfg)
            if x.get("typedefs"):
                x["kids"].append({"k": "leaf", "name": self.fresh(sub), "type": {"t": "ref", "td": x["_ltd"]}})
            return x
        if kind == "list":
            return self.list(depth, used, config, suffix)
        if kind == "choice":
            return self.choice(depth, used, config, suffix)

    def refine(self, u, config):
        """Refinements and augments of the nodes of a grouping."""
        d = self.d
        cands = []

        def rec(kids, path, cfg, keys):
            for k in kids:
                if k["k"] == "choice":
                    for c in k["cases"]:
                        rec(c["kids"], path, cfg and k.get("config") is not False, [])
                    continue
                c2 = cfg and k.get("config") is not False
                if k["name"] not in keys:
                    cands.append((path + [k["name"]], k, c2))
                rec(k.get("kids", []), path + [k["name"]], c2, k.get("keys") or [])
        env = type("E", (), {"groupings": self.groupings})
        kids = [y for x in copy.deepcopy(self.groupings[u["g"]]["kids"]) for y in spread(x, env)]
        rec(kids, [], config, [])
        seen = []
        for _ in range(d.int(1, 2)):
            if not cands:
                return
            path, k, cfg = d.pick(cands)
            if path in seen:
                continue
            seen.append(path)
            r = {"path": path}
            if k["k"] in ("container", "list") and d.bool(0.5) and self.n < self.F["maxnodes"]:
                self.uid += 1
                us = set(safe(x) for x in self.names_of(k["kids"]))
                old, self.noconfig = self.noconfig, max(1, self.noconfig)
                a = {"path": path, "kids": self.kids(1, us, cfg, suffix="-a%d" % self.uid)}
                self.noconfig = old
                u.setdefault("aug", []).append(a)
                cands = [x for x in cands if x[0] != path]
                continue
            if k["k"] == "leaf" and d.bool(0.7):
                s = self.lexical_default(k["type"])
                if s is not None:
                    r["default"] = s
            elif k["k"] == "container" and not k.get("presence") and d.bool(0.5):
                r["presence"] = True
            elif cfg and self.noconfig < 2 and k.get("config") is None and not (k["k"] == "list" and k.get("ordered")):
                r["config"] = False
            if len(r) > 1:
                u.setdefault("refine", []).append(r)
        if u.get("aug"):
            # (what is augmented is there before it is refined in no other order)
            u["refine"] = [r for r in u.get("refine", []) if not any(r["path"][:len(a["path"])] == a["path"] for a in u["aug"])]

    def names_of(self, kids):
        out = []
        for k in kids:
            if k["k"] == "choice":
                for c in k["cases"]:
                    out += self.names_of(c["kids"])
            elif k["k"] == "uses":
                out += self.top_names(k["g"])
            else:
                out.append(k["name"])
        return out

    def no_empty(self):
        return dict(self.F["types"], empty=0)

    def local_td(self, x):
        self.uid += 1
        name = "ltd%d" % self.uid
        td = {"name": name, "type": self.gen_type()}
        x["typedefs"] = [td]
        key = "%s:%s" % (self.cur["name"], name)
        self.typedefs[key] = dict(td, _scope=1)
        self.tdrt[key] = yt.resolve(td["type"], self.typedefs)
        x["_ltd"] = key

    def common(self, x, config):
        d, F = self.d, self.F
        if config and self.noconfig < 2 and d.bool(F["p_cfalse"]):
            x["config"] = False
        elif config and not self.noconfig and d.bool(0.05):
            x["config"] = True
        if d.bool(F["p_desc"]):
            x["desc"] = d.pick(["A simple description.", "Two\nlines here.", "unicode \u00e9 text",
                                "with 'single' quotes", "100%s of %(x)s {braces}"])
        if F["p_ext"] and self.cur.get("_exts") and d.bool(F["p_ext"]):
            x["ext"] = [[m, e, None if e.startswith("flag") else d.pick(F["ext_args"])]
                        for m, e in d.sample(self.cur["_exts"], d.int(1, 3))]

    def leaf(self, used, config, suffix=""):
        d, F = self.d, self.F
        self.n += 1
        x = {"k": "leaf", "name": self.fresh(used, suffix=suffix), "type": self.gen_type()}
        self.common(x, config)
        if d.bool(F["p_default"]):
            s = self.lexical_default(x["type"])
            if s is not None:
                x["default"] = s
        return x

    def list(self, depth, used, config, suffix=""):
        d, F = self.d, self.F
        self.n += 1
        x = {"k": "list", "name": self.fresh(used, suffix=suffix)}
        self.common(x, config)
        cfg = config and x.get("config") is not False
        sub = set()
        kids = []
        if not cfg and d.bool(F["p_keyless"]):
            pass
        else:
            nk = 1
            while nk < 3 and d.bool(F["p_multikey"]):
                nk += 1
            keys = []
            for _ in range(nk):
                nm = self.fresh(sub)
                keys.append(nm)
                self.n += 1
                kids.append({"k": "leaf", "name": nm, "type": self.gen_type(F["key_types"], allow_default=False)})
            x["keys"] = keys
            if nk > 1 and d.bool(0.3):
                kids = d.shuffle(kids)
        if d.bool(F["p_ordered"]) and cfg:
            x["ordered"] = True
        if self.n < F["maxnodes"]:
            more = self.kids(depth - 1, sub, cfg)
            if d.bool(0.2):
                kids = more + kids
            else:
                kids = kids + more
        x["kids"] = kids
        if not kids:
            x["kids"] = [self.leaf(sub, cfg)]
        return x

    def choice(self, depth, used, config, suffix=""):
        d, F = self.d, self.F
        self.uid += 1
        x = {"k": "choice", "name": "ch%d%s" % (self.uid, d.pick(["", "-sel"])), "cases": []}
        if config and self.noconfig < 2 and d.bool(F["p_choice_cfalse"]):
            x["config"] = config = False
        ncase = d.pick([2, 2, 2, 3, 3, 5])
        cnames = set()
        for _ in range(ncase):
            if d.bool(F["p_nested_choice"] * 0.4) and depth > 0:
                # (YANG 1.1: a choice as a case of its own)
                k = self.choice(depth - 1, used, config, suffix)
                x["cases"].append({"name": k["name"], "short": True, "kids": [k]})
                self.cur["v11"] = True
            elif d.bool(0.3):
                k = self.node_nochoice(depth - 1, used, config, suffix)
                if k["k"] == "uses":
                    x["cases"].append({"name": self.fresh(cnames, suffix="-c%d" % len(x["cases"])), "kids": [k]})
                else:
                    x["cases"].append({"name": k["name"], "short": True, "kids": [k]})
            else:
                ks = []
                for _ in range(d.int(1, 3)):
                    if d.bool(F["p_nested_choice"]) and depth > 0:
                        ks.append(self.choice(depth - 1, used, config, suffix))
                    else:
                        ks.append(self.node_nochoice(depth - 1, used, config, suffix))
                x["cases"].append({"name": self.fresh(cnames, suffix="-c%d" % len(x["cases"])), "kids": ks})
        return x

    def node_nochoice(self, depth, used, config, suffix):
        saved = self.F
        self.F = dict(saved, w=dict(saved["w"], choice=0))
        try:
            # choices may still appear inside containers when allowed below
            x = self.node(depth, used, config, suffix)
        finally:
            self.F = saved
        return x

    def usable_groupings(self):
        out = []
        for g in self.groupings:
            mod = g.split(":")[0]
            if mod == self.cur["name"] or mod in self.cur["imports"]:
                out.append(g)
        return out

    def top_names(self, g):
        out = []

        def rec(kids):
            for k in kids:
                if k["k"] == "uses":
                    rec(self.groupings[k["g"]]["kids"])
                elif k["k"] == "choice":
                    for c in k["cases"]:
                        rec(c["kids"])
                else:
                    out.append(k["name"])
        rec(self.groupings[g]["kids"])
        return out

    # -- modules
    def schema(self):
        d, F = self.d, self.F
        self.groupings = OrderedDict()
        nm = d.int(*F["mods"])
        # the same typedef and identity names, and even module prefixes, in several modules
        self.collide = nm > 1 and d.bool(F["p_collide"])
        names = d.sample(["mod-a", "acme", "base.mod", "zeta-types", "oc"], nm)
        for i, n in enumerate(names):
            m = {"name": n, "prefix": ("p" if self.collide else "p%d" % i) if d.bool(0.7) else n.replace(".", "-"), "ns": d.weighted([(6, "urn:pbt:%s"), (1, "http://example.com/yang/%s?a=b&c=d"), (1, "urn:it's:%s"),
                                                (1, "urn:a%%20b:%s")]) % n.replace(".", "-"),
                 "imports": {}, "identities": [], "typedefs": [], "groupings": [], "body": []}
            self.cur = m
            for j, o in enumerate(names[:i]):
                if d.bool(F["p_import"]):
                    om = self.S["mods"][j]
                    p = "im%d" % j if d.bool(F["p_prefix_alias"]) else om["prefix"]
                    if p == m["prefix"] or p in m["imports"].values():
                        p = "im%d" % j
                    m["imports"][o] = p
            defs = m
            if d.bool(F["p_sub"]):
                # a submodule only sees its own definitions, the module sees both
                defs = {"name": n + "-sub", "identities": [], "typedefs": [], "groupings": [], "body": []}
                m["subs"] = [defs]
            if F["p_ext"]:
                defs["extdefs"] = ["marker%d" % i, "note%d" % i] if d.bool(0.6) else ["marker%d" % i, "note", "flag-%d" % i]
                m["_exts"] = [[n, e] for e in defs["extdefs"]] + [
                    [o["name"], e] for o in self.S["mods"] if o["name"] in m["imports"]
                    for e in (o.get("subs") or [o])[0]["extdefs"]]
            for _ in range(d.int(*F["ids"])):
                k = len(self.identities)
                bases = []
                cand = [x for x in self.identities if x.split(":")[0] == n or x.split(":")[0] in m["imports"]]
                if cand and d.bool(0.75):
                    bases = [d.pick(cand)]
                    if d.bool(F["p_multibase"]):
                        b2 = d.pick(cand)
                        if b2 not in bases:
                            bases.append(b2)
                            m["v11"] = True
                iname = "%s%d" % (d.pick(["id-", "ID_", "kind.", "k"]), k)
                if self.collide and not bases and d.bool(0.6):
                    iname = "same"
                    if "%s:same" % n in self.identities:
                        continue
                defs["identities"].append({"name": iname, "bases": bases})
                self.identities["%s:%s" % (n, iname)] = bases
            for _ in range(d.int(*F["td"])):
                self.uid += 1
                name = "%s%d" % (d.pick(["td", "my-type", "t_y.p"]), self.uid)
                if self.collide:
                    name = "td%d" % len(defs["typedefs"])
                td = {"name": name, "type": self.gen_type()}
                if d.bool(F["p_default_td"]):
                    s = self.lexical_default(td["type"])
                    if s is not None:
                        td["default"] = s
                defs["typedefs"].append(td)
                key = "%s:%s" % (n, name)
                self.typedefs[key] = td
                self.tdrt[key] = yt.resolve(td["type"], self.typedefs)
            if F["w"].get("uses"):
                for _ in range(d.int(*F["gr"])):
                    self.uid += 1
                    suffix = "-g%d" % self.uid
                    gname = "grp%d" % self.uid
                    self.noconfig = 1
                    g = {"name": gname, "kids": self.kids(F["depth"] - 1, set(), True, suffix=suffix)}
                    self.noconfig = 0
                    defs["groupings"].append(g)
                    self.groupings["%s:%s" % (n, gname)] = g
            used = set() if d.bool(F["p_modname"]) else set([safe(n)])
            ntop = d.int(*F["top"])
            for _ in range(ntop):
                if self.n >= F["maxnodes"] and m["body"]:
                    break
                x = self.node(F["depth"], used, True)
                (m["subs"][0] if m.get("subs") and d.bool(0.4) else m)["body"].append(x)
            if not m["body"] and not any(s["body"] for s in m.get("subs", [])):
                m["body"].append(self.leaf(used, True))
            self.noconfig = 2
            if d.bool(F["rpc"]):
                m["rpcs"] = [{"name": self.fresh(used, pool=["do-it", "clear", "reset", "import"]),
                              "input": self.kids(1, set(), True) if d.bool(0.8) else [],
                              "output": self.kids(1, set(), True) if d.bool(0.8) else []}]
            if d.bool(F["notif"]):
                m["notifs"] = [{"name": self.fresh(used, pool=["link-down", "alarm", "event", "global"]),
                                "kids": self.kids(1, set(), True)}]
            self.noconfig = 0
            self.S["mods"].append(m)
        # augments last: any container or list of an imported (or the same) module
        for i, m in enumerate(self.S["mods"]):
            if not d.bool(F["p_aug"]):
                continue
            self.cur = m
            for _ in range(1 + d.bool(0.35)):
                self.augment(m)
        for m in self.S["mods"]:
            m.pop("_exts", None)
            self._strip(m)
        # (pyang does not look into a grouping that is not used, and finds its typedefs unused)
        more = True
        while more:
            more = False
            used = set(used_groupings(self.S))
            for m in self.S["mods"]:
                for part in [m] + m.get("subs", []):
                    for g in list(part["groupings"]):
                        if "%s:%s" % (m["name"], g["name"]) not in used and list(local_typedefs({"groupings": [g]})):
                            part["groupings"].remove(g)
                            more = True
        return self.S

    def augment(self, m):
        d = self.d
        tgts = []
        base = build_tree(self.S)
        for o in self.S["mods"]:
            if o is m or o["name"] in m["imports"]:
                for n in base[o["name"]].walk():
                    if n.kind in ("container", "list") and n.config and self.mods_visible(n, m):
                        tgts.append([o["name"]] + n.path)
        into = None
        withch = [x for x in tgts + [[o["name"]] for o in self.S["mods"] if self.seen(o["name"], m)]
                  if base[x[0]].at(x[1:]).chs]
        if withch and d.bool(self.F["p_augchoice"]):
            # (a choice or a case at which more is added)
            t = d.pick(withch)
            tn = base[t[0]].at(t[1:])
            cands = [list(c) for c, cfg in tn.chs.items() if cfg and all(self.seen(x.split(":")[0], m) for x in c)]
            same = [x for x in withch if len(x) > 1 and
                    any(c[0].split(":")[0] != m["name"] for c in base[x[0]].at(x[1:]).chs)]
            if same and d.bool(0.4):
                t = d.pick(same)
                tn = base[t[0]].at(t[1:])
            elif cands:
                into = d.pick(cands)
            elif len(t) == 1:
                return
        elif tgts:
            t = d.pick(tgts)
            tn = base[t[0]].at(t[1:])
        else:
            return
        self.uid += 1
        suffix = "-u%d" % self.uid
        used = set(safe(x) for x in tn.kids)
        a = {"target": t}
        if into:
            a["into"] = into
        if into and len(into) % 2:
            names = {c[-1].split(":")[1] for c in tn.chs
                     if len(c) == len(into) + 1 and list(c[:-1]) == into and c[-1].split(":")[0] == m["name"]}
            a["kids"] = []
            for _ in range(d.int(1, 2)):
                if d.bool(0.4):
                    k = self.node_nochoice(1, used, True, suffix)
                    if k["k"] != "uses":
                        a["kids"].append(k)
                        continue
                    k = [k]
                else:
                    k = [self.node_nochoice(1, used, True, suffix) for _ in range(d.int(1, 2))]
                others = [c[-1].split(":")[1] for c in tn.chs if len(c) == len(into) + 1 and list(c[:-1]) == into]
                name = self.fresh(names, suffix=suffix + "-c")
                if d.bool(0.3) and [x for x in others if x not in names]:
                    name = d.pick([x for x in others if x not in names])
                    names.add(name)
                a["kids"].append({"k": "case", "name": name, "kids": k})
        else:
            a["kids"] = self.kids(1, used, True, suffix=suffix)
            # a choice with the name of one that another module has there
            others = {c[0].split(":")[1] for c in tn.chs if c[0].split(":")[0] != m["name"]}
            others -= {x.split(":")[1] for c in tn.chs for x in c[::2] if x.split(":")[0] == m["name"]}
            if others and not into:
                for x in a["kids"]:
                    if x["k"] == "choice" and d.bool(0.6):
                        x["name"] = d.pick(sorted(others))
                        break
                else:
                    if d.bool(0.8):
                        x = self.choice(1, used, True, suffix)
                        x["name"] = d.pick(sorted(others))
                        a["kids"].append(x)
        m.setdefault("augments", []).append(a)

    def seen(self, mod, m):
        return mod == m["name"] or mod in m["imports"]

    def mods_visible(self, n, m):
        while n is not None and n.kind != "module":
            if not all(self.seen(x, m) for x in [n.mod] + [y.split(":")[0] for c in n.choice for y in c]):
                return False
            n = n.parent
        return True

    def _strip(self, x):
        if isinstance(x, dict):
            for k in [k for k in x if k.startswith("_")]:
                del x[k]
            for v in x.values():
                self._strip(v)
        elif isinstance(x, list):
            for v in x:
                self._strip(v)


KIND_OF = {"int": "int", "dec": "dec", "str": "string", "bin": "bin", "bool": "bool", "empty": "empty", "enum": "enum",
           "idref": "idref", "bits": "bits", "union": "union", "leafref": "ref"}


def decstr(i, fd):
    s = str(abs(i)).rjust(fd + 1, "0")
    return ("-" if i < 0 else "") + s[:-fd] + "." + s[-fd:]


def gen_schema(F=None):
    cap = (F or {}).get("cap", 110)

    def g(d):
        for _ in range(5):
            S = SchemaGen(d, F).schema()
            if size(S) <= cap:
                break
        if d.bool((F or {}).get("p_noise", 0.35)):
            S["noise"] = d.int(1, 9999)
        return S
    return g


def choice_classes(S):
    """What is special about the choices of a schema, for reports."""
    out = set()
    for a in [a for m in S["mods"] for a in m.get("augments", [])]:
        if a.get("into"):
            out.add("augment of a choice" if len(a["into"]) % 2 else "augment of a case")
    for r in build_tree(S).values():
        for n in [r] + list(r.walk()):
            for k in (1, 2):
                ids = {}
                for c in n.chs:
                    if len(c) >= k:
                        ids.setdefault((c[:k - 1], c[k - 1].split(":")[1]), set()).add(c[k - 1])
                if any(len(x) > 1 for x in ids.values()):
                    out.add(["choices of one name", "cases of one name"][k - 1])
    return out


def mod_names(S):
    return [m["name"] for m in S["mods"]]


def size(S):
    return sum(1 for r in build_tree(S).values() for _ in r.walk())
