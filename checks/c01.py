"""C01: the bindings mirror the data tree of the YANG modules."""
from pbt import schema as sc
from pbt.engine import Part, check, cut, outcome
from pbt.live import compiled, reduce_schema
from pbt.model import gen_key

RULE = "the modules have three data nodes or more, one of them below another node"

ASSUMPTIONS = ["names are such that no two nodes of one parent have the same Python name"]

W = {"leaf": 8, "container": 4, "list": 3, "leaf-list": 2, "choice": 3, "uses": 3}
BASE = {"w": W, "p_aug": 0.6, "p_sub": 0.35, "p_keyless": 0.4, "p_cfalse": 0.15, "p_choice_cfalse": 0.2,
        "p_nested_choice": 0.2, "p_reserved": 0.3, "p_desc": 0.25, "gr": (0, 3), "p_refine": 0.4, "p_local_td": 0.1,
        "key_types": {"int": 4, "string": 4, "enum": 1, "ref": 2}}
# names that meet again once they are joined or converted in different places
CLASH = ["a", "b", "c", "a-b", "b-c", "a-b-c", "a_b", "a.b", "b_c", "list", "list_", "input", "output", "config", "state",
         "elements", "x", "type", "path", "value", "self", "args", "load", "key", "object", "namespace", "e", "v", "t", "k"]
SIMPLE = {"int": 4, "string": 4, "bool": 1, "ref": 1}

PROFILES = [
    ("any", dict(BASE, mods=(1, 3), rpc=0.3, notif=0.3)),
    ("clash", dict(BASE, mods=(1, 2), pool=CLASH, p_reserved=0.1, types=SIMPLE, ids=(0, 0), td=(0, 1), depth=4,
                   width=(1, 3), p_modname=0.6, rpc=0.4, notif=0.4)),
    ("deep", dict(BASE, mods=(1, 2), types=SIMPLE, ids=(0, 0), td=(0, 2), depth=5, width=(1, 3), rpc=0.2, notif=0.2)),
]
FLAGS = ["--presence", "--use-extmethods", "--use-xpathhelper"]


def gen_for(F):
    def gen(d):
        S = sc.gen_schema(F)(d)
        env = sc.Env(S)
        keys = {}
        for kind, roots in (("data", sc.build_tree(S, env)), ("ops", sc.build_ops(S, env))):
            for name, r in roots.items():
                for n in r.walk():
                    if n.kind == "list" and n.keys:
                        ks = [gen_key(d, n.kids[k], env, len(n.keys) > 1, odd=0.05) for k in n.keys]
                        if None not in ks:
                            keys["/".join([kind, name] + n.path)] = ks
        return {"schema": S, "flags": d.subset(FLAGS, 0.3), "split": d.bool(0.5), "keys": keys}
    return gen


def parts(tier):
    n = {"quick": (45, 60, 30), "thorough": (500, 700, 400)}[tier]
    return [Part(name, gen_for(F), k) for (name, F), k in zip(PROFILES, n)]


def reduce(case):
    for T in reduce_schema(case["schema"]):
        if any(g not in set(sc.used_groupings(T)) for g in sc.Env(T).groupings) and list(sc.local_typedefs(T["mods"])):
            continue
        yield dict(case, schema=T)


def strip(p):
    return [x.split("[")[0] for x in p]


class Walk(object):
    def __init__(self, case, c, st, kind, name):
        self.case, self.c, self.st, self.kind, self.name = case, c, st, kind, name
        self.ops = kind == "ops"

    def container(self, n, o, what, path):
        """A module, container or list entry: exactly the children of the schema."""
        want = {k.py: k for k in n.kids.values()}
        els = cut(what + " elements", lambda: dict(o._pyangbind_elements))
        check(sorted(els) == sorted(want), "%s has the nodes %s, the schema %s", what, sorted(els), sorted(want))
        if "elements" not in want:
            check(sorted(cut(what, o.elements)) == sorted(want), "%s: elements() is %s", what, list(o.elements()))
        it = [(a, b) for a, b in cut("iterating " + what, list, o.__iter__())]
        check(sorted(a for a, _ in it) == sorted(want), "%s: iterating gives %s", what, it)
        for a, b in it:
            check(b is getattr(o, a), "%s: iterating gives another object for %s", what, a)
        ok, e = outcome(getattr, o, "no_such_node")
        check(not ok and isinstance(e, AttributeError), "%s: reading an unknown attribute gave %r", what, e)
        ok, e = outcome(setattr, o, "no_such_node", 1)
        check(not ok and isinstance(e, AttributeError), "%s: an unknown attribute can be set (%r)", what, e)
        got = cut(what + " get()", o.get)
        names = sorted(k.name for k in n.kids.values())
        check(sorted(got) == names, "%s: get() has %s, the schema %s", what, sorted(got), names)
        for py, k in want.items():
            self.node(k, cut("reading %s/%s" % (what, k.name), getattr, o, py), o, "%s/%s" % (what, k.name), path + [k.name])

    def node(self, n, o, parent, what, path):
        self.st.op()
        self.st.cls(n.kind + (" of an operation" if self.ops else ""))
        check(cut(what, o.yang_name) == n.name, "%s has the name %r", what, o.yang_name())
        p = cut(what + " _path", o._path)
        if self.ops:
            check(list(p)[-len(n.path):] == path[-len(n.path):], "%s: the path is %s, not %s", what, p, path)
        else:
            check(list(p) == path, "%s: the path is %s, not %s", what, p, path)
            check(o._yang_path() == "/" + "/".join(path), "%s: the YANG path is %s, not %s", what, o._yang_path(), path)
            check(list(o._register_path()) == path, "%s: the path to register is %s", what, o._register_path())
        check(o._namespace == n.ns, "%s: the namespace is %r, not %r", what, o._namespace, n.ns)
        check(o._defining_module == n.mod, "%s: the defining module is %r, not %r", what, o._defining_module, n.mod)
        if n.origtype is not None:
            check(o._yang_type == n.origtype, "%s: the type is %r, not %r", what, o._yang_type, n.origtype)
        else:
            name = n.T["td"].split(":")[1]
            check(o._yang_type.split(":")[-1] == name, "%s: the type is %r, not %r", what, o._yang_type, name)
        check(o._parent is parent, "%s: _parent is not the node above", what)
        prop = getattr(type(parent), n.py)
        check(isinstance(prop, property), "%s is no property", what)
        if n.config or not self.ops:
            check(bool(o._is_config) is n.config, "%s: _is_config is %s, the schema's config %s", what, o._is_config, n.config)
            check((prop.fset is not None) is n.config, "%s (config %s): public setter %s", what, n.config, prop.fset)
        for m in ("_get_", "_set_", "_unset_"):
            check(callable(getattr(parent, m + n.py, None)), "%s: no method %s%s", what, m, n.py)
        if not n.config:
            self.st.cls("config false")
        if n.choice:
            self.st.cls("below a choice")
        kind = {"container": "container", "list": "list"}.get(n.kind, False)
        if n.origtype not in ("rpc", "input", "output", "notification"):
            check(o._is_container == kind, "%s: _is_container is %r", what, o._is_container)
            check(bool(o._is_leaf) is (n.kind == "leaf"), "%s: _is_leaf is %r", what, o._is_leaf)
        if n.kind == "leaf":
            check(bool(o._is_keyval) is bool(n.iskey), "%s: _is_keyval is %r", what, o._is_keyval)
        if n.kind == "container":
            if "--presence" in self.case["flags"]:
                check(bool(o._presence) is bool(n.presence), "%s: _presence is %r", what, o._presence)
            self.container(n, o, what, path)
        elif n.kind == "list":
            self.list(n, o, what, path)

    def list(self, n, o, what, path):
        check(len(o) == 0, "%s is not empty at first", what)
        if n.keys:
            check(str(o._yang_keys).split() == n.keys, "%s: the keys are %r, not %r", what, o._yang_keys, n.keys)
            kv = [n.kids[k].py for k in n.keys]
            check(str(o._keyval).split() == kv, "%s: the key attributes are %r, not %r", what, o._keyval, kv)
        else:
            check(o._keyval is False, "%s: has keys %r", what, o._keyval)
        if n.config:
            check(bool(o._ordered) is n.ordered, "%s: ordered by user is %r", what, o._ordered)
        if not n.keys:
            self.st.cls("entry of a keyless list")
            k = cut("adding an entry to " + what, o.add)
            self.entry(n, cut("reading the entry of " + what, o.__getitem__, k), what + "[]", None, None)
            return
        ks = self.case["keys"].get("/".join([self.kind, self.name] + n.path))
        if ks is None or len(ks) != len(n.keys):
            return
        self.st.cls("entry of a list with %d keys" % len(ks))
        e = cut("adding %s to %s" % (ks, what), o.add, " ".join(ks))
        self.entry(n, e, "%s[%s]" % (what, " ".join(ks)), path, ks)

    def entry(self, n, e, what, path, ks):
        check(e.yang_name() == n.name, "%s has the name %r", what, e.yang_name())
        p = list(cut(what + " _path", e._path))
        if ks is not None and not self.ops:
            want = path[:-1] + [p[-1]]
            check(p == want, "%s: the path is %s", what, p)
            last = p[-1]
            check(last.startswith(n.name + "["), "%s: the path is %s", what, p)
            preds = [("%s='%s'" % (k, v), '%s="%s"' % (k, v)) for k, v in zip(n.keys, [self.text(n.kids[k], v) for k, v in zip(n.keys, ks)])]
            rest = last[len(n.name) + 1:-1]
            for a, b in preds:
                if a is not None and n.keys:
                    check(a in rest or b in rest or self.loose, "%s: the path %s lacks the key %s", what, p, a)
        else:
            check(strip(p)[-1] == n.name, "%s: the path is %s", what, p)
        self.container(n, e, what, p)

    loose = False

    def text(self, k, v):
        o = k.rt["b"]
        # (the key as given: numbers and names may be spelled in other ways)
        self.loose = o not in ("str", "enum") and not (o == "int" and v == str(int(v)))
        return v


def empty(S, name):
    """Is this the package of a module whose operations have no input and output?"""
    return any(m.get("rpcs") and name == sc.safe(m["name"]) + "_rpc" for m in S["mods"])


def unbare(tree):
    for r in tree.values():
        for x in [r] + list(r.walk()):
            for k in [k for k, y in x.kids.items() if y.kind == "container" and y.presence and not y.kids]:
                del x.kids[k]


def run(case, st):
    S = case["schema"]
    flags = list(case["flags"]) + ["--build-rpcs", "--build-notifications"]
    c = compiled(S, tuple(flags), split=case["split"])
    if "--presence" not in flags:
        # (such a container says nothing but that it is present)
        unbare(c.tree)
    n = sum(len(list(r.walk())) for r in c.tree.values())
    st.nontrivial(n >= 3 and any(len(x.path) > 1 for r in c.tree.values() for x in r.walk()))
    for name, r in c.tree.items():
        cls = getattr(c.ns, r.py, None)
        check(cls is not None, "no class for module %s", name)
        if not r.kids:
            continue
        check(cls._yang_name == r.name, "class %s has the name %s", name, cls._yang_name)
        check(cls._yang_namespace == r.ns, "class %s has the namespace %s", name, cls._yang_namespace)
        o = cut("constructing " + name, cls)
        check(o._path() == [], "class %s has the path %s", name, o._path())
        Walk(case, c, st, "data", name).container(r, o, "/" + name, [])
    if case["split"]:
        # (docs/rpc.md names the packages of the directory layout only)
        st.cls("split classes")
        ops = sc.build_ops(S, c.env)
        if "--presence" not in flags:
            unbare(ops)
        for name, r in ops.items():
            st.cls(name.rsplit("_", 1)[1])
            pkg = c.ns._subs.get(name)
            check(pkg is not None, "no package %s", name)
            cls = getattr(pkg, r.py, None) or getattr(pkg, r.py + "_", None)
            check(cls is not None, "no class %s in package %s", r.py, name)
            Walk(case, c, st, "ops", name).container(r, cut("constructing " + name, cls), "/" + name, [])
        for k in c.ns._subs:
            check(k in ops or any(x.py == k for r in c.tree.values() for x in r.kids.values())
                  or empty(S, k), "there is a package %s without anything in it", k)
    for f in case["flags"]:
        st.cls("flag " + f)
    for m in S["mods"]:
        if m.get("subs"):
            st.cls("submodule")
        if m.get("augments"):
            st.cls("augment")
