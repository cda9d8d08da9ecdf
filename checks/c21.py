"""C21: extension methods and extension data are on the right nodes."""
from pbt import hist, schema as sc
from pbt.engine import Part, check, cut, outcome, Violation
from pbt.live import reduce_case
from pbt.model import Live, Model, OpGen, compare, show
from checks import c12, c19

RULE = ("extension data: a case compiles modules that use extensions with a generated choice of modules to record and looks at "
        "every node after a history of operations; it is non-trivial when a node carried data that was recorded and another one "
        "data that was not.  Extension methods: a case gives methods to generated paths; it is non-trivial when methods were "
        "called on nodes below list entries and the class of another node had none")

ASSUMPTIONS = ["a node uses an extension once", "methods do not have the names of methods of the bindings"]

F1 = {"depth": 3, "maxnodes": 24, "p_ext": 0.55, "p_reserved": 0.15, "p_cfalse": 0.1, "mods": (1, 3), "p_sub": 0.35,
      "p_keyless": 0.2, "p_aug": 0.5, "gr": (0, 2), "rpc": 0.3, "notif": 0.3, "p_nested_choice": 0.2, "p_desc": 0.2,
      "ext_args": ["v1", "some value", "42", "it's", 'say "x"', "", "a\\d", "caf\u00e9", "{'a': 1}", "%s", "two\nlines"],
      "w": {"leaf": 8, "container": 4, "list": 4, "leaf-list": 3, "choice": 2, "uses": 3}}
F2 = {"depth": 3, "maxnodes": 20, "p_reserved": 0.2, "p_cfalse": 0.1, "mods": (1, 2), "p_keyless": 0.15, "p_multikey": 0.4,
      "types": {"int": 5, "string": 5, "dec": 1, "bool": 2, "empty": 1, "enum": 2, "idref": 1, "bits": 1, "bin": 1, "union": 2,
                "ref": 3}, "td": (0, 2), "gr": (0, 1),
      "w": {"leaf": 7, "container": 4, "list": 6, "leaf-list": 3, "choice": 2, "uses": 2}}

W = {"set": 10, "unset": 3, "add": 8, "del": 2, "pres": 1, "app": 4, "ins": 1, "lset": 3, "rm": 1, "pop": 0, "ldel": 0,
     "unset_c": 1}
METHODS = ["commit", "presave", "method", "zeta", "a", "echo", "x_1", "call", "A"]


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("extensions", gen_ext, 4, outer=outer_ext, n_outer=60 * k),
            Part("methods", gen_meth, 16, outer=sc.gen_schema(F2), n_outer=36 * k)]


reduce = reduce_case


# ---------------------------------------------------------------- extension data
def outer_ext(d):
    S = sc.gen_schema(F1)(d)
    exts = [m["name"] for m in S["mods"] if d.bool(0.6)]
    if d.bool(0.15):
        exts.append(d.pick(["l", "c", "d", "leaf", "t", "no-such"]))
    return dict(S, exts=exts, split=d.bool(0.3))


def gen_ext(d, S):
    g = OpGen(d, hist.ctx(S), W)
    return {"ops": [x for x in d.repeat(8, g.one) if x is not None], "bare": d.bool(0.1)}


def data(n, exts):
    out = {}
    for m, e, arg in n.ext:
        if m in exts:
            out.setdefault(m, {})[e] = arg
    return out or None


class Seen(object):
    yes = no = 0


def look(n, o, exts, path, when, seen, deep=True):
    """Every node at and below o has the extension data of its definition."""
    want = data(n, exts)
    got = cut("%s: extensions of %s" % (when, show(path)), o._extensions)
    got = got or None
    check(got == want, "%s: %s has the extension data %r instead of %r", when, show(path), got, want)
    seen.yes += want is not None
    seen.no += len(n.ext) > (sum(len(x) for x in want.values()) if want else 0)
    if n.kind == "list":
        for k, e in o.items():
            here = path[:-1] + [[path[-1], [str(k)]]]
            check((e._extensions() or None) == want, "%s: the entry %s has the extension data %r instead of %r", when, show(here),
                  e._extensions(), want)
            inside(n, e, exts, here, when, seen)
    elif n.kind == "container":
        inside(n, o, exts, path, when, seen)


def inside(n, o, exts, path, when, seen):
    for name, k in n.kids.items():
        look(k, getattr(o, k.py), exts, path + [name], when, seen)


def run_ext(case, st):
    S, h = case["schema"], case["h"]
    exts = [] if h["bare"] else S["exts"]
    flags = ["--presence", "--build-rpcs", "--build-notifications"] + ["--interesting-extension=" + x for x in exts]
    c = hist.comp(case, tuple(flags), split=S["split"])
    m, live = Model(c), Live(c)
    seen = Seen()
    for mod in c.names:
        inside(c.tree[mod], live.roots[mod], exts, [mod], "at first", seen)
    if S["split"]:
        for name, r in sc.build_ops(S, c.env).items():
            pkg = c.ns._subs.get(name)
            cls = getattr(pkg, r.py, None) or getattr(pkg, r.py + "_", None)
            check(cls is not None, "no class for %s", name)
            inside(r, cut("constructing " + name, cls), exts, [name], "at first", seen)
            st.cls("operations of a module")
    for op in h["ops"]:
        m.apply(op)
        cut("%s" % op, live.apply, op)
        st.op()
        st.cls("op " + op[0])
    when = "after %d operations" % len(h["ops"])
    for mod in c.names:
        keyless(c.tree[mod], live.roots[mod], st)
        inside(c.tree[mod], live.roots[mod], exts, [mod], when, seen)
    if not exts:
        check(seen.yes == 0, "harness: data without modules")
    st.nontrivial(seen.yes > 0 and seen.no > 0)


def keyless(n, o, st):
    """An entry in each list that has no keys."""
    for k in n.kids.values():
        if k.kind == "container":
            keyless(k, getattr(o, k.py), st)
        elif k.kind == "list" and not k.keys:
            lst = getattr(o, k.py)
            keyless(k, lst[cut("adding to " + k.name, lst.add)], st)
            st.cls("keyless entry")


# ---------------------------------------------------------------- extension methods
def schema_paths(S):
    out = []
    for m, r in sc.build_tree(S).items():
        for n in r.walk():
            out.append([m] + n.path)
    return out


def gen_meth(d, S):
    paths = schema_paths(S)
    meths = {}
    for p in d.sample(sorted(paths, key=lambda p: -len(p))[:8] if d.bool(0.5) else paths, d.int(1, 6)):
        k = d.int(0, 9)
        if k == 0 and len(p) > 2:
            p = p[:-2] + p[-1:]     # (a path that is not there, most of the time)
        elif k == 1:
            p = p + ["more"]
        meths["/" + "/".join(p[1:])] = sorted(set(d.pick(METHODS) for _ in range(d.int(1, 4))))
    g = OpGen(d, hist.ctx(S), W, keyodd=0.3, keyhow=("add", "add", "kw", "obj", "item"), helper=True)
    ops = [x for x in d.repeat(10, lambda: c12.one(g)) if x is not None and x[0] != "!"]
    return {"meths": meths, "ops": ops, "helper": d.bool(0.4), "flag": not d.bool(0.06),
            "how": d.weighted([(5, "dict"), (1, "none"), (1, "false"), (1, "empty")]), "args": [d.int(0, 9), d.pick(["", "x", "caller"])]}


def methods_of(names, path, log):
    """An object with methods of these names, and members that are none."""
    def make(name):
        def fn(self, *args, **kw):
            log.append((path, name, args, kw))
            return ("returned by", path, name, len(log))
        return fn
    ns = {n: make(n) for n in names}
    ns.update(version="1.0", _private=make("_private"))
    return type("Methods", (object,), ns)()


def every(n, o, path, out):
    for name, k in n.kids.items():
        v = getattr(o, k.py)
        p = path + [name]
        out.append((p, k, v, False))
        if k.kind == "list":
            for lk, e in v.items():
                out.append((p, k, e, True))
                every(k, e, p, out)
        elif k.kind == "container":
            every(k, v, p, out)
    return out


def run_meth(case, st):
    from pyangbind.lib.xpathhelper import YANGPathHelper
    h = case["h"]
    flags = ["--presence", "--use-xpathhelper"] + (["--use-extmethods"] if h["flag"] else [])
    c = hist.comp(case, tuple(flags))
    log = []
    objs = {p: methods_of(ms, p, log) for p, ms in h["meths"].items()}
    kw = {"dict": {"extmethods": objs}, "none": {}, "false": {"extmethods": False}, "empty": {"extmethods": {}}}[h["how"]]
    on = h["flag"] and h["how"] == "dict"
    m, live = Model(c), Live(c, path_helper=YANGPathHelper if h["helper"] else None, **kw)
    called = without = False
    for i, op in enumerate([None] + h["ops"]):
        if op is not None:
            when, _ = c12.step(c, m, live, op, st)
            st.op()
        else:
            when = "at first"
        for mod in c.names:
            if i == len(h["ops"]):
                keyless(c.tree[mod], live.roots[mod], st)
            for path, n, o, entry in every(c.tree[mod], live.roots[mod], [], []):
                p = "/" + "/".join(path)
                what = "%s: %s%s" % (when, p, " (an entry)" if entry else "")
                ms = h["meths"].get(p, []) if on else []
                for name in METHODS:
                    f = getattr(o, "_" + name, None)
                    if name not in ms:
                        check(f is None, "%s has the method _%s", what, name)
                        without = without or bool(objs)
                        continue
                    check(callable(f), "%s does not have the method _%s", what, name)
                    del log[:]
                    a, k = h["args"]
                    kws = {"two": a} if k else {}
                    if k == "caller":
                        kws["caller"] = "someone"
                    args = (k,) * (a % 3)
                    r = cut("%s: _%s" % (what, name), f, *args, **kws)
                    check(len(log) == 1, "%s: _%s called %d methods", what, name, len(log))
                    check(log[0][:2] == (p, name), "%s: _%s called the method %s of %s", what, name, log[0][1], log[0][0])
                    check(log[0][2] == args, "%s: _%s got the arguments %r instead of %r", what, name, log[0][2], args)
                    got = dict(log[0][3])
                    check(got.pop("caller", None) == o._path(), "%s: _%s got the caller %r", what, name, log[0][3].get("caller"))
                    ph = got.pop("path_helper", None)
                    check(ph is live.helpers[mod] if h["helper"] else not ph, "%s: _%s got the path helper %r", what, name, ph)
                    kws.pop("caller", None)
                    check(got == kws, "%s: _%s got the keyword arguments %r instead of %r", what, name, got, kws)
                    check(r == ("returned by", p, name, 1), "%s: _%s returned %r", what, name, r)
                    st.cls("called on a %s" % (n.kind if not entry else "list entry"))
                    called = called or entry or "list" in [x.kind for x in above(n)]
                for name in ("version", "_private"):
                    if on and p in objs:
                        check(not hasattr(o, "_" + name), "%s has the member %s", what, name)
    for mod in c.names:
        check(not hasattr(live.roots[mod], "_commit"), "the module has a method")
        if kw.get("extmethods"):
            loaded(c, h, mod, live.roots[mod], kw["extmethods"], on, st)
    st.nontrivial(called and without)


def loaded(c, h, mod, root, objs, on, st):
    """What a document is loaded into has the methods that are given with it."""
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder
    from lxml import objectify

    def load_xml(text, ns, name, **kw):
        return pybindIETFXMLDecoder.load_xml(objectify.fromstring(text), ns, name, **kw)
    for mode, loads in (("default JSON", pybindJSON.loads), ("ietf JSON", pybindJSON.loads_ietf), ("XML", load_xml),
                        ("default JSON file", c19.from_file(pybindJSON.load)),
                        ("ietf JSON file", c19.from_file(pybindJSON.load_ietf))):
        if ("file" in mode) != (h["args"][0] % 3 == 0) and mode != "XML":
            continue
        if mode == "XML":
            ok, text = outcome(pybindIETFXMLEncoder.serialise, root, pretty_print=False)
        else:
            ok, text = outcome(pybindJSON.dumps, root, mode=mode.split()[0])
        if ok:
            from pyangbind.lib.xpathhelper import YANGPathHelper
            more = {"path_helper": YANGPathHelper()} if h["helper"] else {}
            ok, o2 = outcome(loads, text, c.ns, sc.safe(mod), extmethods=objs, **more)
        if not ok:
            continue     # (what can be loaded is the subject of other properties)
        for path, n, o, entry in every(c.tree[mod], o2, [], []):
            p = "/" + "/".join(path)
            ms = h["meths"].get(p, []) if on else []
            for name in METHODS:
                check(hasattr(o, "_" + name) == (name in ms), "loaded from %s: %s %s the method _%s", mode, p,
                      "does not have" if name in ms else "has", name)
        st.cls("loaded %s with methods" % mode)


def above(n):
    while n.parent is not None:
        n = n.parent
        yield n


def run(case, st):
    if "exts" in case["schema"]:
        run_ext(case, st)
    else:
        run_meth(case, st)
