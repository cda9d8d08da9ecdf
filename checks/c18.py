"""C18: loading onto existing data merges or overwrites as asked."""
import copy
import json
from collections import OrderedDict

from pbt import enc, hist, schema as sc
from pbt.engine import HarnessError, Part, check, cut, outcome
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Cont, Live, Model, OpGen, compare, expected, show
from checks.c14 import build, count

RULE = ("a case builds data by a history, makes a document of other data and loads it onto the first; it is non-trivial when "
        "both hold three or more values and the document changes or adds to a list entry, a container or a leaf-list that "
        "is there already")

ASSUMPTIONS = ["keys are numbers, strings and enums that are spelled as the encodings spell them",
               "documents name each node once, and entries of user-ordered lists have their position as dumps have it",
               "what a load that was refused has done before it was refused is not specified"]

F = {"depth": 3, "maxnodes": 26, "p_cfalse": 0.12, "p_reserved": 0.15, "p_ordered": 0.4, "td": (0, 2), "p_multikey": 0.35,
     "p_presence": 0.3, "p_default": 0.2,
     "key_types": {"int": 5, "string": 4, "enum": 2},
     "w": {"leaf": 8, "container": 5, "list": 6, "leaf-list": 4, "choice": 2, "uses": 2}}

W = {"set": 10, "unset": 1, "add": 9, "del": 1, "pres": 3, "app": 4, "lset": 3, "rm": 1, "pop": 0, "ldel": 0, "unset_c": 0, "bit": 3}
UNKNOWN = [5, "x", True, 1.5, [], [1], ["a", "b"], {}, {"a": 1}, [{"a": 1}], {"zz": {"b": [1]}}]


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 22, outer=sc.gen_schema(F), n_outer=24 * k)]


class Gen(OpGen):
    """Keys that exist in the other model are spelled as there."""
    other = None

    def at(self, path, x, only=None):
        op = OpGen.at(self, path, x, only)
        if op is not None and op[0] == "del":
            op[3] = "add"
        if op is not None and op[0] == "add":
            n = self.m.node(op[1])
            if op[3] == "num" and (len(n.keys) > 1 or not num(op[2][0])):
                op[3] = "add"
            if self.other is not None:
                try:
                    es = self.other.parent(op[1]).v[op[1][-1]]
                except KeyError:
                    return op
                for e in es:
                    if e != tuple(op[2]) and all(self.eqkey(n.kids[kn], a, b) for kn, a, b in zip(n.keys, op[2], e)):
                        return None
        return op


def num(t):
    try:
        return str(int(t)) == t
    except ValueError:
        return False


def gen(d, S):
    c = hist.ctx(S)
    mode = d.pick(["default", "ietf"])
    both = [enc.usable("default", c.env), enc.usable("ietf", c.env)]

    def ok(n, w, cv):
        if n.iskey and (cv[0] not in ("int", "str", "enum") or w != enc.lexical(cv)):
            return False
        return all(f(n, w, cv) for f in both)
    g = Gen(d, c, W, ok, keyodd=0.08, keyhow=("add", "add", "num", "kw"))
    ops = [x for x in d.repeat(18, g.one) if x is not None]
    g2 = Gen(d, c, dict(W, unset=0, rm=0), ok, keyodd=0.08)
    g2.other = g.m
    ops2 = []
    # entries that are there already
    for op in ops:
        if op[0] == "add" and d.bool(0.6):
            try:
                if tuple(op[2]) in g2.m.parent(op[1]).v[op[1][-1]]:
                    continue
            except KeyError:
                continue
            op = list(op[:3]) + ["add"]
            g2.m.apply(op)
            ops2.append(op)
    ops2 += [x for x in d.repeat(14, g2.one) if x is not None]
    h = {"ops": ops, "ops2": ops2, "mode": mode, "overwrite": d.bool(0.4), "seed": d.int(0, 9999), "names": d.pick(["as", "all"])}
    # onto what, and what is in the document besides
    at, x = [d.pick(c.names)], None
    x = g2.m.roots[at[0]]
    while d.bool(0.35):
        subs = []
        for name, n in x.n.kids.items():
            if n.kind == "container":
                subs.append(name)
            elif n.kind == "list":
                try:
                    es = g.m.cont(at).v[name]
                except KeyError:
                    continue
                subs += [[name, list(k)] for k in x.v[name] if k in es]
        if not subs:
            break
        s = d.pick(subs)
        at = at + [s]
        x = g2.m.cont(at)
    h["at"] = at
    h["empty"] = []
    for p, y in places(g2.m, at, []):
        if any(n.choice or n.presence for n in (g.m.node(p[:i]) for i in range(2, len(p) + 1))):
            continue       # whether setting an empty leaf-list is setting data is not specified
        for name, n in y.n.kids.items():
            if not y.v.get(name) and n.kind in ("list", "leaf-list") and not n.choice and (n.kind == "leaf-list" or n.keys) \
                    and d.bool(0.12):
                h["empty"].append(p + [name])
            elif n.kind == "container" and not n.presence and not n.choice and not expected(y.v[name]) and d.bool(0.1):
                h["empty"].append(p + [name])
    h["unknown"] = None
    if d.bool(0.5):
        p, y = d.pick(list(places(g2.m, at, [], True)))
        h["unknown"] = [p, d.pick(["zz-unknown", "zz.q", "acme-zz"]), d.pick(UNKNOWN), d.bool()]
    return h


def places(m, at, here, shown=False):
    """The instances a document of the data at a path has."""
    x = m.cont(at)
    yield at, x
    for name, v in expected(x).items():
        n = x.n.kids[name]
        if n.kind == "container":
            for y in places(m, at + [name], here, shown):
                yield y
        elif n.kind == "list":
            for k in v:
                for y in places(m, at + [[name, list(k)]], here, shown):
                    yield y


def document(c, x, path, h, parent_mod, extra=None):
    """A document that has the data of an instance."""
    ietf = h["mode"] == "ietf"
    out = OrderedDict()
    want = expected(x)
    for name, n in x.n.kids.items():
        here = path + [name]
        v = want.get(name)
        key = name
        if ietf and (h["names"] == "all" or n.mod != parent_mod):
            key = "%s:%s" % (n.mod, name)
        if v is None:
            if here in h["empty"]:
                out[key] = [] if n.kind == "leaf-list" or n.kind == "list" and ietf else OrderedDict()
            continue
        if n.kind == "leaf":
            out[key] = value(c, n, v, ietf)
        elif n.kind == "leaf-list":
            out[key] = [value(c, n, w, ietf) for w in v]
        elif n.kind == "list":
            if ietf:
                out[key] = [document(c, e, path + [[name, list(k)]], h, n.mod, extra) for k, e in v.items()]
            else:
                out[key] = OrderedDict()
                for i, (k, e) in enumerate(v.items()):
                    out[key][" ".join(k)] = ed = document(c, e, path + [[name, list(k)]], h, n.mod, extra)
                    if n.ordered:
                        ed["__yang_order"] = i
        else:
            out[key] = document(c, v, here, h, n.mod, extra)
    if extra and extra[0] == path:
        out[("%s:" % x.n.mod if ietf and extra[3] else "") + extra[1]] = copy.deepcopy(extra[2])
        if h["seed"] % 2:
            out.move_to_end(list(out)[-1], last=False)
    return out


def value(c, n, cv, ietf):
    if cv[0] == "bits":
        from pbt import ytypes as yt
        return yt.bits_text(enc.member(n, cv, c.env), cv[1])
    if cv[0] == "id":
        return enc.id_text(n, cv, c.env) if ietf else cv[1]
    return enc.ietf_json(cv, enc.member(n, cv, c.env)) if ietf else enc.default_json(cv)


def merge(m, dst, src, h, top, st, there):
    """What loading the data of src at a path does to the model."""
    x = m.cont(dst)
    want = expected(src)
    for name, n in src.n.kids.items():
        here = dst + [name]
        v = want.get(name)
        empty = here in h["empty"]
        if v is None and not empty:
            continue
        if n.kind in ("list", "container") and top and h["overwrite"]:
            keep = n.kind == "container" and x.v[name].present
            if not Model.is_unset(x, name):
                st.cls("data discarded by overwriting")
            x.clear(name)
            if keep:
                x.v[name].present = True
        if n.kind == "leaf":
            if not n.iskey:
                m.touch(here)
                x.v[name] = v
        elif n.kind == "leaf-list":
            if x.v.get(name) and v != x.v.get(name):
                there.append(here)
            if v:
                m.touch(here)
            x.v[name] = list(v or [])
        elif n.kind == "list":
            for k, e in (v or {}).items():
                m.touch(here)
                if k not in x.v[name]:
                    new = x.v[name][k] = Cont(n, k)
                    for kn in n.keys:
                        new.v[kn] = e.v[kn]
                elif count(e)[0] > len(n.keys):
                    there.append(here)
                m.touch(dst + [[name, list(k)]])
                merge(m, dst + [[name, list(k)]], e, h, False, st, there)
        else:
            if n.presence:
                m.touch(here)
            if not Model.is_unset(x, name):
                there.append(here)
            merge(m, here, v if v is not None else Cont(n), h, False, st, there)


def run(case, st):
    from pyangbind.lib.serialise import pybindJSONDecoder
    c = hist.comp(case)
    h = case["h"]
    at = h["at"]
    m, live = build(c, h["ops"], st)
    m2 = Model(c)
    for op in h["ops2"]:
        m2.apply(op)
    m.node(at)
    try:
        src, _ = m2.cont(at), m.cont(at)
    except KeyError as e:
        raise HarnessError("no such instance: %s" % e)
    load = pybindJSONDecoder.load_ietf_json if h["mode"] == "ietf" else pybindJSONDecoder.load_json
    obj = live.obj(at)
    parent_mod = at[0] if len(at) > 1 else None
    if len(at) > 1:
        parent_mod = m.node(at).mod
    doc = document(c, src, at, h, parent_mod)
    bad = document(c, src, at, h, parent_mod, h["unknown"]) if h["unknown"] else None
    had = count(m.cont(at))[0]
    kw = {"overwrite": h["overwrite"]} if h["overwrite"] or h["seed"] % 3 else {}
    given = doc
    if bad is not None:
        given = bad
        kw["skip_unknown"] = True
    before = json.dumps(given)
    what = "loading %s onto %s%s" % (before, show(at), "".join(", %s=%s" % y for y in sorted(kw.items())))
    got = cut(what, load, given, None, None, obj=obj, **kw)
    check(got is obj, "%s returned another object", what)
    check(json.dumps(given) == before, "%s: the data given was changed to %s", what, json.dumps(given))
    there = []
    merge(m, at, src, h, True, st, there)
    for mod in c.names:
        enc.same_data(c, live.roots[mod], m.roots[mod], [mod], "after " + what, "default")
    st.cls("%s, %s" % (h["mode"], "overwritten" if h["overwrite"] else "merged"))
    st.cls("onto %s" % ("a module" if len(at) == 1 else "a container" if isinstance(at[-1], str) else "an entry"))
    if h["empty"]:
        st.cls("empty list, leaf-list or container in the document")
    if there:
        st.cls("merged with what was there")
    st.nontrivial(had >= 3 and count(src)[0] >= 3 and bool(there))
    # the same again changes nothing
    got = cut("again, " + what, load, given, None, None, obj=obj, **kw)
    for mod in c.names:
        enc.same_data(c, live.roots[mod], m.roots[mod], [mod], "after again " + what, "default")
    if bad is not None:
        st.cls("unknown names")
        kw.pop("skip_unknown")
        ok, r = outcome(load, bad, None, None, obj=obj, **kw)
        check(not ok, "loading %s, in which %s is unknown, was accepted", before, h["unknown"][1])
        check(isinstance(r, AttributeError), "loading %s, in which %s is unknown, raised %r", before, h["unknown"][1], r)
