"""C17: dump options select exactly the data they describe."""
import copy
import json
import os
import tempfile
from collections import OrderedDict

from pbt import enc, hist, schema as sc
from pbt.engine import HarnessError, Part, check, cut
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import OpGen, compare, default_canon, expected, show
from pbt import ytypes as yt
from checks.c14 import build

RULE = ("a case builds a tree by a generated history and dumps parts of it with generated options; it is non-trivial when an "
        "option left something out of a dump and something else stayed")

ASSUMPTIONS = ["selected leaves have values or defaults in every entry of the list, and no dot in their name",
               "values are such that every encoding keeps them"]

F = {"depth": 3, "maxnodes": 26, "p_cfalse": 0.12, "p_reserved": 0.1, "p_ordered": 0.4, "td": (0, 3), "p_multikey": 0.3,
     "mods": (1, 2), "p_default": 0.45, "p_default_td": 0.5, "p_presence": 0.25, "gr": (0, 2),
     "types": {"int": 7, "string": 5, "dec": 2, "bool": 3, "empty": 1, "enum": 3, "idref": 2, "bits": 1, "bin": 1, "union": 1,
               "ref": 5},
     "key_types": {"int": 4, "string": 5, "enum": 2, "ref": 2},
     "w": {"leaf": 9, "container": 5, "list": 5, "leaf-list": 3, "choice": 1, "uses": 2}}

W = {"set": 10, "unset": 2, "add": 9, "del": 1, "pres": 3, "app": 3, "lset": 2, "rm": 1, "pop": 0, "ldel": 1, "unset_c": 1, "bit": 3}


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 22, outer=sc.gen_schema(F), n_outer=24 * k)]


def gen(d, S):
    c = hist.ctx(S)
    oks = [enc.usable(m, c.env) for m in ("default", "ietf", "xml")]

    def ok(n, w, cv):
        return all(f(n, w, cv) for f in oks)
    g = OpGen(d, c, W, ok, keyodd=0.3)

    def one():
        # values that equal the default, too
        op = g.one()
        return op
    ops = [x for x in d.repeat(20, one) if x is not None]
    more = []
    for _ in range(d.int(0, 4)):
        path, x = g.place()
        ls = [n for n in x.n.kids.values() if n.kind == "leaf" and n.default is not None and not n.iskey]
        if ls:
            n = d.pick(ls)
            op = ["set", path + [n.name], default_wire(c, n), "meth"]
            if op[2] is not None and ok(n, op[2], yt.judge(n.rt, yt.to_py(op[2]), c.env)[1]):
                g.m.apply(op)
                more.append(op)
    return {"ops": ops + more, "dumps": d.repeat(5, lambda: spec(d, c, g))}


def default_wire(c, n):
    r = yt.judge(n.rt, n.default, c.env)
    return n.default if r[0] == "ok" else None


def spec(d, c, g):
    """What to dump and how."""
    path, x = g.place()
    if d.bool(0.3):
        path, x = [path[0]], g.m.roots[path[0]]
    odd = [y for y in marked(g.m) if y[1].n.kids]
    if odd and d.bool(0.4):
        path, x = d.pick(odd)
    lists = [n.name for n in x.n.kids.values() if n.kind == "list" and x.v[n.name]]
    s = {"path": path, "mode": d.pick(["default", "ietf"]), "filter": d.bool(0.7), "file": d.bool(0.25),
         "indent": d.pick([4, None, 2]), "ifset": d.bool(0.25), "skip": [], "select": None}
    if lists and d.bool(0.6):
        name = d.pick(lists)
        s["list"] = name
        n = x.n.kids[name]
        cands = list(leaves_of(n, []))
        sel = []
        for _ in range(d.int(0, 2)):
            if not cands:
                break
            p = d.pick(cands)
            e = d.pick(list(x.v[name].values()))
            v = value_at(c, e, p)
            if v is not None and p not in [q for q, _ in sel]:
                sel.append([p, v])
        s["select"] = sel
    else:
        s["list"] = None
        for _ in range(d.int(1, 4) if len(path) > 1 else d.int(0, 3)):
            s["skip"].append(skip_path(d, c, x.n, path))
    return s


def marked(m):
    """The entries that have a bracket or a slash in a key, and the containers and entries in them."""
    def walk(path, x, inside):
        if inside:
            out.append((path, x))
        for name, n in x.n.kids.items():
            if n.kind == "container":
                walk(path + [name], x.v[name], inside)
            elif n.kind == "list":
                for k, e in x.v[name].items():
                    walk(path + [[name, list(k)]], e, inside or any(ch in t for t in k for ch in "[/"))
    out = []
    for mod, x in m.roots.items():
        walk([mod], x, False)
    return out


def leaves_of(n, here):
    for k in n.kids.values():
        if "." in k.name:
            continue
        if k.kind == "leaf":
            yield here + [k.name]
        elif k.kind == "container":
            for y in leaves_of(k, here + [k.name]):
                yield y


def value_at(c, e, p):
    """The text str() has for the value of a leaf below an entry, or None."""
    for s in p[:-1]:
        e = e.v[s]
    n = e.n.kids[p[-1]]
    v = e.v.get(p[-1])
    if v is None or v[0] not in ("int", "str", "enum", "bool", "id"):
        return None
    return str(v[1])


def skip_path(d, c, n, path):
    """The names of a path to a node at or below n, or to one somewhere else."""
    out = [s if isinstance(s, str) else s[0] for s in path[1:]]
    if d.bool(0.1):
        # some other place
        r = c.tree[path[0]]
        out = []
        n = r
    k = 0
    while n.kids:
        n = n.kids[d.pick(list(n.kids))]
        out.append(n.name)
        k += 1
        if n.kind not in ("container", "list") or d.bool(0.4):
            break
    return out


def prune(doc, n, rel, ietf):
    """The document without what is at a path of names relative to the instance."""
    for k in list(doc):
        if k.split(":")[-1] != rel[0] if ietf else k != rel[0]:
            continue
        if len(rel) == 1:
            del doc[k]
        else:
            kid = n.kids[rel[0]]
            if kid.kind == "container":
                prune(doc[k], kid, rel[1:], ietf)
            elif kid.kind == "list":
                for e in (doc[k] if ietf else doc[k].values()):
                    prune(e, kid, rel[1:], ietf)
    return doc


def same_doc(a, b, n, ietf):
    """Equal, where a container that lost all it held may have gone as well."""
    ak = {k for k in a}
    bk = {k for k in b}
    for k in ak ^ bk:
        kid = n.kids.get(k.split(":")[-1] if ietf else k)
        v = a.get(k, b.get(k))
        if kid is None or kid.kind != "container" or not hollow(v):
            return False
    for k in ak & bk:
        kid = n.kids.get(k.split(":")[-1] if ietf else k)
        if kid is not None and kid.kind == "container":
            if not same_doc(a[k], b[k], kid, ietf):
                return False
        elif kid is not None and kid.kind == "list":
            if ietf:
                if len(a[k]) != len(b[k]) or not all(same_doc(x, y, kid, ietf) for x, y in zip(a[k], b[k])):
                    return False
            elif list(a[k]) != list(b[k]) or not all(same_doc(a[k][e], b[k][e], kid, ietf) for e in a[k]):
                return False
        elif a[k] != b[k]:
            return False
    return True


def hollow(v):
    return isinstance(v, dict) and all(hollow(x) for x in v.values())


def run(case, st):
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import WithDefaults
    c = hist.comp(case)
    h = case["h"]
    m, live = build(c, h["ops"], st)
    snap = {mod: snapshot(c, live.roots[mod]) for mod in c.names}
    for s in h["dumps"]:
        m.node(s["path"])
        try:
            x = m.cont(s["path"])
        except KeyError as e:
            raise HarnessError("no such instance: %s" % e)
        obj = live.obj(s["path"])
        path, mode = s["path"], s["mode"]
        kw = {"indent": s["indent"], "filter": s["filter"], "mode": mode}
        if s["ifset"] and (mode == "ietf" or s["filter"]):
            kw["with_defaults"] = WithDefaults.IF_SET
        full = not s["filter"] and "with_defaults" not in kw
        st.cls("mode %s, %s" % (mode, "unfiltered" if full else "if set" if "with_defaults" in kw else "filtered"))
        when = "dumps(%s, %s)" % (show(path), ", ".join("%s=%r" % y for y in sorted(kw.items())))
        if s["list"] is not None:
            one_list(c, m, live, s, x, obj, kw, full, when, st)
        else:
            text = cut(when, pybindJSON.dumps, obj, **kw)
            doc = enc.parse(text, when)
            if mode == "ietf":
                enc.check_ietf(c, doc, x, path, when, full=full)
            else:
                enc.check_default(c, doc, x, path, when, full=full)
            if s["skip"]:
                skips(c, s, x, obj, kw, doc, when, st)
            if s["file"]:
                to_file(s, obj, kw, when, st)
        for mod in c.names:
            check(snapshot(c, live.roots[mod]) == snap[mod], "%s changed the data", when)
    for mod in c.names:
        compare(c, live.roots[mod], m.roots[mod], [mod], "after dumping")
        xml(c, live.roots[mod], m.roots[mod], mod, st)


def skips(c, s, x, obj, kw, doc, when, st):
    from pyangbind.lib import pybindJSON
    here = [p if isinstance(p, str) else p[0] for p in s["path"][1:]]
    paths = ["/" + "/".join(p) for p in s["skip"]]
    given = list(paths)
    text = cut("%s, skip_subtrees=%r" % (when, paths), pybindJSON.dumps, obj, skip_subtrees=paths, **kw)
    check(paths == given, "skip_subtrees was changed from %r to %r", given, paths)
    got = enc.parse(text, when)
    want = copy.deepcopy(doc)
    for p in s["skip"]:
        if p[:len(here)] == here and len(p) > len(here):
            prune(want, x.n, p[len(here):], s["mode"] == "ietf")
    check(same_doc(got, want, x.n, s["mode"] == "ietf"), "%s, skip_subtrees=%r: the document is %s instead of %s", when, paths,
          text, json.dumps(want, default=str))
    if want != doc:
        st.cls("subtrees skipped")
        st.nontrivial(not hollow(want))


def one_list(c, m, live, s, x, obj, kw, full, when, st):
    from pyangbind.lib import pybindJSON
    n = x.n.kids.get(s["list"])
    if n is None or n.kind != "list":
        raise HarnessError("no list %s" % s["list"])
    lst = getattr(obj, n.py)
    sel = {".".join(p): v for p, v in s["select"]}
    mine = OrderedDict()
    for k, e in x.v[n.name].items():
        keep = True
        for p, v in s["select"]:
            have = there(c, e, p, full)
            if have is None:
                return     # that leaf is not in the document of every entry
            keep = keep and have == v
        if keep:
            mine[k] = e
    when = "%s of the list %s, select=%r" % (when, n.name, sel)
    given = dict(sel)
    text = cut(when, pybindJSON.dumps, lst, select=sel, **kw)
    check(sel == given, "%s: the selection was changed to %r", when, sel)
    doc = enc.parse(text, when)
    if s["mode"] == "ietf":
        check(isinstance(doc, list) and len(doc) == len(mine), "%s: the document has %r instead of the entries %r", when, doc,
              list(mine))
        for (k, e), g in zip(mine.items(), doc):
            enc.check_ietf(c, g, e, s["path"] + [[n.name, list(k)]], when, full=full)
    else:
        check(isinstance(doc, dict) and list(doc) == [" ".join(k) for k in mine], "%s: the document has %r instead of %r", when,
              doc and list(doc), list(mine))
        for i, (k, e) in enumerate(x.v[n.name].items()):
            if k in mine:
                g = doc[" ".join(k)]
                g.pop("__yang_order", None)
                enc.check_default(c, g, e, s["path"] + [[n.name, list(k)]], when, full=full)
    st.cls("entries selected")
    if s["select"] and len(mine) < len(x.v[n.name]):
        st.nontrivial(bool(mine))
        st.cls("some entries left out")


def there(c, e, p, full):
    """The text of a leaf in an unencoded document, None where it is not known."""
    for s in p[:-1]:
        if s not in e.v:
            raise HarnessError("no such node %s" % p)
        e = e.v[s]
    n = e.n.kids.get(p[-1])
    if n is None:
        raise HarnessError("no such node %s" % p)
    v = e.v.get(p[-1])
    if v is None and full and n.default is not None:
        v = default_canon(c, n)
    if v is None or v[0] not in ("int", "str", "enum", "bool", "id"):
        return None
    if v[0] == "id" and e.v.get(p[-1]) is None:
        return None
    return str(v[1])


def to_file(s, obj, kw, when, st):
    from pyangbind.lib import pybindJSON
    if "with_defaults" in kw:
        return
    paths = ["/" + "/".join(p) for p in s["skip"]]
    text = cut(when, pybindJSON.dumps, obj, skip_subtrees=list(paths), **kw)
    fd, fn = tempfile.mkstemp(dir=os.environ.get("PBT_BASE"))
    os.close(fd)
    try:
        cut("%s to a file" % when, pybindJSON.dump, obj, fn, skip_subtrees=list(paths), **kw)
        with open(fn, encoding="utf-8") as f:
            got = f.read()
    finally:
        os.unlink(fn)
    check(got == text, "%s: the file has %r instead of %r", when, got, text)
    st.cls("dumped to a file")


def snapshot(c, obj):
    """Everything the data of a module shows, in a form that can be compared."""
    out = []

    def rec(o, n):
        for k in n.kids.values():
            v = getattr(o, k.py)
            if k.kind in ("leaf", "leaf-list"):
                out.append((k.name, repr(v), bool(v._changed()), id(v)))
            elif k.kind == "list":
                out.append((k.name, [str(y) for y in v.keys()], id(v)))
                for e in v.values():
                    rec(e, k)
            else:
                out.append((k.name, v._present(), bool(v._changed()), id(v)))
                rec(v, k)
    rec(obj, c.tree[n_of(c, obj)])
    return out


def n_of(c, obj):
    for mod in c.names:
        if type(obj).__name__ == c.cls(mod).__name__:
            return mod
    raise HarnessError("which module is %r" % obj)


def xml(c, obj, x, mod, st):
    """The unfiltered XML document has the leaves of the schema with their values."""
    from lxml import etree
    from pyangbind.lib.serialise import pybindIETFXMLEncoder
    text = cut("encoding %s unfiltered" % mod, pybindIETFXMLEncoder.serialise, obj, filter=False)
    rec_xml(c, etree.fromstring(text), x, [mod], "the unfiltered XML")


def rec_xml(c, el, x, path, when):
    from lxml import etree
    by = OrderedDict()
    for ch in el:
        q = etree.QName(ch)
        by.setdefault(q.localname, []).append(ch)
        check(q.localname in x.n.kids, "%s: %s has the element %s", when, show(path), q.localname)
        check(q.namespace == x.n.kids[q.localname].ns, "%s: %s of %s is in the namespace %s", when, q.localname, show(path),
              q.namespace)
    for name, n in x.n.kids.items():
        v, here = x.v.get(name), path + [name]
        els = by.get(name, [])
        if n.kind == "leaf":
            if v is None and n.default is None:
                continue
            check(len(els) == 1, "%s: %s has %d elements", when, show(here), len(els))
            if v is None:
                v = default_canon(c, n)
                if v[0] == "id":
                    continue
            enc.check_text(c, n, v, els[0], show(here), when)
        elif n.kind == "leaf-list":
            check(len(els) == len(v or []), "%s: %s has %d elements", when, show(here), len(els))
            for w, e in zip(v or [], els):
                enc.check_text(c, n, w, e, show(here), when)
        elif n.kind == "list":
            check(len(els) == len(v), "%s: %s has %d elements", when, show(here), len(els))
            for (k, e), g in zip(v.items(), els):
                rec_xml(c, g, e, path + [[name, list(k)]], when)
        elif els:
            check(len(els) == 1, "%s: %s has %d elements", when, show(here), len(els))
            rec_xml(c, els[0], v, here, when)
        else:
            check(not n.presence or not v.present, "%s: %s is missing", when, show(here))
            check(not expected(v), "%s: %s is missing", when, show(here))
