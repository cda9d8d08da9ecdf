"""C11: presence containers keep whether they exist apart from their content."""
import json

from pbt import enc, hist, schema as sc
from pbt.engine import Part, check, cut, outcome
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Live, Model, OpGen, compare, show
from checks.c14 import count

RULE = ("a case applies a generated history to a schema with many presence containers and serialises and loads it at several "
        "points; it is non-trivial when at such a point a presence container was present without content and another one "
        "was absent")

ASSUMPTIONS = ["a presence container is only marked absent when it has no content",
               "values are such that every encoding keeps them"]

F = {"depth": 4, "maxnodes": 26, "p_cfalse": 0.05, "p_presence": 0.65, "p_reserved": 0.1, "p_ordered": 0.3, "p_sub": 0.15,
     "p_nested_choice": 0.3, "p_aug": 0.6, "mods": (1, 2), "gr": (0, 2), "td": (0, 2),
     "types": {"int": 6, "string": 4, "bool": 2, "enum": 2, "bits": 1, "empty": 1, "ref": 2}, "key_types": {"int": 3, "string": 4, "enum": 2},
     "w": {"leaf": 5, "container": 14, "list": 4, "leaf-list": 2, "choice": 3, "uses": 3}}

W = {"set": 3, "unset": 4, "add": 4, "del": 3, "pres": 30, "app": 2, "lset": 1, "rm": 2, "pop": 1, "ldel": 1, "unset_c": 4, "bit": 4}


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 22, outer=sc.gen_schema(F), n_outer=18 * k)]


def gen(d, S):
    c = hist.ctx(S)
    oks = [enc.usable(m, c.env) for m in ("default", "ietf", "xml")]
    g = OpGen(d, c, W, lambda n, w, cv: all(ok(n, w, cv) for ok in oks), keyodd=0.05)

    def one():
        if d.bool(0.15):
            return ["io"]
        return g.one()
    ops = [x for x in d.repeat(24, one) if x is not None]
    return {"ops": ops + [["io"]]}


def empties(x):
    """(present without content, absent) presence containers of an instance."""
    a = b = 0
    for name, n in x.n.kids.items():
        v = x.v.get(name)
        if n.kind == "container":
            if n.presence:
                a += v.present and v.empty()
                b += not v.present
            p, q = empties(v)
            a, b = a + p, b + q
        elif n.kind == "list":
            for e in v.values():
                p, q = empties(e)
                a, b = a + p, b + q
    return a, b


def others(live, n, path, when):
    """Containers without presence never report it."""
    for name, k in n.kids.items():
        o = getattr(live, k.py)
        if k.kind == "container":
            if not k.presence:
                check(o._present() is None, "%s: %s reports its presence as %r but is no presence container", when,
                      show(path + [name]), o._present())
            others(o, k, path + [name], when)
        elif k.kind == "list":
            for lk, e in o.items():
                others(e, k, path + [[name, [str(lk)]]], when)


def shown(x, doc, path, when):
    """An unfiltered document has every container that is present."""
    for name, n in x.n.kids.items():
        v = x.v.get(name)
        if n.kind not in ("container", "list"):
            continue
        if hasattr(doc, "getchildren"):
            got = [e for e in doc.getchildren() if isinstance(e.tag, str) and e.tag.split("}")[-1] == name]
        else:
            got = [w for k, w in doc.items() if k.split(":")[-1] == name]
            if n.kind == "list":
                got = [e for w in got for e in (w.values() if isinstance(w, dict) else w)]
        if n.kind == "container":
            if n.presence and v.present:
                check(len(got) == 1, "%s: %s is present but not in the document", when, show(path + [name]))
            if len(got) == 1:
                shown(v, got[0], path + [name], when)
        elif len(got) == len(v):
            for (k, e), w in zip(v.items(), got):
                shown(e, w, path + [[name, [str(k)]]], when)


def run(case, st):
    c = hist.comp(case)
    m, live = Model(c), Live(c)
    for mod in c.names:
        compare(c, live.roots[mod], m.roots[mod], [mod], "at first")
    for op in case["h"]["ops"]:
        if op[0] == "io":
            io(c, m, live, st)
            continue
        if op[0] == "pres" and op[2] is False:
            x = m.cont(op[1])
            if not x.empty():
                continue
            st.cls("marked absent")
        m.apply(op)
        cut("%s" % op, live.apply, op)
        st.op()
        mod = op[1][0]
        compare(c, live.roots[mod], m.roots[mod], [mod], "after %s" % op)
        if op[0] == "pres":
            o = live.obj(op[1])
            check(o._changed() is op[2], "after %s: the container %s", op, "does not report a change" if op[2] else "reports a change")
    for mod in c.names:
        others(live.roots[mod], c.tree[mod], [mod], "at the end")


def io(c, m, live, st):
    from lxml import etree
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder
    for mod in c.names:
        obj, x = live.roots[mod], m.roots[mod]
        a, b = empties(x)
        st.nontrivial(a and b)
        st.cls("present and empty" if a else "none present and empty")
        t = cut("dumping", pybindJSON.dumps, obj)
        enc.check_default(c, enc.parse(t, "the dump"), x, [mod], "default JSON")
        enc.same_data(c, cut("loading %s" % t, pybindJSON.loads, t, c.ns, mod), x, [mod], "after loading %s" % t, "default")
        t = cut("dumping", pybindJSON.dumps, obj, mode="ietf")
        enc.check_ietf(c, enc.parse(t, "the dump"), x, [mod], "IETF JSON")
        enc.same_data(c, cut("loading %s" % t, pybindJSON.loads_ietf, t, c.ns, mod), x, [mod], "after loading %s" % t, "ietf")
        for mode in ("default", "ietf"):
            t = cut("dumping", pybindJSON.dumps, obj, mode=mode, filter=False)
            shown(x, enc.parse(t, "the unfiltered dump"), [mod], "the unfiltered dump %s" % t)
        t = cut("encoding", pybindIETFXMLEncoder.serialise, obj, filter=False)
        shown(x, etree.fromstring(t), [mod], "the unfiltered encoding %s" % t)
        t = cut("encoding", pybindIETFXMLEncoder.serialise, obj)
        enc.check_xml(c, etree.fromstring(t), x, [mod], "XML")
        enc.same_data(c, cut("decoding %s" % t, pybindIETFXMLDecoder.decode, t, c.ns, mod), x, [mod], "after decoding %s" % t, "xml")
