"""C15: the IETF JSON encoding follows RFC 7951 and round-trips."""
import copy
import json
import os
import random
import tempfile

from pbt import enc, hist, schema as sc
from pbt.engine import Part, check, cut
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import OpGen, compare, show
from checks.c14 import build, count

RULE = ("a case builds a tree by a generated history, dumps it in IETF mode and loads the text, with names prefixed or not, "
        "into new bindings; it is non-trivial when the document has five or more values and a list entry or a leaf-list")

ASSUMPTIONS = ["values of unions are such that what is written is the same value again, and are no decimals",
               "entries of lists whose keys are identities or decimals are compared by their data, not by the text of the key"]

F = {"depth": 3, "maxnodes": 24, "p_cfalse": 0.1, "p_reserved": 0.2, "p_ordered": 0.5, "td": (0, 3), "p_multikey": 0.4,
     "mods": (1, 3), "p_aug": 0.8, "ids": (2, 7), "p_import": 0.95, "p_sub": 0.15, "gr": (0, 3),
     "types": {"int": 6, "string": 4, "dec": 3, "bool": 2, "empty": 3, "enum": 2, "idref": 5, "bits": 1, "bin": 1,
               "union": 2, "ref": 6},
     "key_types": {"int": 4, "string": 5, "enum": 2, "bool": 1, "idref": 1, "union": 1, "ref": 3, "dec": 1},
     "w": {"leaf": 9, "container": 4, "list": 5, "leaf-list": 4, "choice": 2, "uses": 3}}

W = {"set": 10, "unset": 1, "add": 8, "del": 1, "pres": 3, "app": 4, "lset": 3, "rm": 1, "pop": 0, "ldel": 0, "unset_c": 0, "bit": 3}
MODE = "ietf"


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 22, outer=sc.gen_schema(F), n_outer=24 * k)]


def gen(d, S):
    c = hist.ctx(S)
    g = OpGen(d, c, W, enc.usable(MODE, c.env))
    ops = [x for x in d.repeat(22, g.one) if x is not None]
    return {"ops": ops, "how": d.pick(["loads", "load", "obj", "parsed"]), "shuffle": d.int(0, 9999),
            "indent": d.pick([None, 4, 1]), "names": d.pick(["as", "all", "some"])}


def respell(doc, n, r, names, parent_mod=None):
    """The same document with other names prefixed and members in another order."""
    out = []
    for k, v in doc.items():
        kid = n.kids[k.split(":")[-1]]
        if names == "all" or names == "some" and r.random() < 0.5:
            k = "%s:%s" % (kid.mod, kid.name)
        if kid.kind == "container":
            v = respell(v, kid, r, names)
        elif kid.kind == "list":
            v = [respell(e, kid, r, names) for e in v]
        out.append((k, v))
    r.shuffle(out)
    return dict(out)


def run(case, st):
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import pybindJSONDecoder
    c = hist.comp(case)
    h = case["h"]
    m, live = build(c, h["ops"], st)
    r = random.Random(h["shuffle"])
    for mod in c.names:
        obj, x = live.roots[mod], m.roots[mod]
        text = cut("dumping %s" % mod, pybindJSON.dumps, obj, indent=h["indent"], mode="ietf")
        doc = enc.parse(text, "the dump of %s" % mod)
        enc.check_ietf(c, doc, x, [mod], "the dump")
        compare(c, obj, x, [mod], "after dumping")
        plain = respell(json.loads(text), c.tree[mod], r, h["names"])
        text = json.dumps(plain)
        before = copy.deepcopy(plain)
        if h["how"] == "loads":
            new = cut("loading %s" % text, pybindJSON.loads_ietf, text, c.ns, mod)
        elif h["how"] == "parsed":
            new = cut("loading %s" % text, pybindJSON.loads_ietf, plain, c.ns, mod)
        elif h["how"] == "load":
            fd, fn = tempfile.mkstemp(dir=os.environ.get("PBT_BASE"))
            with os.fdopen(fd, "w") as f:
                f.write(text)
            try:
                new = cut("loading %s" % text, pybindJSON.load_ietf, fn, c.ns, mod)
            finally:
                os.unlink(fn)
        else:
            new = c.new(mod)
            cut("loading %s" % text, pybindJSONDecoder.load_ietf_json, plain, None, None, obj=new)
        check(plain == before and json.dumps(plain) == json.dumps(before), "loading changed the data it was given")
        enc.same_data(c, new, x, [mod], "after loading %s" % text, "ietf")
        again = enc.parse(cut("dumping %s" % mod, pybindJSON.dumps, new, mode="ietf"), "the second dump of %s" % mod)
        enc.check_ietf(c, again, x, [mod], "the second dump")
        vals, ents = count(x)
        st.cls("how " + h["how"])
        st.cls("names " + h["names"])
        st.cls("members of another module", sum(":" in k for k in doc) - len(doc) + 1 if doc else 0)
        st.nontrivial(vals >= 5 and ents >= 1)
        sub(c, m, live, mod, st)


def sub(c, m, live, mod, st):
    """The parts of the tree on their own (their members have their module spelled out)."""
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import pybindJSONDecoder

    def visit(o, x, here, n, blank):
        text = cut("dumping %s" % show(here), pybindJSON.dumps, o, mode="ietf")
        enc.check_ietf(c, enc.parse(text, "the dump of %s" % show(here)), x, here, "the dump of a %s" % n.kind)
        if blank is not None:
            new = blank()
            cut("loading %s" % text, pybindJSONDecoder.load_ietf_json, json.loads(text), None, None, obj=new)
            if not n.presence:
                enc.same_data(c, new, x, here, "after loading %s" % text, "ietf")
    enc.parts_alone(c, live, m, mod, st, visit)
