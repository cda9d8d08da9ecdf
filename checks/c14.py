"""C14: the default JSON encoding round-trips."""
import copy
import json

from pbt import enc, hist, schema as sc
from pbt.engine import Part, check, cut
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Live, Model, OpGen, compare, show

RULE = ("a case builds a tree by a generated history, dumps it and loads the text into new bindings; it is non-trivial when "
        "the document has five or more values and a list entry or a leaf-list")

ASSUMPTIONS = ["decimals have at most 15 significant digits, as JSON numbers here are floats",
               "values of unions are such that what is written is the same value again"]

F = {"depth": 3, "maxnodes": 24, "p_cfalse": 0.1, "p_reserved": 0.2, "p_ordered": 0.5, "td": (0, 3), "p_multikey": 0.4,
     "key_types": {"int": 4, "string": 5, "enum": 2, "bool": 1, "idref": 1, "union": 1, "ref": 3, "dec": 1},
     "w": {"leaf": 9, "container": 4, "list": 5, "leaf-list": 4, "choice": 2, "uses": 2}}

W = {"set": 10, "unset": 1, "add": 8, "del": 1, "pres": 3, "app": 4, "lset": 3, "rm": 1, "pop": 0, "ldel": 0, "unset_c": 0, "bit": 3}
MODE = "default"


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 22, outer=sc.gen_schema(F), n_outer=24 * k)]


def gen(d, S):
    c = hist.ctx(S)
    g = OpGen(d, c, W, enc.usable(MODE, c.env))
    ops = [x for x in d.repeat(22, g.one) if x is not None]
    return {"ops": ops, "how": d.pick(["loads", "load", "obj", "parsed"]), "shuffle": d.int(0, 9999),
            "indent": d.pick([None, 4, 1]), "flt": d.bool(0.9)}


def build(c, ops, st):
    m, live = Model(c), Live(c)
    for op in ops:
        m.apply(op)
        cut("%s" % op, live.apply, op)
        st.op()
    return m, live


def count(x):
    """Values and entries of a model instance."""
    vals = ents = 0
    for name, n in x.n.kids.items():
        v = x.v.get(name)
        if n.kind == "leaf":
            vals += v is not None
        elif n.kind == "leaf-list":
            vals += len(v or [])
            ents += bool(v)
        elif n.kind == "list":
            for e in v.values():
                a, b = count(e)
                vals, ents = vals + a, ents + b + 1
        else:
            a, b = count(v)
            vals, ents = vals + a, ents + b
    return vals, ents


def shuffled(doc, n, seed):
    """The members of objects in another order, except the entries of lists whose order
    is left to the system."""
    import random
    r = random.Random(seed)

    def rec(d, n):
        items = list(d.items())
        out = []
        for k, v in items:
            kid = n.kids.get(k)
            if kid is not None and kid.kind == "container":
                v = rec(v, kid)
            elif kid is not None and kid.kind == "list":
                es = [(ek, rec(ev, kid)) for ek, ev in v.items()]
                if kid.ordered:
                    r.shuffle(es)
                v = dict(es)
            out.append((k, v))
        r.shuffle(out)
        return dict(out)
    return rec(doc, n)


def run(case, st):
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import pybindJSONDecoder
    c = hist.comp(case)
    h = case["h"]
    m, live = build(c, h["ops"], st)
    for mod in c.names:
        obj, x = live.roots[mod], m.roots[mod]
        text = cut("dumping %s" % mod, pybindJSON.dumps, obj, indent=h["indent"])
        doc = enc.parse(text, "the dump of %s" % mod)
        enc.check_default(c, doc, x, [mod], "the dump")
        compare(c, obj, x, [mod], "after dumping")
        plain = shuffled(json.loads(text), c.tree[mod], h["shuffle"])
        text = json.dumps(plain)
        before = copy.deepcopy(plain)
        if h["how"] == "loads":
            new = cut("loading %s" % text, pybindJSON.loads, text, c.ns, mod)
        elif h["how"] == "parsed":
            new = cut("loading %s" % text, pybindJSON.loads, plain, c.ns, mod)
        elif h["how"] == "load":
            import os
            import tempfile
            fd, fn = tempfile.mkstemp(dir=os.environ.get("PBT_BASE"))
            with os.fdopen(fd, "w") as f:
                f.write(text)
            try:
                new = cut("loading %s" % text, pybindJSON.load, fn, c.ns, mod)
            finally:
                os.unlink(fn)
        else:
            new = c.new(mod)
            cut("loading %s" % text, pybindJSONDecoder.load_json, plain, None, None, obj=new)
        check(plain == before and json.dumps(plain) == json.dumps(before), "loading changed the data it was given")
        enc.same_data(c, new, x, [mod], "after loading %s" % text, "default")
        again = enc.parse(cut("dumping %s" % mod, pybindJSON.dumps, new), "the second dump of %s" % mod)
        enc.check_default(c, again, x, [mod], "the second dump")
        vals, ents = count(x)
        st.cls("how " + h["how"])
        st.nontrivial(vals >= 5 and ents >= 1)
        sub(c, m, live, mod, st)


def sub(c, m, live, mod, st):
    """The parts of the tree on their own."""
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import pybindJSONDecoder

    def visit(o, x, here, n, blank):
        text = cut("dumping %s" % show(here), pybindJSON.dumps, o)
        enc.check_default(c, enc.parse(text, "the dump of %s" % show(here)), x, here, "the dump of a %s" % n.kind)
        if blank is not None:
            new = blank()
            cut("loading %s" % text, pybindJSONDecoder.load_json, json.loads(text), None, None, obj=new)
            if not n.presence:
                enc.same_data(c, new, x, here, "after loading %s" % text, "default")
    enc.parts_alone(c, live, m, mod, st, visit)
