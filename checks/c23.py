"""C23: annotations of IETF JSON documents are kept with the nodes they annotate."""
import copy
import json
import random

from pbt import enc, hist, schema as sc
from pbt.engine import Part, check, cut
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import OpGen, show
from checks import c15
from checks.c14 import build

RULE = ("a case builds a tree by a generated history, adds generated annotations to its IETF JSON document and loads that into "
        "new bindings, and another such document onto the same; it is non-trivial when the first has three or more annotations, "
        "of nodes of two kinds")

ASSUMPTIONS = ["annotations stand next to or in the node they annotate, which is in the document",
               "the elements of leaf-lists have nowhere to keep annotations: documents that annotate them are loaded all the same",
               "whether a leaf that is written again keeps annotations that its new value does not have is left open"]

F = dict(c15.F, maxnodes=20)
W = c15.W
NAMES = ["inactive", "m:note", "p-0:last.changed", "_x", "items", "operation", "default", "a b", "name"]
VALUES = [True, False, None, 0, -3, 1.5, "", "text", "@x", [1, "a"], [], {"k": {"l": 1}}, {}]
HOWS = ["in", "beside"]


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 22, outer=sc.gen_schema(F), n_outer=24 * k)]


def notes(d):
    return [[d.idx(1 << 16), d.pick(HOWS), {d.pick(NAMES): d.pick(VALUES) for _ in range(d.int(1, 2))}, d.int(0, 1)]
            for _ in range(d.int(1, 9))]


def gen(d, S):
    c = hist.ctx(S)
    g = OpGen(d, c, W, enc.usable("ietf", c.env))
    ops = [x for x in d.repeat(20, g.one) if x is not None]
    return {"ops": ops, "how": d.pick(["loads", "obj", "parsed"]), "shuffle": d.int(0, 9999),
            "names": d.pick(["as", "all", "some"]), "notes": notes(d), "more": notes(d) if d.bool(0.5) else []}


# ---------------------------------------------------------------- documents
def places(doc, n, path, out):
    """What can be annotated: (path, kind, object it is in, member, object it is)."""
    for k, v in doc.items():
        kid = n.kids[k.split(":")[-1]]
        here = path + [kid.name]
        if kid.kind == "container":
            out.append((here, "container", doc, k, v))
            places(v, kid, here, out)
        elif kid.kind == "list":
            for i, e in enumerate(v):
                out.append((here + [i], "entry", None, None, e))
                places(e, kid, here + [i], out)
        elif kid.kind == "leaf":
            out.append((here, "key" if kid.name in (n.keys or []) else "leaf", doc, k, None))
        else:
            out.append((here, "leaf-list", doc, k, None))
    return out


def annotate(doc, n, ns, st):
    """Adds annotations to a document; returns {path: {name: value}} of them, and their kinds."""
    all_, want, kinds = places(doc, n, [], []), {}, {}
    pending = []
    for at, how, what, first in ns:
        if not all_:
            break
        path, kind, into, k, own = all_[at % len(all_)]
        if tuple(path) in kinds:
            continue
        kinds[tuple(path)] = kind
        if kind == "leaf-list":
            pending.append((into, "@" + k, ([None] if first else []) + [what], 0))
            st.cls("annotated element")
            continue
        want[tuple(path)] = dict(what)
        if kind == "entry" or (kind == "container" and how == "in"):
            pending.append((own, "@", dict(what), first))
        else:
            pending.append((into, "@" + k, dict(what), first))
        st.cls("annotated " + kind)
    for into, k, what, first in pending:
        if first:
            old = dict(into)
            into.clear()
            into[k] = what
            into.update(old)
        else:
            into[k] = what
    return want, kinds


def found(o, n, path, out):
    for k in n.kids.values():
        v, here = getattr(o, k.py), path + [k.name]
        if v._metadata:
            out[tuple(here)] = dict(v._metadata)
        if k.kind == "container":
            found(v, k, here, out)
        elif k.kind == "list":
            for i, e in enumerate(v.values()):
                if e._metadata:
                    out[tuple(here + [i])] = dict(e._metadata)
                found(e, k, here + [i], out)
    return out


def alike(a, b):
    """Equal, and of the same types (True is not 1)."""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def run(case, st):
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import pybindJSONDecoder
    c = hist.comp(case)
    h = case["h"]
    m, live = build(c, h["ops"], st)
    r = random.Random(h["shuffle"])
    for mod in c.names:
        x, n = m.roots[mod], c.tree[mod]
        bare = json.loads(cut("dumping %s" % mod, pybindJSON.dumps, live.roots[mod], mode="ietf"))
        plain = c15.respell(copy.deepcopy(bare), n, r, h["names"])
        want, kinds = annotate(plain, n, h["notes"], st)
        text = json.dumps(plain)
        when = "after loading %s" % text
        if h["how"] == "loads":
            new = cut("loading %s" % text, pybindJSON.loads_ietf, text, c.ns, mod)
        elif h["how"] == "parsed":
            new = cut("loading %s" % text, pybindJSON.loads_ietf, plain, c.ns, mod)
        else:
            new = c.new(mod)
            cut("loading %s" % text, pybindJSONDecoder.load_ietf_json, plain, None, None, obj=new)
        check(json.dumps(plain) == text, "loading changed the document %s", text)
        enc.same_data(c, new, x, [mod], when, "ietf")
        same(found(new, n, [], {}), want, when)
        again = enc.parse(cut("dumping", pybindJSON.dumps, new, mode="ietf"), "the dump of what was loaded")
        check(alike(again, bare), "%s: the dump is %s instead of %s", when, again, bare)
        check(not found(live.roots[mod], n, [], {}), "%s: the tree that was dumped has annotations", when)
        st.nontrivial(len(want) >= 3 and len(set(kinds.values())) >= 2)
        if not h["more"]:
            continue
        plain2 = c15.respell(copy.deepcopy(bare), n, r, h["names"])
        want2, kinds2 = annotate(plain2, n, h["more"], st)
        text2 = json.dumps(plain2)
        when = "after loading %s and then %s" % (text, text2)
        cut("loading %s onto the same" % text2, pybindJSONDecoder.load_ietf_json, json.loads(text2), None, None, obj=new)
        got = found(new, n, [], {})
        for p, a in want2.items():
            old = want.pop(p, {})
            mine = got.pop(p, {})
            if kinds2[p] == "leaf":
                check(alike({k: v for k, v in mine.items() if k in a}, a), "%s: %s has the annotations %s instead of %s", when,
                      show(list(map(str, p))), mine, a)
                check(all(k in a or k in old and alike(v, old[k]) for k, v in mine.items()),
                      "%s: %s has the annotations %s", when, show(list(map(str, p))), mine)
            else:
                check(alike(mine, dict(old, **a)), "%s: %s has the annotations %s instead of %s", when,
                      show(list(map(str, p))), mine, dict(old, **a))
        left = {p: a for p, a in want.items() if kinds[p] != "leaf"}
        same({p: a for p, a in got.items() if p not in want or kinds[p] != "leaf"}, left, when)
        st.cls("second document")


def same(got, want, when):
    for p, a in want.items():
        check(alike(got.get(p, {}), a), "%s: %s has the annotations %s instead of %s", when, show(list(map(str, p))),
              got.get(p, {}), a)
    for p, a in got.items():
        check(p in want, "%s: %s has the annotations %s of another node", when, show(list(map(str, p))), a)
