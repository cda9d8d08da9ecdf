"""C02: equivalent modules and output layouts give equivalent bindings."""
import json
import os
import shutil
import subprocess
import sys

from pbt import boot, build, rewrite as rwr, schema as sc, ytypes as yt
from pbt.engine import HarnessError, Part, Violation, check, cut, outcome
from pbt.hist import ctx
from pbt.live import reduce_schema
from pbt.model import Live, OpGen, gen_key  # noqa: F401

RULE = ("a case compares the bindings of a module set with those of a rewriting of it, after the same operations on both, "
        "one of which at least was accepted and one refused; or two runs of the generator")

ASSUMPTIONS = ["equivalence is up to the order of nodes, the names of types, and the prefixes in XML"]

F = {"depth": 3, "maxnodes": 26, "p_nested_choice": 0.15, "p_sub": 0.35, "p_aug": 0.5, "gr": (0, 3), "td": (0, 5),
     "p_refine": 0.4, "p_cfalse": 0.1, "p_default": 0.4, "p_reserved": 0.25, "mods": (1, 3), "p_desc": 0.1,
     "w": {"leaf": 8, "container": 4, "list": 3, "leaf-list": 3, "choice": 3, "uses": 4}}


def outer(d):
    S = sc.gen_schema(F)(d)
    kinds = list(rwr.KINDS)
    rw = [[k, d.int(0, 10 ** 6)] for k in d.sample(kinds, d.int(1, 3))]
    if rwr.identity_defaults(S):
        rw = [x for x in rw if x[0] not in ("prefix", "inline")] or [["order", 1]]
    S["rw"] = rw
    return S


def gen(d, S):
    g = OpGen(d, ctx(S), val=rwr.plain_prefix(S))
    ok = rwr.plain_prefix(S)
    ops = []

    def one():
        if d.bool(0.3):
            path, x = g.place()
            ks = [n for n in x.n.kids.values() if n.kind in ("leaf", "leaf-list") and not n.iskey]
            if not ks:
                return
            n = d.pick(ks)
            w = yt.gen_probe(d, n.rt, g.c.env)
            if not ok(n, w) or (n.kind == "leaf-list" and n.rt["b"] == "union"):
                return
            v = yt.judge(n.rt, yt.to_py(w), g.c.env)
            if v is yt.BAD:
                ops.append(["set", path + [n.name], w, "meth"] if n.kind == "leaf" else ["app", path + [n.name], w])
            return
        op = g.one()
        if op is not None:
            ops.append(op)
    d.repeat(14, one)
    return {"ops": [x for x in ops if x]}


def gen_text(d):
    return {"schema": sc.gen_schema(dict(F, maxnodes=40, p_ext=0.3))(d), "split": d.bool(0.3),
            "flags": d.subset(["--presence", "--use-xpathhelper", "--use-extmethods", "--build-rpcs"], 0.4)}


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("rewriting", gen, 6, outer=outer, n_outer=40 * k), Part("repeated", gen_text, 4 if tier == "quick" else 30)]


def reduce(case):
    rw = case["schema"].get("rw")
    if rw and len(rw) > 1:
        for i in range(len(rw)):
            yield dict(case, schema=dict(case["schema"], rw=rw[:i] + rw[i + 1:]))
    for T in reduce_schema(case["schema"]):
        yield dict(case, schema=T)


# ---------------------------------------------------------------- repeated
def run_repeated(case, st):
    """Two processes with different hash seeds write the same text."""
    d = os.path.join(build.scratch(), "rep")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    try:
        files = sc.emit(case["schema"])
        names = sc.mod_names(case["schema"])
        for n, t in files.items():
            with open(os.path.join(d, n + ".yang"), "w", encoding="utf-8") as f:
                f.write(t)
        texts = []
        for seed in ("1", "2"):
            out = os.path.join(d, "out")
            shutil.rmtree(out, ignore_errors=True)
            os.mkdir(out)
            env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=boot.REPO, PYTHONDONTWRITEBYTECODE="1")
            args = [sys.executable, "-c", "import sys; sys.argv[0]='pyang'; from pyang.scripts.pyang_tool import run; run()",
                    "--plugindir", os.path.join(boot.REPO, "pyangbind", "plugin"), "-f", "pybind", "-p", d]
            args += (["--split-class-dir", os.path.join(out, "pkg")] if case["split"] else ["-o", os.path.join(out, "b.py")])
            p = subprocess.run(args + case["flags"] + [os.path.join(d, n + ".yang") for n in names], env=env, cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            if b"that pyang has found errors with" in p.stdout and b": error: " in p.stdout:
                raise build.BadYang(p.stdout[:800])
            check(p.returncode == 0, "the generator fails: %s", p.stdout[-800:])
            got = {}
            for base, _, fs in os.walk(out):
                for f in fs:
                    with open(os.path.join(base, f), encoding="utf-8") as h:
                        got[os.path.relpath(os.path.join(base, f), out)] = h.read()
            texts.append(got)
        a, b = texts
        check(sorted(a) == sorted(b), "two runs write different files: %s, %s", sorted(a), sorted(b))
        for k in a:
            if a[k] != b[k]:
                la, lb = a[k].splitlines(), b[k].splitlines()
                i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                raise Violation("two runs differ in %s, line %d: %r and %r" % (k, i + 1, la[i:i + 1], lb[i:i + 1]))
        check(sum(map(len, a.values())) > 500, "nothing was generated")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    st.cls("repeated" + (" split" if case["split"] else ""))
    st.nontrivial(True)


# ---------------------------------------------------------------- rewriting
class Pair(object):
    def __init__(self, S):
        from pbt.live import Compiled
        self.A = Compiled(S, ("--presence",))
        T, order, split = rwr.rewrite(S, S["rw"])
        rwr.sanity(S, T)
        self.B = Compiled(T, ("--presence",), split=split, order=order)
        self.steps = [x[0] for x in S["rw"]]


_pairs = {}


def pair(S):
    key = json.dumps(S, sort_keys=True)
    if key not in _pairs:
        _pairs.clear()
        _pairs[key] = Pair(S)
    return _pairs[key]


def same_nodes(a, b, what, types):
    """The same nodes with the same metadata, at every level."""
    ea, eb = dict(a._pyangbind_elements), dict(b._pyangbind_elements)
    check(sorted(ea) == sorted(eb), "%s has the nodes %s, and rewritten %s", what, sorted(ea), sorted(eb))
    for py in ea:
        x, y = getattr(a, py), getattr(b, py)
        w = "%s/%s" % (what, py)
        for f in ("_yang_name", "_namespace", "_defining_module", "_is_config", "_is_container", "_is_leaf", "_is_keyval",
                  "_choice", "_presence", "_cpresent", "_mchanged") + (("_yang_type",) if types else ()):
            p, q = getattr(x, f), getattr(y, f)
            check(p == q, "%s: %s is %r, and rewritten %r", w, f, p, q)
        check(x._path() == y._path(), "%s has the path %s, and rewritten %s", w, x._path(), y._path())
        fx, fy = getattr(type(a), py).fset, getattr(type(b), py).fset
        check((fx is None) == (fy is None), "%s: only one of the two can be set", w)
        if x._is_container == "list":
            for f in ("_keyval", "_yang_keys"):
                check(getattr(x, f) == getattr(y, f), "%s: %s is %r, and rewritten %r", w, f, getattr(x, f), getattr(y, f))
            check(bool(x._ordered) == bool(y._ordered), "%s: only one is ordered by user", w)
            ka, kb = list(x), list(y)
            check(ka == kb, "%s has the entries %s, and rewritten %s", w, ka, kb)
            for k in ka:
                same_nodes(x[k], y[k], "%s[%s]" % (w, k), types)
        elif x._is_container == "container":
            same_nodes(x, y, w, types)
        else:
            check(str(x._default) == str(y._default) and type(x._default).__name__ == type(y._default).__name__,
                  "%s has the default %r, and rewritten %r", w, x._default, y._default)
            check(x == y and str(x) == str(y), "%s is %r, and rewritten %r", w, x, y)


def norm_xml(e):
    return [e.tag, (e.text or "").strip() and e.text, sorted([norm_xml(c) for c in e], key=lambda t: t[0])]


def docs(root, helper):
    """What each encoding says, apart from the order of nodes."""
    import pyangbind.lib.pybindJSON as pj
    import pyangbind.lib.serialise as ser
    from lxml import etree
    for filt in (True, False):
        for mode in ("default", "ietf"):
            ok, t = outcome(pj.dumps, root, filter=filt, mode=mode)
            yield "%s JSON, filter=%s" % (mode, filt), json.loads(t) if ok else "raises %s" % type(t).__name__
    ok, t = outcome(ser.pybindIETFXMLEncoder.serialise, root)
    yield "XML", norm_xml(etree.fromstring(t)) if ok else "raises %s" % type(t).__name__


def run(case, st):
    if case["part"] == "repeated":
        return run_repeated(case, st)
    try:
        p = pair(case["schema"])
    except HarnessError:
        raise
    A, B = p.A, p.B
    for s in p.steps:
        st.cls("rewriting: " + s)
    types = "typedef" not in p.steps and "prefix" not in p.steps and "ownprefix" not in p.steps and "inline" not in p.steps
    la, lb = Live(A), Live(B)
    for m in A.names:
        same_nodes(la.roots[m], lb.roots[m], "/" + m, types)
    acc = ref = False
    for op in case["h"]["ops"]:
        oa, ra = outcome(la.apply, op)
        ob, rb = outcome(lb.apply, op)
        st.op()
        check(oa == ob, "%s: %s, and rewritten %s", op, "accepted" if oa else "refused with %r" % ra,
              "accepted" if ob else "refused with %r" % rb)
        if not oa:
            check(type(ra) is type(rb), "%s: refused with %s, and rewritten with %s", op, type(ra).__name__, type(rb).__name__)
            ref = True
        else:
            acc = True
    for m in A.names:
        same_nodes(la.roots[m], lb.roots[m], "/" + m, types)
        for (k, a), (_, b) in zip(docs(la.roots[m], None), docs(lb.roots[m], None)):
            check(a == b, "%s of %s is %s, and rewritten %s", k, m, a, b)
    st.nontrivial(acc and ref)
