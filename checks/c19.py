"""C19: the path helper finds exactly the nodes that exist."""
import json
import re

from pbt import hist, schema as sc
from pbt.engine import Part, check, cut, outcome, HarnessError, Violation
from pbt.live import reduce_case
from pbt.model import Live, Model, OpGen, compare, show
from checks import c12, c08

RULE = ("a case applies a history of operations (additions, replacements, deletions, refused ones) to bindings that are "
        "registered with a path helper, or to a path helper itself, and looks all existing and former nodes up after each; "
        "it is non-trivial when list entries were found by their keys and nodes that had been deleted were looked up")

ASSUMPTIONS = ["key values do not hold both kinds of quotes, and no control characters",
               "entries of lists without keys, and operations, are not registered",
               "lists are looked up without keys, and answer with their entries"]

F = {"depth": 3, "maxnodes": 18, "width": (1, 4), "p_cfalse": 0.08, "p_multikey": 0.4, "p_reserved": 0.2, "td": (0, 2),
     "types": {"int": 6, "string": 8, "bool": 2, "enum": 2, "union": 1},
     "key_types": {"int": 4, "string": 9, "enum": 2, "bool": 1, "dec": 1, "idref": 1, "union": 1, "ref": 2, "bits": 0},
     "w": {"leaf": 6, "container": 3, "list": 8, "leaf-list": 2, "choice": 2, "uses": 2}}

W = {"set": 5, "unset": 2, "add": 12, "del": 5, "pres": 1, "app": 2, "ins": 0, "lset": 1, "rm": 1, "pop": 0, "ldel": 0,
     "unset_c": 2}


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 18, outer=sc.gen_schema(F), n_outer=24 * k),
            Part("registry", gen_reg, 60, outer=lambda d: {"reg": d.int(1, 1 << 20)}, n_outer=16 * k)]


def reduce(case):
    if "reg" in case["schema"]:
        return []
    return reduce_case(case)


# ---------------------------------------------------------------- histories on bindings
def gen(d, S):
    g = OpGen(d, hist.ctx(S), W, keyodd=0.4, keyhow=("add", "add", "kw", "obj", "item"), helper=True)

    def one():
        if d.bool(0.12):
            return take(g)
        if d.bool(0.12):
            r = c08.refused(g)
            return None if r is None else ["!8"] + r
        op = c12.one(g)
        if op is not None and op[0] == "!" and op[2] == "get" and any("'" in k and '"' in k for k in op[3]):
            return None
        return op
    return {"ops": [x for x in d.repeat(14, one) if x is not None],
            "style": [d.int(0, 1 << 16) for _ in range(6)], "shared": d.bool(0.5),
            "reload": d.pick([None, "default", "ietf", "xml"]), "again": d.bool()}


def take(g):
    """A container, list or entry is replaced by its equal from another tree."""
    d = g.d
    for _ in range(4):
        path, x = g.place()
        ns = [n for n in x.n.kids.values() if (n.kind == "container" or (n.kind == "list" and n.keys)) and n.config]
        if ns:
            n = d.pick(ns)
            if g.m.is_unset(x, n.name) or (n.kind == "container" and hollow(x.v[n.name])):
                continue
            return ["take", path + [n.name]]
    return None


def hollow(x):
    """Is anything below x present without holding data?  (Copying is about data.)"""
    if x.present and x.empty():
        return True
    for name, n in x.n.kids.items():
        if n.kind == "container" and hollow(x.v[name]):
            return True
        if n.kind == "list" and any(hollow(e) for e in x.v[name].values()):
            return True
    return False


def nodes(c, o, n, path, out):
    """(path, kind, object) of everything below o that exists, by attribute access."""
    for name, k in n.kids.items():
        v = getattr(o, k.py)
        if k.kind == "list":
            if not k.keys:
                continue
            es = []
            for lk, e in v.items():
                es.append(e)
            out.append((path + [name], "list", v, es))
            for lk, e in v.items():
                p = path + [[name, keytext(k, lk, e)]]
                out.append((p, "entry", e, None))
                nodes(c, e, k, p, out)
        else:
            out.append((path + [name], k.kind, v, None))
            if k.kind == "container":
                nodes(c, v, k, path + [name], out)
    return out


def keytext(k, lk, e):
    if len(k.keys) == 1:
        return [str(lk)]
    parts = str(lk).split(" ")
    if len(parts) == len(k.keys):
        return parts
    # parts of the key contain spaces
    texts = [str(getattr(e, k.kids[kn].py)) for kn in k.keys]
    parts = re.fullmatch(" ".join("(%s|[^ ]*)" % re.escape(t) for t in texts), str(lk))
    if parts:
        return list(parts.groups())
    raise HarnessError("the key %r of an entry with the keys %r" % (lk, texts))


def quoted(v, style):
    if "'" in v:
        return '"%s"' % v
    if '"' in v:
        return "'%s'" % v
    if style % 3 == 0 and v and "()" not in v and not any(ch in " '\"[]/@=&<" for ch in v) and v.isascii() and not v.endswith(" "):
        return v
    return "'%s'" % v if style % 3 == 1 else '"%s"' % v


def steps(c, root, path, style):
    """The steps of a path in one of the spellings the helper is given."""
    out = []
    n = root
    for s in path[1:]:
        name = s if isinstance(s, str) else s[0]
        n = n.kids[name]
        style = (style * 1103515245 + 12345) & 0x7fffffff
        p = "pfx:" if (style >> 8) % 4 == 0 else ""
        t = p + name
        if not isinstance(s, str):
            preds = []
            for kn, kv in zip(n.keys, s[1]):
                kp = "pfx:" if (style >> 10) % 4 == 0 else ""
                sp = " " if (style >> 12) % 5 == 0 else ""
                preds.append("%s%s%s=%s%s" % ("@" if (style >> 14) % 5 == 0 else "", kp + kn, sp, sp, quoted(kv, style >> 16)))
            if (style >> 18) % 2:
                preds.reverse()
            j = [" ", " and ", "]["][(style >> 20) % 3]
            t += "[" + j.join(preds) + "]"
        out.append(t)
    return out


def spelled(c, path, style):
    ss = steps(c, c.tree[path[0]], path, style)
    return [""] + ss if style % 3 == 0 else ("/" + "/".join(ss))


def ident(path):
    return tuple(s if isinstance(s, str) else (s[0], tuple(s[1])) for s in path)


def is_same(got, want):
    return len(got) == len(want) and all(any(g is w for w in want) for g in got) and all(any(g is w for g in got) for w in want)


def lookups(c, live, case, gone, when, st, i):
    style = case["h"]["style"]
    seen = {}
    for mod in c.names:
        ph = live.helpers[mod]
        for j, (path, kind, o, es) in enumerate(nodes(c, live.roots[mod], c.tree[mod], [mod], [])):
            p = spelled(c, path, style[(i + j) % len(style)] + j * 7)
            got = cut("%s: get(%r)" % (when, p), ph.get, p)
            want = es if kind == "list" else [o]
            check(isinstance(got, list), "%s: get(%r) is %r", when, p, got)
            if not is_same(got, want):
                raise Violation("%s: get(%r) found %d objects (%s) instead of the %s" % (
                    when, p, len(got), [type(x).__name__ + ":" + str(x)[:30] for x in got][:4],
                    "%d entries of the list" % len(es) if kind == "list" else "node itself"))
            ok, u = outcome(ph.get_unique, p)
            if len(want) == 1:
                check(ok and u is want[0], "%s: get_unique(%r) did not return the node: %r", when, p, u)
            else:
                check(not ok and type(u).__name__ == "YANGPathHelperException", "%s: get_unique(%r) of %d nodes gave %r", when, p,
                      len(want), u)
            if kind == "list" and (len(path) > 2 or es):
                gp = [""] + steps(c, c.tree[mod], path[:-1], style[j % len(style)]) + [path[-1]]
                if j % 2:
                    gp = "/".join(gp)
                g = cut("%s: get_list(%r)" % (when, gp), ph.get_list, gp)
                check(g is o, "%s: get_list(%r) did not return the list", when, gp)
            if kind == "entry":
                st.cls("found entry")
                nk = c_node(c, path)
                if len(nk.keys) > 1:
                    partial(c, ph, live, path, nk, style[j % len(style)], when)
            seen[ident(path)] = kind
            gone.pop(ident(path), None)
        # the nodes that existed before
        for pid, path in list(gone.items()):
            if pid[0] != mod:
                continue
            p = spelled(c, path, style[i % len(style)])
            got = cut("%s: get(%r)" % (when, p), ph.get, p)
            if pid in seen:
                continue
            check(got == [], "%s: get(%r) finds %d objects although the node is gone", when, p, len(got))
            st.cls("looked up a former node")
            ok, u = outcome(ph.get_unique, p)
            check(not ok, "%s: get_unique(%r) returns a node that is gone", when, p)
    return seen


def whole(c, live, when, st):
    """The root that a helper finds at / is a container of what the modules hold."""
    from pyangbind.lib import pybindJSON
    for ph in set(live.helpers.values()):
        mods = [m for m in c.names if live.helpers[m] is ph]
        root = cut("%s: get_unique('/')" % when, ph.get_unique, "/")
        for mode in ("default", "ietf"):
            got = json.loads(cut("%s: dumping the root (%s)" % (when, mode), pybindJSON.dumps, root, mode=mode))
            want = {}
            for m in mods:
                want.update(json.loads(pybindJSON.dumps(live.roots[m], mode=mode)))
            check(got == want, "%s: the root at / holds %s instead of %s", when, got, want)
        st.cls("dumped the root")


def c_node(c, path):
    n = c.tree[path[0]]
    for s in path[1:]:
        n = n.kids[s if isinstance(s, str) else s[0]]
    return n


def partial(c, ph, live, path, n, style, when):
    """Entries by one of their keys, and a leaf below all entries of a list."""
    k = style % len(n.keys)
    ss = steps(c, c.tree[path[0]], path[:-1], style)
    p = "/" + "/".join(ss + ["%s[%s=%s]" % (n.name, n.keys[k], quoted(path[-1][1][k], 2))])
    lst = live.obj(path[:-1] + [n.name])
    want = [e for lk, e in lst.items() if keytext(n, lk, e)[k] == path[-1][1][k]]
    got = cut("%s: get(%r)" % (when, p), ph.get, p)
    check(is_same(got, want), "%s: get(%r) found %d entries instead of %d", when, p, len(got), len(want))
    below = [x for x in n.kids.values() if x.kind in ("leaf", "container", "leaf-list")]
    x = below[style % len(below)]
    p = "/" + "/".join(ss + [n.name, x.name])
    want = [getattr(e, x.py) for e in lst.values()]
    got = cut("%s: get(%r)" % (when, p), ph.get, p)
    check(is_same(got, want), "%s: get(%r) found %d nodes instead of %d", when, p, len(got), len(want))


def relative(c, live, case, when, st):
    """A path relative to another node finds the same object."""
    style = case["h"]["style"]
    for mod in c.names:
        ph = live.helpers[mod]
        ns = [x for x in nodes(c, live.roots[mod], c.tree[mod], [mod], []) if x[1] != "list"]
        for i, s in enumerate(style):
            if len(ns) < 2:
                break
            a, b = ns[s % len(ns)], ns[(s // 7 + i) % len(ns)]
            pa, pb = a[0], b[0]
            k = 1
            while k < len(pa) and k < len(pb) and pa[k] == pb[k]:
                k += 1
            k = min(k, len(pb) - 1)
            if k == 1 and len(pa) == 1:
                continue
            p = "/".join([".."] * (len(pa) - k) + steps(c, c.tree[mod], pb, s)[k - 1:])
            if not p.startswith(".."):
                continue
            got = cut("%s: get(%r, caller=%r)" % (when, p, a[2]._path()), ph.get, p, caller=a[2]._path())
            check(len(got) == 1 and got[0] is b[2], "%s: get(%r) relative to %s found %d objects, not %s", when, p, show(pa),
                  len(got), show(pb))
            st.cls("relative path")


def run(case, st):
    if "reg" in case["schema"]:
        return run_reg(case["h"], st)
    from pyangbind.lib.xpathhelper import YANGPathHelper
    c = hist.comp(case, ("--presence", "--use-xpathhelper"))
    tops = [x for m in c.names for x in c.tree[m].kids]
    make = YANGPathHelper
    if case["h"]["shared"] and len(set(tops)) == len(tops):
        one = YANGPathHelper()
        make = lambda: one  # noqa: E731
        st.cls("one helper for all modules")
    m, live = Model(c), Live(c, path_helper=make)
    m2, spare = Model(c), Live(c)
    gone = {}
    seen = lookups(c, live, case, gone, "at first", st, 0)
    big = False
    for i, op in enumerate(case["h"]["ops"]):
        before = seen
        if op[0] == "take":
            when = "after assigning %s of another tree" % show(op[1])
            n = m.node(op[1])
            if m.is_unset(m.parent(op[1]), n.name):
                raise HarnessError("nothing to assign")
            cut(when, setattr, live.parent(op[1]), n.py, spare.obj(op[1]))
            st.cls("assigned " + n.kind)
        elif op[0] == "!8":
            when = "after the refused write %s" % (op[1:],)
            ok, e = outcome(c08.attempt, live, op[1:])
            if ok:
                raise Violation("%s was accepted" % when)
        else:
            when, _ = c12.step(c, m, live, op, st)
            c12.step(c, m2, spare, op, st)
        st.op()
        gone.update(dict((k, unident(k)) for k in before))
        seen = lookups(c, live, case, gone, when, st, i)
        big = big or any(v == "entry" for v in seen.values())
    relative(c, live, case, "at the end", st)
    whole(c, live, "at the end", st)
    if case["h"].get("reload"):
        reload(c, live, case, gone, st)
    st.nontrivial(big and bool(gone))


def reload(c, live, case, gone, st):
    """Documents that are loaded into new bindings register their nodes too."""
    import copy
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.xpathhelper import YANGPathHelper
    h = case["h"]
    mode = h["reload"]
    load = {"ietf": pybindJSON.loads_ietf, "default": pybindJSON.loads, "xml": load_xml}[mode]
    if mode != "xml" and h["style"][0] % 3 == 0:
        load = from_file(pybindJSON.load_ietf if mode == "ietf" else pybindJSON.load)
    now = copy.copy(live)
    now.roots, now.helpers = dict(live.roots), dict(live.helpers)
    fresh = YANGPathHelper()
    for mod in c.names:
        if mode == "xml":
            from pyangbind.lib.serialise import pybindIETFXMLEncoder
            text = cut("dumping %s as XML" % mod, pybindIETFXMLEncoder.serialise, live.roots[mod], pretty_print=h["again"])
        else:
            text = cut("dumping %s" % mod, pybindJSON.dumps, live.roots[mod], mode=mode)
        ok, plain = outcome(load, text, c.ns, mod)
        if not ok:
            return      # what can be loaded is the matter of C14 and C15
        if not h["again"]:
            now.helpers[mod] = fresh if h["shared"] and len(set(live.helpers.values())) == 1 else YANGPathHelper()
        new = cut("loading %s with a path helper" % text, load, text, c.ns, mod, path_helper=now.helpers[mod])
        as_ = "default" if mode == "default" else "ietf"
        got, want = json.loads(pybindJSON.dumps(new, mode=as_)), json.loads(pybindJSON.dumps(plain, mode=as_))
        check(got == want, "loading %s with a path helper gives %s instead of %s", text, got, want)
        now.roots[mod] = new
    lookups(c, now, case, gone, "after loading documents into new bindings", st, 1)
    whole(c, now, "after loading documents into new bindings", st)
    st.cls("loaded a document (%s) with %s helper" % (mode, "the same" if h["again"] else "a new"))


def from_file(load):
    """A function that loads a file, given its text."""
    import os
    import tempfile

    def go(text, *a, **k):
        fd, fn = tempfile.mkstemp(dir=os.environ.get("PBT_BASE"))
        try:
            with os.fdopen(fd, "w") as f:
                f.write(text)
            return load(fn, *a, **k)
        finally:
            os.unlink(fn)
    return go


def load_xml(text, ns, mod, path_helper=None):
    from lxml import objectify
    from pyangbind.lib.serialise import pybindIETFXMLDecoder
    if path_helper is None:
        return pybindIETFXMLDecoder.decode(text, ns, mod)
    doc = objectify.fromstring(text, parser=objectify.makeparser(remove_blank_text=True))
    return pybindIETFXMLDecoder.load_xml(doc, ns, mod, path_helper=path_helper)


def unident(p):
    return [s if isinstance(s, str) else [s[0], list(s[1])] for s in p]


# ---------------------------------------------------------------- the helper itself
NAMES = ["a", "b", "c-d", "e.f", "key"]
KEYS = {"c-d": ["id"], "e.f": ["id", "n.m"], "key": ["k-1"]}
VALS = ["1", "x", "a b", "p/q", "c:d", "it's", 'say "x"', "[0]", "a=b", "@x", "and", "^", "caf\u00e9", "..", "a and b", "true", "current()/../k", "current()"]


def gen_reg(d, S):
    def part(look=False):
        t = d.pick(NAMES)
        ks = KEYS.get(t, [])
        if look and ks and d.bool(0.4):
            ks = [ks[d.idx(len(ks))]] if d.bool(0.6) else []
        return [t, [[k, d.pick(VALS)] for k in ks]]
    known = [[]]
    ops = []

    def one():
        k = d.int(0, 9)
        if k < 6:
            p = d.pick(known)
            p = p + [part()] if d.bool(0.85) or not p else p
            if p not in known:
                known.append(p)
            return ["reg", p]
        p = d.pick(known)
        if not p:
            return None
        if k < 8:
            for q in [q for q in known if q[:len(p)] == p]:
                known.remove(q)
            return ["unreg", p]
        return ["look", p[:-1] + [part(True)] if d.bool(0.7) else p, d.int(0, 5)]
    for op in d.repeat(16, one):
        if op is not None:
            ops.append(op)
    return {"ops": ops}


def text(p, style=1):
    out = []
    for t, ks in p:
        s = t
        if ks:
            j = ["][", " ", " and "][style % 3]
            s += "[" + j.join("%s=%s" % (k, quoted(v, style)) for k, v in (ks if style % 2 else ks[::-1])) + "]"
        out.append(s)
    return out


class Thing(object):
    def __init__(self, path):
        self.path = path


def run_reg(h, st):
    from pyangbind.lib.xpathhelper import YANGPathHelper
    ph = YANGPathHelper()
    have = []     # (path, object)
    former = []
    for i, op in enumerate(h["ops"]):
        p = [(t, [tuple(x) for x in ks]) for t, ks in op[1]]
        if op[0] == "reg":
            if len(p) > 1 and not any(q == p[:-1] for q, _ in have):
                continue
            if several(p, have):
                continue    # a path that names several nodes
            o = Thing(p)
            cut("register(%r)" % text(p), ph.register, text(p, i), o)
            have = [x for x in have if x[0][:len(p)] != p]
            have.append((p, o))
        elif op[0] == "unreg":
            if not any(q == p for q, _ in have):
                continue
            if several(p, have):
                continue
            cut("unregister(%r)" % text(p), ph.unregister, text(p, i))
            former += [q for q, _ in have if q[:len(p)] == p]
            have = [x for x in have if x[0][:len(p)] != p]
        st.op()
        st.cls(op[0])
        for q in [q for q, _ in have] + former + [p]:
            want = [o for r, o in have if match(q, r)]
            s = text(q, i)
            s = s if i % 2 else "/" + "/".join(s)
            got = cut("get(%r)" % (s,), ph.get, s)
            check(is_same(got, want), "step %d: get(%r) found %d objects instead of %d", i, s, len(got), len(want))
    st.nontrivial(bool(former) and len(have) > 1)


def match(q, r):
    """Does the path q name the node at r?"""
    return len(q) == len(r) and all(a == b and all(k in kr for k in kq) for (a, kq), (b, kr) in zip(q, r))


def several(p, have):
    return any(sum(match(p[:i], q) for q, _ in have) > 1 or (i < len(p) and not any(p[:i] == q for q, _ in have)) or
               any(q != p[:i] and match(p[:i], q) for q, _ in have) for i in range(1, len(p) + 1))
