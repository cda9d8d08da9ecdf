"""What a document of each encoding says about a model of the data, and the comparison
of a loaded tree with that model."""
import base64
import contextlib
import json
import re
from collections import OrderedDict
from decimal import Decimal

from . import typecheck, ytypes as yt
from .engine import HarnessError, Violation, check
from .model import default_canon, entry_of, expected, show
from .typecheck import read


@contextlib.contextmanager
def loose_ids():
    """An identity may be written with or without its module."""
    old = yt.LOOSE_IDS[0]
    yt.LOOSE_IDS[0] = True
    try:
        yield
    finally:
        yt.LOOSE_IDS[0] = old


# ---------------------------------------------------------------- values
def member(n, cv, env):
    """The resolved type of which a leaf holds a value."""
    rt = n.rt
    if rt["b"] != "union":
        return rt
    for m in rt["m"]:
        r = yt.judge(m, py_of(cv), env)
        if r[0] == "ok" and r[1] == cv:
            return m
    return None


def py_of(cv):
    kind, v = cv
    if kind == "bits":
        return " ".join(sorted(v))
    return v


def int64(rt):
    return rt["lim"] in ([-2 ** 63, 2 ** 63 - 1], [0, 2 ** 64 - 1], (-2 ** 63, 2 ** 63 - 1), (0, 2 ** 64 - 1))


def lexical(cv):
    """The text of a value as it stands in XML (identities apart)."""
    kind, v = cv
    if kind == "int":
        return str(v)
    if kind == "bool":
        return "true" if v else "false"
    if kind == "bin":
        return base64.b64encode(v).decode()
    if kind == "dec":
        return format(v, "f")
    if kind == "bits":
        return " ".join(sorted(v))
    return v


def default_json(cv):
    kind, v = cv
    if kind in ("int", "bool"):
        return v
    if kind == "dec":
        return float(v)
    return lexical(cv)


def ietf_json(cv, rt):
    kind, v = cv
    if kind == "int":
        return str(v) if int64(rt) else v
    if rt["b"] == "empty":
        return [None]
    if kind == "bool":
        return v
    return lexical(cv)


XML_OK = re.compile("^[\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*$")


def usable(mode, env):
    """A filter for OpGen: values for which an encoding can be held to the letter."""
    def ok(n, w, cv):
        kind, v = cv
        m = member(n, cv, env)
        if m is None:
            return False
        if m["b"] == "empty" and (n.rt["b"] == "union" or not v):
            return False
        if kind == "dec":
            ulp = Decimal(1).scaleb(-m["fd"])
            if v != v.quantize(ulp):
                return False
            if mode == "default" and (len(v.as_tuple().digits) > 15 or abs(v) >= Decimal(10) ** (15 - m["fd"])):
                return False
        if kind == "id":
            n_ = v.split(":")[-1]
            if sum(i.split(":")[1] == n_ for i in yt.derived(m["base"], env.identities)) != 1:
                return False
        if mode == "xml" and kind in ("str", "enum") and not XML_OK.match(v):
            return False
        if mode == "xml" and n.rt["b"] == "union" and kind == "id":
            return False
        if n.rt["b"] == "union":
            # what is written must mean the same value again
            again = {"default": default_json, "xml": lexical}.get(mode, lambda x: ietf_json(x, m))(cv)
            r = yt.judge(n.rt, again, env)
            if r[0] != "ok" or r[1][0] != kind or (kind != "dec" and r[1] != cv):
                return False
            if kind == "dec":
                return False
        return True
    return ok


def fits_default(n, cv, j, env):
    """Is a JSON value what the default encoding has for a value?"""
    kind, v = cv
    if kind == "int":
        return type(j) is int and j == v
    if kind == "bool":
        return j is v or (type(j) is bool and j == v)
    if kind == "dec":
        # JSON numbers are floats here
        return type(j) in (Decimal, int) and float(j) == float(v)
    if kind == "bits":
        m = member(n, cv, env)
        return j == yt.bits_text(m, v)
    if kind == "id":
        return isinstance(j, str) and j.split(":")[-1] == v.split(":")[-1]
    return isinstance(j, str) and j == lexical(cv)


DEC = re.compile(r"^-?[0-9]+(\.[0-9]+)?$")


def id_text(n, cv, env):
    m = member(n, cv, env)
    mod = env.id_module(cv[1], m["base"])
    name = cv[1].split(":")[-1]
    return name if mod == n.mod else "%s:%s" % (mod, name)


def fits_ietf(n, cv, j, env):
    kind, v = cv
    m = member(n, cv, env)
    if kind == "int":
        return j == str(v) and type(j) is str if int64(m) else type(j) is int and j == v
    if m["b"] == "empty":
        return j == [None]
    if kind == "bool":
        return type(j) is bool and j == v
    if kind == "dec":
        return type(j) is str and bool(DEC.match(j)) and Decimal(j) == v
    if kind == "bits":
        return j == yt.bits_text(m, v)
    if kind == "id":
        return j == id_text(n, cv, env)
    return type(j) is str and j == lexical(cv)


def nodup(pairs):
    d = OrderedDict()
    for k, v in pairs:
        if k in d:
            raise Violation("the document has the name %r twice in one object" % k)
        d[k] = v
    return d


def parse(text, when):
    check(isinstance(text, str), "%s: the document is %r", when, type(text))
    try:
        return json.loads(text, parse_float=Decimal, object_pairs_hook=nodup,
                          parse_constant=lambda x: (_ for _ in ()).throw(ValueError(x)))
    except ValueError as e:
        raise Violation("%s: the document is not valid JSON: %s" % (when, e))


# ---------------------------------------------------------------- documents
def check_default(c, doc, x, path, when, order=None, full=False):
    """doc is exactly what the default encoding has for an instance.  With ``full``,
    everything of the schema, the defaults included."""
    check(isinstance(doc, dict), "%s: %s is encoded as %r", when, show(path), doc)
    got = [k for k in doc if k != "__yang_order"]
    if order is not None:
        check(doc.get("__yang_order") == order, "%s: %s has the position %r instead of %r", when, show(path),
              doc.get("__yang_order"), order)
    else:
        check("__yang_order" not in doc, "%s: %s has a position", when, show(path))
    want = x.n.kids if full else expected(x)
    check(set(got) == set(want), "%s: the document has %s for %s instead of %s", when, sorted(got), show(path), sorted(want))
    for name in want:
        n, v, g, here = x.n.kids[name], x.v.get(name), doc[name], path + [name]
        if n.kind == "leaf":
            if v is None:
                if n.default is not None:
                    v = default_canon(c, n)
                else:
                    continue
            check(fits_default(n, v, g, c.env), "%s: the document has %r for %s instead of %r", when, g, show(here), v)
        elif n.kind == "leaf-list":
            check(isinstance(g, list) and len(g) == len(v or []) and all(fits_default(n, a, b, c.env) for a, b in zip(v or [], g)),
                  "%s: the document has %r for %s instead of %r", when, g, show(here), v)
        elif n.kind == "list":
            check(isinstance(g, dict) and list(g) == [" ".join(k) for k in v],
                  "%s: the document has the entries %r for %s instead of %r", when, g and list(g), show(here), list(v))
            for i, (k, e) in enumerate(v.items()):
                check_default(c, g[" ".join(k)], e, path + [[name, list(k)]], when, i if n.ordered else None, full)
        else:
            check_default(c, g, v, here, when, full=full)


def ietf_name(n, parent_mod):
    return n.name if n.mod == parent_mod else "%s:%s" % (n.mod, n.name)


def check_ietf(c, doc, x, path, when, parent_mod=None, full=False):
    check(isinstance(doc, dict), "%s: %s is encoded as %r", when, show(path), doc)
    names = x.n.kids if full else expected(x)
    want = {ietf_name(x.n.kids[k], parent_mod): k for k in names}
    if full:
        # containers and lists without anything in them are left out
        for k in list(want):
            n = x.n.kids[want[k]]
            if k not in doc and n.kind in ("list", "container") and not any(True for _ in holds(n, x.v[n.name])):
                del want[k]
    check(set(doc) == set(want), "%s: the document has %s for %s instead of %s", when, sorted(doc), show(path), sorted(want))
    for jn, name in want.items():
        n, v, g, here = x.n.kids[name], x.v.get(name), doc[jn], path + [name]
        if n.kind == "leaf":
            if v is None:
                if n.default is not None:
                    v = default_canon(c, n)
                else:
                    continue
            check(fits_ietf(n, v, g, c.env), "%s: the document has %r for %s instead of %r", when, g, show(here), v)
        elif n.kind == "leaf-list":
            check(isinstance(g, list) and len(g) == len(v or []) and all(fits_ietf(n, a, b, c.env) for a, b in zip(v or [], g)),
                  "%s: the document has %r for %s instead of %r", when, g, show(here), v)
        elif n.kind == "list":
            check(isinstance(g, list) and len(g) == len(v), "%s: the document has %r for %s instead of the entries %r", when, g,
                  show(here), list(v))
            for (k, e), ge in zip(v.items(), g):
                check_ietf(c, ge, e, path + [[name, list(k)]], when, n.mod, full)
        else:
            check_ietf(c, g, v, here, when, n.mod, full)


def holds(n, v):
    """Leaves and leaf-lists of the schema below a container, or entries of a list."""
    if n.kind == "list":
        for e in v:
            yield e
        return
    if n.presence and v.present:
        yield n
    for k in n.kids.values():
        if k.kind in ("leaf", "leaf-list"):
            yield k
        else:
            for y in holds(k, v.v[k.name]):
                yield y


def check_xml(c, el, x, path, when):
    """The children of an lxml element are exactly the data of an instance."""
    from lxml import etree
    want = expected(x)
    byname = OrderedDict()
    for ch in el:
        if not isinstance(ch.tag, str):
            continue
        q = etree.QName(ch)
        byname.setdefault(q.localname, []).append((q.namespace, ch))
    check(not (el.text or "").strip(), "%s: %s has the text %r", when, show(path), el.text)
    check(set(byname) == set(want), "%s: the document has the elements %s in %s instead of %s", when, sorted(byname), show(path),
          sorted(want))
    for name, v in want.items():
        n, here, els = x.n.kids[name], path + [name], byname[name]
        for nsp, ch in els:
            check(nsp == n.ns, "%s: %s is in the namespace %r instead of %r", when, show(here), nsp, n.ns)
        if n.kind in ("leaf", "container"):
            check(len(els) == 1, "%s: %s has %d elements", when, show(here), len(els))
        else:
            check(len(els) == len(v), "%s: %s has %d elements instead of %d", when, show(here), len(els), len(v))
        if n.kind == "leaf":
            check_text(c, n, v, els[0][1], show(here), when)
        elif n.kind == "leaf-list":
            for w, (_, ch) in zip(v, els):
                check_text(c, n, w, ch, show(here), when)
        elif n.kind == "list":
            for (k, e), (_, ch) in zip(v.items(), els):
                check_xml(c, ch, e, path + [[name, list(k)]], when)
        else:
            check_xml(c, els[0][1], v, here, when)


def check_text(c, n, cv, el, where, when):
    check(len(el) == 0, "%s: %s has elements below it", when, where)
    t = el.text or ""
    kind, v = cv
    m = member(n, cv, c.env)
    if m["b"] == "empty":
        ok = t == ""
    elif kind == "dec":
        ok = bool(DEC.match(t)) and Decimal(t) == v
    elif kind == "bits":
        ok = t == yt.bits_text(m, v)
    elif kind == "id":
        mod = c.env.id_module(v, m["base"])
        pfx, _, name = t.rpartition(":")
        nsp = el.nsmap.get(pfx or None)
        ok = name == v.split(":")[-1] and nsp == c.env.mods[mod]["ns"]
        check(ok, "%s: %s has the text %r, in the namespace %r, for the identity %s of %s", when, where, t, nsp, v, mod)
    else:
        ok = t == lexical(cv)
    check(ok, "%s: %s has the text %r instead of %r", when, where, t, cv)


# ---------------------------------------------------------------- what was loaded
def same_data(c, live, x, path, when, mode):
    """Like model.compare; identities may have changed their spelling, and so may keys
    that are not plain text or numbers."""
    with loose_ids():
        _same(c, live, x, path, when, mode)


def _same(c, live, x, path, when, mode):
    for name, n in x.n.kids.items():
        lv, mv, here = getattr(live, n.py), x.v.get(name), path + [name]
        if n.kind == "leaf":
            if mv is None:
                check(not lv._changed(), "%s: %s was not set but is now %r", when, show(here), lv)
            else:
                check(lv._changed(), "%s: %s is not set", when, show(here))
                check(read(n, mv, lv, c.env), "%s: %s is %r instead of %r", when, show(here), lv, mv)
        elif n.kind == "leaf-list":
            got, want = list(lv), mv or []
            check(len(got) == len(want) and all(read(n, w, g, c.env) for g, w in zip(got, want)),
                  "%s: %s holds %r instead of %r", when, show(here), got, want)
            check(bool(lv._changed()) or not want, "%s: %s is not set", when, show(here))
        elif n.kind == "list":
            got = list(lv.items())
            check(len(got) == len(mv), "%s: %s has the entries %r instead of %r", when, show(here), [k for k, _ in got], list(mv))
            for (lk, le), (k, e) in zip(got, mv.items()):
                if mode == "default" or all(e.v[kn][0] in ("str", "int", "enum", "bool") for kn in n.keys or []):
                    check(not n.keys or str(lk) == " ".join(k), "%s: %s has the entry %r instead of %r", when, show(here), lk, k)
                _same(c, le, e, path + [[name, list(k)]], when, mode)
        else:
            if n.presence:
                check(bool(lv._present()) == mv.present, "%s: presence of %s is %r instead of %r", when, show(here),
                      lv._present(), mv.present)
            _same(c, lv, mv, here, when, mode)


def parts_alone(c, live, m, mod, st, visit):
    """Calls visit(object, instance, path, node, blank) for each container of the tree, and some entries of lists.

    blank() is the same container of a new tree, None where there is none that is alike."""
    def below(obj, x, path, blank):
        for name, v in expected(x).items():
            n, here = x.n.kids[name], path + [name]
            if n.kind == "container":
                o = getattr(obj, n.py)
                new = blank and (lambda n=n: getattr(blank(), n.py))
                visit(o, v, here, n, new)
                st.cls("container on its own")
                if n.mod != mod:
                    st.cls("augmented container on its own")
                below(o, v, here, new)
            elif n.kind == "list" and v:
                for o, (k, e) in list(zip(getattr(obj, n.py).values(), v.items()))[:2]:
                    at = path + [[name, list(k)]]
                    visit(o, e, at, n, None)
                    st.cls("entry on its own")
                    below(o, e, at, None)
    below(live.roots[mod], m.roots[mod], [mod], lambda: c.new(mod))
