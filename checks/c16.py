"""C16: the XML encoding is well-formed, namespaced and round-trips."""
import random

from pbt import enc, hist, schema as sc
from pbt.engine import HarnessError, Part, Violation, check, cut
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import OpGen, compare, show
from checks.c14 import build, count

RULE = ("a case builds a tree by a generated history, encodes it as XML and decodes the text, as it is or rearranged, "
        "into new bindings; it is non-trivial when the tree has five or more values and a list entry or a leaf-list")

ASSUMPTIONS = ["strings hold characters XML can represent",
               "values of unions are such that what is written is the same value again, and are no decimals",
               "entries of lists whose keys are identities or decimals are compared by their data, not by the text of the key"]

F = {"depth": 3, "maxnodes": 24, "p_cfalse": 0.1, "p_reserved": 0.2, "p_ordered": 0.5, "td": (0, 3), "p_multikey": 0.4,
     "mods": (1, 3), "p_aug": 0.8, "ids": (2, 7), "p_import": 0.95, "p_sub": 0.15, "gr": (0, 3),
     "types": {"int": 6, "string": 4, "dec": 3, "bool": 2, "empty": 3, "enum": 2, "idref": 5, "bits": 1, "bin": 1,
               "union": 2, "ref": 6},
     "key_types": {"int": 4, "string": 5, "enum": 2, "bool": 1, "idref": 1, "union": 1, "ref": 3, "dec": 1},
     "w": {"leaf": 9, "container": 4, "list": 5, "leaf-list": 4, "choice": 2, "uses": 3}}

W = {"set": 10, "unset": 1, "add": 8, "del": 1, "pres": 3, "app": 4, "lset": 3, "rm": 1, "pop": 0, "ldel": 0, "unset_c": 0, "bit": 3}
MODE = "xml"


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 22, outer=sc.gen_schema(F), n_outer=24 * k)]


def gen(d, S):
    c = hist.ctx(S)
    g = OpGen(d, c, W, enc.usable(MODE, c.env))
    ops = [x for x in d.repeat(22, g.one) if x is not None]
    return {"ops": ops, "how": d.pick(["text", "bytes"]), "shuffle": d.int(0, 9999),
            "pretty": d.bool(), "spell": d.pick(["", "order", "own", "own"]), "enc": d.pick(["utf-8", "utf-16", "ascii"])}


def respell(el, r, spaces):
    """The same document with the elements of leaves in another order, comments and
    (where the layout is free) white space between elements."""
    from lxml import etree
    kids = list(el)
    if not kids:
        return
    groups = {}
    for k in kids:
        respell(k, r, spaces)
        groups.setdefault(k.tag, []).append(k)
        el.remove(k)
    order = list(groups)
    r.shuffle(order)
    if spaces:
        el.text = "\n  "
    for t in order:
        for k in groups[t]:
            if spaces and r.random() < 0.2:
                el.append(etree.Comment(" a comment "))
            k.tail = "\n  " if spaces else None
            el.append(k)


def write(el, r, scope=()):
    """The document as text in another spelling: other prefixes, declarations, quotes, references, sections, comments,
    processing instructions and attributes that mean nothing here."""
    from lxml import etree
    if not isinstance(el.tag, str):
        return etree.tostring(el, encoding="unicode", with_tail=False)
    scope = dict(scope)
    q = etree.QName(el)
    decl = []
    for p, u in el.nsmap.items():
        # the prefixes of identities keep what they are for
        if p is not None and scope.get(p) != u:
            decl.append((p, u))
            scope[p] = u
    mine = [p for p, u in scope.items() if u == q.namespace and (p is None or p.startswith("z-"))]
    if mine and r.random() < 0.7:
        p = r.choice(mine)
    else:
        p = None if r.random() < 0.5 else "z-%d" % r.randrange(3)
        decl.append((p, q.namespace))
        scope[p] = q.namespace
    name = q.localname if p is None else "%s:%s" % (p, q.localname)
    attrs = ["xmlns%s=%s" % ("" if p is None else ":" + p, attr(u, r)) for p, u in decl]
    if r.random() < 0.15:
        attrs.append("operation=%s" % attr(r.choice(["merge", "<&>", ""]), r))
    r.shuffle(attrs)
    out = ["<", name] + [r.choice([" ", "\n ", "  "]) + a for a in attrs]
    kids = list(el)
    if not kids and not el.text and r.random() < 0.7:
        return "".join(out + [r.choice(["/>", " />"])])
    out.append(r.choice([">", " >"]))
    out.append(el.text or "" if kids else chars(el.text or "", r))
    for k in kids:
        if r.random() < 0.15:
            out.append(r.choice(["<!-- a <b/> -->", "<?target data?>", "<!---->"]))
        out.append(write(k, r, scope))
        out.append(k.tail or "")
    return "".join(out + ["</", name, r.choice(["", " "]), ">"])


def attr(u, r):
    u = u.replace("&", "&amp;").replace("<", "&lt;")
    return "'%s'" % u.replace("'", "&#39;") if r.random() < 0.5 else '"%s"' % u.replace('"', "&quot;")


def chars(t, r):
    """The text of a leaf in pieces, none of which are only white space."""
    cut_ = r.randrange(len(t) + 1)
    pieces = [t[:cut_], t[cut_:]] if r.random() < 0.3 and t[:cut_].strip() and t[cut_:].strip() else [t]
    out = []
    for i in pieces:
        k = r.random()
        if k < 0.15 and i and "]]>" not in i and "\r" not in i:
            out.append("<![CDATA[%s]]>" % i)
        elif k < 0.3:
            out.append("".join("&#%d;" % ord(ch) if r.random() < 0.5 and not ch.isspace() else esc(ch) for ch in i))
        else:
            out.append(esc(i))
    return r.choice(["", "<!-- c -->", "<?p d?>"]).join(out)


def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def run(case, st):
    from lxml import etree
    from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder
    c = hist.comp(case)
    h = case["h"]
    m, live = build(c, h["ops"], st)
    r = random.Random(h["shuffle"])
    for mod in c.names:
        obj, x = live.roots[mod], m.roots[mod]
        text = cut("encoding %s" % mod, pybindIETFXMLEncoder.serialise, obj, pretty_print=h["pretty"])
        doc = parse(text, "the document for %s" % mod)
        check_root(c, doc, mod)
        enc.check_xml(c, doc, x, [mod], "the document")
        layout(doc, h["pretty"])
        compare(c, obj, x, [mod], "after encoding")
        tree = cut("encoding %s" % mod, pybindIETFXMLEncoder.encode, obj)
        enc.check_xml(c, parse(etree.tostring(tree).decode(), "the tree"), x, [mod], "the tree that encode returns")
        if h["spell"]:
            respell(doc, r, h["pretty"])
            text = write(doc, r) if h["spell"] == "own" else etree.tostring(doc, encoding="unicode")
            if h["spell"] == "own":
                if not alike(doc, etree.fromstring(text)):
                    raise HarnessError("the document became %s" % text)
                doc = etree.fromstring(text)
        data = text
        if h["how"] == "bytes":
            data = etree.tostring(doc, xml_declaration=True, encoding=h["enc"])
        new = cut("decoding %s" % text, pybindIETFXMLDecoder.decode, data, c.ns, mod)
        enc.same_data(c, new, x, [mod], "after decoding %s" % text, "xml")
        again = cut("encoding %s" % mod, pybindIETFXMLEncoder.serialise, new)
        enc.check_xml(c, parse(again, "the second document"), x, [mod], "the second document")
        vals, ents = count(x)
        st.cls("how " + h["how"])
        st.nontrivial(vals >= 5 and ents >= 1)
        sub(c, m, live, mod, st)


def layout(doc, pretty):
    """Elements are on lines of their own if that is asked for, and else not."""
    for e in doc.iter():
        if len(e):
            check(("\n" in (e.text or "")) == pretty and not (e.text or "").strip(),
                  "with pretty_print=%s, the text before the elements in %s is %r", pretty, e.tag, e.text)


def alike(a, b):
    """The same elements with the same text."""
    from lxml import etree
    ka, kb = [[k for k in e if isinstance(k.tag, str)] for e in (a, b)]
    if etree.QName(a).text != etree.QName(b).text or len(ka) != len(kb):
        return False
    if not ka:
        return text_of(a) == text_of(b)
    return all(alike(i, j) for i, j in zip(ka, kb))


def text_of(e):
    return (e.text or "") + "".join(k.tail or "" for k in e)


def parse(text, when):
    from lxml import etree
    try:
        return etree.fromstring(text)
    except (etree.XMLSyntaxError, ValueError) as e:
        raise Violation("%s is not well-formed: %s" % (when, e))


def check_root(c, doc, name, ns=None):
    from lxml import etree
    q = etree.QName(doc)
    check(q.localname == name, "the document element is %s instead of %s", q.localname, name)
    ns = ns or c.env.mods[name]["ns"]
    check(q.namespace == ns, "the document element is in the namespace %s instead of %s", q.namespace, ns)


def sub(c, m, live, mod, st):
    """The parts of the tree on their own."""
    from lxml import objectify
    from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder

    def visit(o, x, here, n, blank):
        text = cut("encoding %s" % show(here), pybindIETFXMLEncoder.serialise, o)
        doc = parse(text, "the document for %s" % show(here))
        check_root(c, doc, n.name, n.ns)
        enc.check_xml(c, doc, x, here, "the document for a %s" % n.kind)
        if blank is not None:
            new = blank()
            cut("decoding %s" % text, pybindIETFXMLDecoder.load_xml, objectify.fromstring(text), None, None, obj=new)
            if not n.presence:
                enc.same_data(c, new, x, here, "after decoding %s" % text, "xml")
    enc.parts_alone(c, live, m, mod, st, visit)
