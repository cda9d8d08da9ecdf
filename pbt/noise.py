"""Statements that bindings do not depend on, spread over the text of generated modules.

Descriptions, references, units, status, constraints that PyangBind does not enforce (must, when, mandatory, unique,
min-elements, max-elements), features, revisions, comments, and other ways to write a string."""
import random

TEXTS = ["Some text.", "Two\nlines\n  of text", "caf\u00e9 \u2192 \u00fc", "it's", 'say "so"', 'three """ quotes', "''' others",
         "100% %s %(x)d {0} {}", "back\\slash \\n \\u0041 \\", "ends with a quote\"", "a; b { c } // d /* e */", "# not a comment",
         "tab\there", "", " ", "class x(object): pass", "\\", "$(x) `y`"]
XPATHS = ["true()", "1 = 1", "not(false())", "count(.) >= 0", "string-length('a\"b') = 3", "'it''s' or 1".replace("''", ""),
          "current() = . or true()", "boolean(\"x\")"]
DATES = ["2014-02-28", "2016-12-01", "2019-07-15", "2021-01-31"]


class Noise(random.Random):
    def __init__(self, seed, S):
        random.Random.__init__(self, seed)
        self.dates = {}
        self.feats = {}
        self.v11 = set(m["name"] for m in S["mods"] if m.get("v11"))
        for m in S["mods"]:
            for p in [m] + m.get("subs", []):
                if self.random() < 0.5:
                    self.dates[p["name"]] = sorted(self.sample(DATES, self.randint(1, 3)), reverse=True)
                if self.random() < 0.5:
                    self.feats[p["name"]] = ["f-%d.%d" % (len(self.feats), i) for i in range(self.randint(1, 2))]

    def some(self, p=0.3):
        return self.random() < p

    def q(self, s):
        """A string in one of the ways to write it."""
        plain = '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")
        if s and self.some(0.25):
            i = self.randrange(len(s))
            return "%s%s+%s%s" % (self.q(s[:i]), self.choice([" ", "\n    "]), self.choice([" ", "\n\t"]), self.q(s[i:]))
        if "'" not in s and "\n" not in s and self.some(0.4):
            return "'%s'" % s
        return plain

    def text(self):
        return self.q(self.choice(TEXTS))

    def doc(self, p=0.3, status=True):
        out = []
        if self.some(p):
            out.append("description %s;" % self.text())
        if self.some(p / 3):
            out.append("reference %s;" % self.text())
        if status and self.some(p / 3):
            out.append("status current;")
        return out

    def error(self):
        """Substatements of must, range, length and pattern."""
        out = []
        if self.some():
            out.append("error-message %s;" % self.text())
        if self.some():
            out.append("error-app-tag %s;" % self.text())
        return out + self.doc(status=False)

    def braced(self, head, body):
        return "%s {\n    %s\n  }" % (head, "\n    ".join(body)) if body else head + ";"

    def must(self, p=0.2):
        return [self.braced("must %s" % self.q(self.choice(XPATHS)), self.error())] if self.some(p) else []

    def when(self, p=0.12):
        if not self.some(p):
            return []
        return [self.braced("when %s" % self.q(self.choice(XPATHS)), self.doc(status=False))]

    def feature(self, part, p=0.15):
        fs = self.feats.get(part)
        return ["if-feature %s;" % self.q(self.choice(fs))] if fs and self.some(p) else []

    def defs(self, part):
        return [self.braced("feature %s" % f, self.doc()) for f in self.feats.get(part, [])]

    def head(self, part):
        """After the imports and includes of a module."""
        out = []
        for k in ("organization", "contact", "description", "reference"):
            if self.some():
                out.append("%s %s;" % (k, self.text()))
        for x in self.dates.get(part, []):
            out.append(self.braced("revision %s" % x, self.doc(status=False)))
        return out

    def at(self, part):
        """In an import or include of a module."""
        if part in self.dates and part not in self.v11 and self.some(0.4):
            return " revision-date %s;" % self.q(self.dates[part][0])
        return ""

    def node(self, k, part, key, free):
        """For a data node: of what it is, in which module or submodule, is it a key, may it be mandatory?"""
        kind = k["k"]
        out = self.doc(status=True) if k.get("desc") is None else []
        if not key:
            out += self.feature(part) + self.when()
        if kind in ("leaf", "leaf-list", "list", "container"):
            out += self.must()
        if kind in ("leaf", "leaf-list") and self.some(0.2):
            out.append("units %s;" % self.text())
        if kind == "leaf" and not key and self.some(0.2):
            t = free and k.get("default") is None and k["type"]["t"] != "ref" and self.some(0.7)
            out.append("mandatory %s;" % ("true" if t else "false"))
        if kind in ("leaf-list", "list"):
            if self.some(0.2):
                out.append("min-elements %d;" % (self.choice([0, 1, 3]) if free else 0))
            if self.some(0.2):
                out.append("max-elements %s;" % self.choice(["unbounded", "3", "1" if not free else "4"]))
        if kind == "list":
            ls = [x["name"] for x in k.get("kids", []) if x["k"] == "leaf" and x.get("config") is None and
                  x["name"] not in (k.get("keys") or [])]
            if ls and free and self.some(0.25):
                out.append("unique %s;" % self.q(" ".join(self.sample(ls, self.randint(1, min(2, len(ls)))))))
        self.shuffle(out)
        return out

    def comment(self):
        return self.choice(["// it's \"a\" comment; {", "/* a comment */", "/* two\n   lines } ' \" */", "//", "/**/"])

    def mix(self, a, b):
        """The lines of b at places among the statements of a (each of which is a list of lines)."""
        for x in b:
            a.insert(self.randint(0, len(a)), x)
        return a
