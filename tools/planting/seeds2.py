import sys; sys.path.insert(0,'/tmp')
from mkseed import *
mk('c04-min-length', 'C04', [(Y, '''                        low = int(low) * multiplier if not low == "min" else None
''', '''                        low = int(low) * multiplier if not low == "min" else multiplier
''')], '''
b = bindings(mod('leaf a { type string { length "min..3"; } }'))
x = b.m()
x.a = "abc"
assert refused(setattr, x, "a", "abcd")
x.a = ""
assert x.a == ""
''', 'a length with min as its lower bound, and an empty value', 'length "min..n" refuses the empty string')
mk('c05-one-prefix', 'C05', [(P, '''                for cpfx in ch.prefixes() + [None]:
''', '''                for cpfx in ch.prefixes()[:1] + [None]:
''')], '''
b = bindings({"_base": mod("identity root; identity near { base root; }", "_base").replace('prefix "_base"', 'prefix "bp"'),
              "m": mod("""import _base { prefix other; } identity far { base other:root; }
  leaf a { type identityref { base other:root; } }""")})
x = b.m()
for v in ("near", "far", "_base:near", "bp:near", "m:far", "other:near"):
    x.a = v
    assert str(x.a) == v
assert refused(setattr, x, "a", "nearer")
''', 'an identity of another module given with its second prefix', 'identities are only accepted with one of the prefixes their module is known by')
mk('c12-del-falsy', 'C12', [(Y, '''                for kn in self._keyval.split(" "):
                    try:
                        keyargs[kn] = kwargs[kn]
''', '''                for kn in sorted(self._keyval.split(" "), key=list(kwargs).index if set(kwargs) >= set(self._keyval.split(" ")) else None):
                    try:
                        keyargs[kn] = kwargs[kn]
''')], '''
b = bindings(mod('list l { key "a b"; leaf a { type string; } leaf b { type string; } }'))
x = b.m()
e = x.l.add(b="two", a="one")
assert list(x.l) == ["one two"], list(x.l)
assert "one two" in x.l
''', 'a list with several keys, and keyword arguments in another order than the key statement', 'the key has its parts in the order of the arguments')
mk('c07-unset-default', 'C07', [(P, '''                    class_str["arg"] = "base=%s" % i["type"]
                if "default" in i and not i["default"] is None:
''', '''                    class_str["arg"] = "base=%s" % i["type"]
                if "default" in i and not i["default"] is None and not i["choice"]:
''')], '''
b = bindings(mod('choice c { case one { leaf a { type string; default "x"; } } leaf b { type uint8; default 3; } }'))
x = b.m()
assert x.a.default() == "x", x.a.default()
assert x.b.default() == 3
''', 'a leaf with a default that is within a choice', 'the default is lost')
