import sys; sys.path.insert(0,'/tmp')
from mkseed import *
H='pyangbind/helpers/identity.py'
mk('c05-alias-prefix', 'C05', [(H, '''        if prefix not in self._imported_prefixes:
            self._imported_prefixes.append(prefix)
''', '''        if prefix not in self._imported_prefixes and len(self._imported_prefixes) < 2:
            self._imported_prefixes.append(prefix)
''')], '''
b = bindings({"_base": mod("identity root; identity near { base root; }", "_base").replace('prefix "_base"', 'prefix "bp"'),
              "m": mod("""import _base { prefix other; } identity far { base other:root; }
  leaf a { type identityref { base other:root; } }""")})
x = b.m()
for v in ("near", "far", "_base:near", "bp:near", "m:far", "other:near"):
    x.a = v
    assert str(x.a) == v
assert refused(setattr, x, "a", "nearer")
''', 'an identity of a module that another module imports with another prefix than its own', 'identities are refused with one of the prefixes their module is known by')
