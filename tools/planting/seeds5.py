import sys; sys.path.insert(0,'/tmp')
from mkseed import *
H='pyangbind/helpers/identity.py'
mk('c03-zero-bound', 'C03', [(Y, '''                            if check_tuple[1] is not None and value > check_tuple[1]:''', '''                            if check_tuple[1] and value > check_tuple[1]:''')], '''
b = bindings(mod("""leaf a { type int32 { range "-10..0"; } } leaf c { type decimal64 { fraction-digits 2; range "-7.5..0"; } }
  leaf s { type string { length "0 | 3"; } }"""))
x = b.m()
x.a, x.c, x.s = 0, -1, "abc"
assert refused(setattr, x, "a", 1)
assert refused(setattr, x, "c", 0.5)
assert refused(setattr, x, "s", "a")
''', 'a range or length that ends at zero', 'values above a range that ends at zero are accepted')
mk('c07-empty-default', 'C07', [(P, '''                    class_str["arg"] = "base=%s" % i["type"]
                if "default" in i and not i["default"] is None:''', '''                    class_str["arg"] = "base=%s" % i["type"]
                if "default" in i and i["default"]:''')], '''
b = bindings(mod("""leaf a { type string; default ""; } leaf b { type string; default "x"; }"""))
x = b.m()
assert x.b._default == "x"
assert x.a._default == "", x.a._default
assert x.get() == {"a": "", "b": "x"}
''', 'a default that is the empty string', 'a leaf whose default is the empty string has none')
mk('c16-key-names', 'C16', [(S, '''                for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
                    key_text''', '''                for pkv in chobj._keyval.split(" "):
                    ykv = pkv.rstrip("_").replace("_", "-")
                    key_text''')], '''
from pyangbind.lib.serialise import pybindIETFXMLEncoder as E, pybindIETFXMLDecoder as D
b = bindings(mod("""list l { key "the-key a_b"; leaf the-key { type string; } leaf a_b { type string; } }"""))
x = b.m()
x.l.add("p q")
y = D.decode(E.serialise(x), b, "m")
assert list(y.l.keys()) == ["p q"]
''', 'a list whose key has an underscore in its YANG name', 'entries of lists whose keys have an underscore in their name cannot be loaded from XML')
mk('c06-user-order', 'C06', [(P, '''"user_ordered": user_ordered,''', '''"user_ordered": user_ordered and not parent_cfg,''')], '', '', '') if 0 else None
