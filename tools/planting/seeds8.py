import sys; sys.path.insert(0,'/tmp')
from mkseed import *
mk('c01-safe-name', 'C01', [(Y, '''    arg = arg.replace("-", "_")
    arg = arg.replace(".", "_")
    if arg in reserved_name:
        arg += "_"
''', '''    if arg in reserved_name:
        arg += "_"
    arg = arg.replace("-", "_")
    arg = arg.replace(".", "_")
''')], '''
b = bindings(mod("""container c { leaf a { type string; } leaf yang-name { type string; } leaf class { type string; } }"""))
x = b.m()
x.c.class_ = "s"
assert x.c.yang_name() == "c"
x.c.yang_name_ = "v"
assert x.get(filter=True) == {"c": {"class": "s", "yang-name": "v"}}
''', 'a node whose name is reserved once its hyphen is an underscore', 'the node hides the method of that name')
mk('c22-entry-alias', 'C22', [(Y, '''                        tmp = YANGDynClass(
                            v,
                            base=self._contained_class,
''', '''                        tmp = v if getattr(v, "_parent", None) is None and hasattr(v, "_mchanged") else YANGDynClass(
                            v,
                            base=self._contained_class,
''')], '''
b = bindings(mod("""container c { list l { key "k"; leaf k { type string; } leaf v { type int8; } } } container d { list l { key "k"; leaf k { type string; } leaf v { type int8; } } }"""))
x, y = b.m(), b.m()
e = x.c.l.add("a")
e.v = 1
y.c.l["a"] = e
e.v = 2
assert y.c.l["a"].v == 1
''', '?', '?') if 0 else None
mk('c22-entry-alias', 'C22', [(Y, '''                    self._members[k] = tmp

                except ValueError as m:
''', '''                    # (an entry of the same list of another tree is complete already)
                    same = v is not None and not path_helper and v._path() == register_path
                    self._members[k] = v if same else tmp

                except ValueError as m:
''')], '''
b = bindings(mod("""container c { list l { key "k"; leaf k { type string; } leaf v { type int8; } } }"""))
x, y = b.m(), b.m()
e = x.c.l.add("a")
e.v = 1
y.c.l["a"] = e
assert y.c.l["a"].v == 1
e.v = 2
assert y.c.l["a"].v == 1
''', 'an entry of a list assigned to the same list of another tree, under the same key', 'the entry is shared between the trees')
