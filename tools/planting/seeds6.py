import sys; sys.path.insert(0,'/tmp')
from mkseed import *
P='pyangbind/plugin/pybind.py'; X='pyangbind/lib/xpathhelper.py'; B='pyangbind/lib/base.py'; Y='pyangbind/lib/yangtypes.py'; S='pyangbind/lib/serialise.py'
mk('c01-list-config', 'C01', [(P, '''                element,
                npath,
                parent_cfg=parent_cfg,
''', '''                element,
                npath,
                parent_cfg=parent_cfg or element.keyword == "list",
''')], '''
b = bindings(mod("""container st { config false; list l { key "k"; leaf k { type string; } container c { leaf x { type string; } } } }"""))
x = b.m()
e = x.st.l.add("a")
assert e.c._is_config is False
assert e.c.x._is_config is False
assert refused(setattr, e.c, "x", "v", exc=AttributeError)
''', 'a container within a list within a config false container', 'containers below read-only lists are read-only, their contents not') if 0 else None
mk('c02-split-presence', 'C02', [(P, '''                if (hasattr(ch, "i_children") and len(ch.i_children)) or (
                    ctx.opts.generate_presence and ch.search_one("presence")
                ):
                    imports.append(ch.arg)


def''', '''                if hasattr(ch, "i_children") and len(ch.i_children):
                    imports.append(ch.arg)


def''')], '''
import glob
open("m.yang", "w").write(mod("""container a { presence "p"; } container b { presence "p"; leaf x { type string; } }"""))
p = subprocess.run(["pyang", "--plugindir", REPO + "/pyangbind/plugin", "-f", "pybind", "-p", ".", "--presence", "--split-class-dir", "split", "m.yang"], stderr=subprocess.PIPE, text=True)
assert p.returncode == 0, p.stderr
sys.path.insert(0, os.getcwd())
import split
x = split.m()
x.a._set_present()
assert x.a._present() is True
''', 'a presence container without children, split classes', 'bindings written to a directory do not import when a presence container is empty')
mk('c06-leaflist-union', 'C06', [(P, '''                    allowed_types = []
                    for subtype in elemtype:
                        # nested union''', '''                    allowed_types = []
                    for subtype in elemtype[:3]:
                        # nested union''')], '''
b = bindings(mod("""leaf-list l { type union { type uint8; type boolean; type enumeration { enum a; } type string { length "3"; } } }"""))
x = b.m()
x.l.append("xyz")
assert list(x.l) == ["xyz"]
''', 'a leaf-list of a union with at least four members', 'the fourth and later members of the union of a leaf-list are ignored')
mk('c06-nested-typedef', 'C06', [(P, '''                                if isinstance(subtype[1]["native_type"], list):
                                    allowed_types.extend(subtype[1]["native_type"])
                                else:''', '''                                if isinstance(subtype[1]["native_type"], list):
                                    allowed_types[:0] = subtype[1]["native_type"]
                                else:''')], '''
b = bindings(mod("""typedef u { type union { type string; type uint8; } } leaf-list l { type union { type int16; type u; } }"""))
x = b.m()
x.l.append(5)
assert list(x.l) == [5] and isinstance(x.l[0], int), x.l
''', 'a leaf-list of a union in which a typedef of a union is not the first member', 'members of a typedef come before the ones in front of it')
mk('c08-state-case', 'C08', [(P, '''            elif not parent_cfg:
                rw = False
''', '''            elif not parent_cfg and not i["choice"]:
                rw = False
''')], '''
b = bindings(mod("""container st { config false; choice c { case a { leaf x { type string; } } leaf y { type string; } } leaf z { type string; } }"""))
x = b.m()
assert refused(setattr, x.st, "z", "v", exc=AttributeError)
assert refused(setattr, x.st, "x", "v", exc=AttributeError)
assert refused(setattr, x.st, "y", "v", exc=AttributeError)
''', 'a choice in a config false container', 'leaves of cases in read-only containers can be written') if 0 else None
mk('c09-false-present', 'C09', [(B, '''                elif element._changed() or element._present() is True:
                    d[element_id] = element
                else:
                    # changed''', '''                elif element._changed() and not (element._default is not False and element == element._default):
                    d[element_id] = element
                else:
                    # changed''')], '''
b = bindings(mod("""leaf a { type uint8; default "3"; } leaf b { type uint8; }"""))
x = b.m()
x.a = 3
x.b = 0
d = x.get(filter=True)
assert d == {"a": 3, "b": 0}, d
''', 'a leaf that was set to the value of its default', 'leaves set to their default are missing from filtered output')
mk('c20-dotdot', 'C20', [(X, '''                            lookup = caller[:-1] + remaining_path[2:]
''', '''                            lookup = caller[:-1] + [p for p in remaining_path[2:] if p != ".."]
''')], '''
from pyangbind.lib.xpathhelper import YANGPathHelper
b = bindings(mod("""list l { key "k"; leaf k { type string; } leaf v { type string; } }
 container c { leaf want { type string; } container d { leaf want { type string; }
   leaf r { type leafref { path "/l[k = current()/../../want]/v"; } } } }"""), "--use-xpathhelper")
x = b.m(path_helper=YANGPathHelper())
x.l.add("a").v = "one"
x.l.add("b").v = "two"
x.c.want = "a"
x.c.d.want = "b"
x.c.d.r = "one"
assert x.c.d.r == "one"
assert refused(setattr, x.c.d, "r", "two", exc=ValueError)
''', 'a predicate that goes up more than one level from the leafref', 'current()/../../leaf is taken for current()/../leaf')
mk('c22-load-copy', 'C22', [(P, '''          setmethod(getattr(args[0], e), load=load)''', '''          setmethod(getattr(args[0], e))''')], '''
b = bindings(mod("""container c { list l { key "k"; leaf k { type string; } leaf v { type string; } container d { leaf w { type string; } } } }"""))
x, y = b.m(), b.m()
e = x.c.l.add("a"); e.v = "1"; e.d.w = "2"
y.c = x.c
assert y.get(filter=True) == x.get(filter=True)
''', 'copies of containers that hold lists', 'copying a container with list entries is refused')
mk('c19-tag-prefix', 'C19', [(X, '''                    if ":" in c and normalise_namespace:
                            c = c.split(":")[1]''', '''''')], '', '', '') if 0 else None
