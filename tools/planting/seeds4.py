import sys; sys.path.insert(0,'/tmp')
from mkseed import *
H='pyangbind/helpers/identity.py'
mk('c14-order-text', 'C14', [(S, '''key_order = [kdict[k] for k in sorted(kdict)]''', '''key_order = [kdict[k] for k in sorted(kdict, key=str)]''')], '''
import pyangbind.lib.pybindJSON as J
b = bindings(mod("""list l { key k; ordered-by user; leaf k { type string; } }"""))
x = b.m()
for i in range(12):
    x.l.add("k%d" % i)
y = J.loads(json.loads(J.dumps(x)), b, "m")
assert list(y.l.keys()) == list(x.l.keys()), list(y.l.keys())
''', 'a list ordered by users with more than ten entries', 'the order of the entries of long user-ordered lists is lost when JSON is loaded')
mk('c15-list-namespace', 'C15', [(S, '''                    generate_ietf_tree(i, parent_namespace=element._namespace, flt=flt, with_defaults=with_defaults)
                    for i in element.itervalues()''', '''                    generate_ietf_tree(i, parent_namespace=parent_namespace, flt=flt, with_defaults=with_defaults)
                    for i in element.itervalues()''')], '''
import pyangbind.lib.pybindJSON as J
b = bindings({"m": mod("container c { }"), "n": mod("""import m { prefix m; }
  augment "/m:c" { list l { key k; leaf k { type string; } leaf v { type string; } } }""", "n")})
x = b.m()
x.c.l.add("a").v = "b"
d = json.loads(J.dumps(x, mode="ietf"))
assert d == {"m:c": {"n:l": [{"k": "a", "v": "b"}]}}, d
''', 'a list that another module adds by an augment', 'the members of entries of a list of another module than its parent are named with the module')
mk('c17-path-bracket', 'C17', [(J, '''                i = i.split("[")[0]''', '''                i = i[: i.rindex("[")]''')], '''
import pyangbind.lib.pybindJSON as J
b = bindings(mod("""list l { key k; leaf k { type string; } container c { leaf a { type string; } leaf z { type string; } } }"""))
x = b.m()
e = x.l.add("a[1]")
e.c.a = e.c.z = "x"
d = json.loads(J.dumps(e, skip_subtrees=["/l/c/a"]))
assert d["c"] == {"z": "x"}, d
''', 'an entry dumped on its own, with a bracket in its key', 'subtrees of an entry whose key has a bracket are not skipped')
mk('c18-skip-in-list', 'C18', [(S, '''                        obj=parent,
                        path_helper=path_helper,
                        skip_unknown=skip_unknown,
''', '''                        obj=parent,
                        path_helper=path_helper,
''')], '''
from pyangbind.lib.serialise import pybindJSONDecoder
b = bindings(mod("""list l { key k; leaf k { type string; } container c { leaf a { type string; } } }"""))
x = pybindJSONDecoder.load_json({"l": {"a": {"k": "a", "c": {"a": "1", "other": 5}}}}, b, "m", skip_unknown=True)
assert x.l["a"].c.a == "1"
''', 'an unknown member within an entry of a list', 'unknown members are not skipped within the entries of a list')
mk('c19-helper-root', 'C19', [(X, '''        self._library = {}
        self._library["root"] = FakeRoot()
''', '''        self._library["root"] = FakeRoot()
'''), (X, '''    def __init__(self):
        # Initialise an empty library and a new''', '''    _library = {}

    def __init__(self):
        # Initialise an empty library and a new''')], '''
from pyangbind.lib.xpathhelper import YANGPathHelper
b = bindings(mod("container c { leaf a { type string; } }"), "--use-xpathhelper")
p, q = YANGPathHelper(), YANGPathHelper()
x, y = b.m(path_helper=p), b.m(path_helper=q)
assert p.get("/c") == [x.c] and q.get("/c") == [y.c]
assert p.get("/")[0].c is x.c, "the root of another helper"
''', 'two path helpers in one program', 'all path helpers have the root of the one made last')
mk('c21-caller-entry', 'C21', [(Y, '''                kwargs["caller"] = self._register_path()
''', '''                kwargs["caller"] = self._parent._path() + [self._yang_name] if self._parent is not None else []
''')], '''
b = bindings(mod("""list l { key k; leaf k { type string; } container c { leaf a { type string; } } }"""), "--use-extmethods")


class Ext(object):
    def commit(self, *args, **kwargs):
        return kwargs["caller"]


x = b.m(extmethods={"/l": Ext(), "/l/c": Ext()})
e = x.l.add("a")
assert e.c._commit() == ["l[k='a']", "c"], e.c._commit()
assert e._commit() == ["l[k='a']"], e._commit()
''', 'a method of the entries of a list', 'methods of entries of lists are called with the path of the list')
mk('c03-zero-bound', 'C03', [(Y, '''                            if check_tuple[0] is not None and value < check_tuple[0]:''', '''                            if check_tuple[0] and value < check_tuple[0]:''')], '''
b = bindings(mod("""leaf a { type int32 { range "0..10"; } } leaf b { type int32 { range "-5..-1 | 0..max"; } }
  leaf c { type decimal64 { fraction-digits 2; range "0..10"; } }"""))
x = b.m()
x.a, x.b, x.c = 0, -5, 1
assert refused(setattr, x, "a", -1)
assert refused(setattr, x, "b", -6)
assert refused(setattr, x, "c", -0.5)
''', 'a range that starts at zero, of a signed type', 'values below a range that starts at zero are accepted')
mk('c11-unpresent', 'C11', [(Y, '''            if present is False:
                self._mchanged = False
''', '''            if present is False and self._parent is None:
                self._mchanged = False
''')], '''
b = bindings(mod("""container c { presence "p"; leaf a { type string; } }"""), "--presence")
x = b.m()
x.c._set_present()
assert x.c._changed()
x.c._set_present(present=False)
assert not x.c._present() and not x.c._changed(), "changed, although nothing is there"
''', 'a container that was present and is not any more', 'a container that is not present any longer is still reported as changed')
mk('c08-half-entry', 'C08', [(Y, '''            k = self._extract_key''', '''            k = self._extract_key''')], '''
''', '', '') if 0 else None
