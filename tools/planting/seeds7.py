import sys; sys.path.insert(0,'/tmp')
from mkseed import *
P='pyangbind/plugin/pybind.py'; X='pyangbind/lib/xpathhelper.py'; B='pyangbind/lib/base.py'; Y='pyangbind/lib/yangtypes.py'; S='pyangbind/lib/serialise.py'
mk('c01-config-report', 'C01', [(P, '''", is_config=%s" % (i["config"] and parent_cfg)''', '''", is_config=%s" % i["config"]''')], '''
b = bindings(mod("""container st { config false; container c { leaf x { type string; } } list l { key "k"; leaf k { type string; } leaf-list v { type int8; } } } container cf { leaf a { type string; } }"""))
x = b.m()
assert x.cf._is_config is True and x.cf.a._is_config is True
assert x.st._is_config is False
assert x.st.c._is_config is False
assert x.st.c.x._is_config is False
e = x.st.l.add("a")
assert e.v._is_config is False
''', 'nodes below a config false container, without a config statement of their own', 'state nodes report that they are configuration')
mk('c02-import-set', 'C02', [(P, '''            for im in import_req:
''', '''            for im in set(import_req):
''')], '''
import glob
open("m.yang", "w").write(mod(" ".join("container c%d { leaf x { type string; } }" % i for i in range(12))))
texts = []
for seed in "1", "2", "3":
    p = subprocess.run(["pyang", "--plugindir", REPO + "/pyangbind/plugin", "-f", "pybind", "-p", ".", "--split-class-dir", "split" + seed, "m.yang"],
                       stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED=seed))
    assert p.returncode == 0, p.stderr
    texts.append(open("split%s/__init__.py" % seed).read())
assert len(set(texts)) == 1
''', 'classes written to a directory, two runs with different hash seeds', 'the text that is generated depends on the hashes of names')
mk('c06-falsy-member', 'C06', [(Y, '''            if type_test is False:
''', '''            if not type_test:
''')], '''
b = bindings(mod("""leaf u { type union { type int8; type enumeration { enum none; } } } leaf s { type union { type int8; type string; } }"""))
x = b.m()
x.u = 5
x.u = "none"
x.u = 0
assert x.u == 0
x.s = ""
assert x.s == "" and x.s._changed()
''', 'a value of a union that is falsy, as 0 or the empty string', 'a union refuses values that its members take')
mk('c12-kwargs-order', 'C12', [(Y, '''                for kn in self._keyval.split(" "):
                    try:
                        keyargs[kn] = kwargs[kn]
''', '''                for kn in sorted(self._keyval.split(" ")):
                    try:
                        keyargs[kn] = kwargs[kn]
''')], '''
b = bindings(mod("""container c { list l { key "b a"; leaf a { type string; } leaf b { type string; } leaf v { type int8; } } }"""))
x = b.m()
e = x.c.l.add(a="A", b="B")
assert list(x.c.l) == ["B A"]
assert x.c.l["B A"].a == "A"
assert x.c.l["B A"].b == "B"
''', 'a list with several keys whose statement does not have them in alphabetical order, and add() with keyword arguments', 'the entry is found under a key with the parts in another order')
mk('c23-stale-annotation', 'C23', [(S, '''                obj._add_metadata(k, v)

''', '''                obj._metadata.setdefault(k, v)

''')], '''
import pyangbind.lib.pybindJSON as pj
from pyangbind.lib.serialise import pybindJSONDecoder
b = bindings(mod("""container c { leaf x { type string; } container d { leaf y { type string; } } }"""))
o = pybindJSONDecoder.load_ietf_json({"m:c": {"d": {"y": "1"}, "@d": {"q:n": 1}}}, b, "m")
assert o.c.d._metadata == {"q:n": 1}
pybindJSONDecoder.load_ietf_json({"m:c": {"d": {"y": "2"}, "@d": {"q:n": 2}}}, None, None, obj=o)
assert o.c.d._metadata == {"q:n": 2}, o.c.d._metadata
''', 'a document with annotations loaded onto a container that has the same annotation', 'the annotation keeps the value that it had')
mk('c11-unfiltered-present', 'C11', [(S, '''                if not len(d[yname]) and not present:
''', '''                if not len(d[yname]) and not (present and flt):
''')], '''
import json
import pyangbind.lib.pybindJSON as pj
b = bindings(mod("""container p { presence "x"; container e { presence "y"; } container f { leaf-list l { type int8; } } }"""), "--presence")
x = b.m()
x.p.e._set_present()
assert "e" in json.loads(pj.dumps(x, mode="ietf"))["m:p"]
doc = json.loads(pj.dumps(x, mode="ietf", filter=False))
assert "e" in doc["m:p"], doc
''', 'an empty presence container and an unfiltered IETF JSON dump', 'the container that is present is missing')
mk('c18-merge-leaflist', 'C18', [(S, '''                set_method = getattr(obj, "_set_%s" % safe_name(key))
                set_method(d[key], load=True)
''', '''                set_method = getattr(obj, "_set_%s" % safe_name(key))
                if pybind_attr == "TypedListType" and not overwrite:
                    for value in d[key]:
                        chobj.append(value)
                    continue
                set_method(d[key], load=True)
''')], '''
from pyangbind.lib.serialise import pybindJSONDecoder
b = bindings(mod("""container c { leaf-list l { type int8; } leaf x { type string; } }"""))
o = pybindJSONDecoder.load_json({"c": {"l": [1, 2]}}, b, "m")
assert list(o.c.l) == [1, 2]
pybindJSONDecoder.load_json({"c": {"l": [3], "x": "s"}}, None, None, obj=o)
assert list(o.c.l) == [3], list(o.c.l)
''', 'a document with a leaf-list that is loaded onto an object that already has values for it', 'the values are added to, and do not replace, those that are there')
mk('c15-small-long', 'C15', [(S, '''            return self.yangt_long(obj) if int_size == 64 else self.yangt_int(obj)
''', '''            # (what a double holds exactly does not need to be text)
            return self.yangt_long(obj) if int_size == 64 and abs(obj) >= 2**53 else self.yangt_int(obj)
''')], '''
import json
import pyangbind.lib.pybindJSON as pj
b = bindings(mod("""typedef big { type uint64; } container c { leaf a { type uint64; } leaf b { type big; } leaf u { type union { type int64; type boolean; } } }"""))
x = b.m()
x.c.a = 5
x.c.b = 6
x.c.u = 7
doc = json.loads(pj.dumps(x, mode="ietf"))["m:c"]
assert doc == {"a": "5", "b": "6", "u": "7"}, doc
''', 'a 64-bit integer type behind a typedef or in a union', 'values below 2**53 are written as numbers in IETF JSON')
mk('c08-same-key', 'C08', [(P, '    if parent is not None and load is False:\n      raise AttributeError("Cannot set keys directly when" +\n                             " within an instantiated list")\\n"""\n                )\n', '    if parent is not None and load is False and str(v) != str(self._get_%s()):\n      raise AttributeError("Cannot set keys directly when" +\n                             " within an instantiated list")\\n"""\n                    % i["name"]\n                )\n')], '\nb = bindings(mod(\'container c { list l { key "k"; leaf k { type string; } leaf v { type int8; } } }\'))\nx = b.m()\ne = x.c.l.add("a")\nassert refused(setattr, e, "k", "b", exc=AttributeError)\nassert refused(setattr, e, "k", "a", exc=AttributeError)\n', 'the key of an entry is set to the value that it has', 'the write is not refused')
