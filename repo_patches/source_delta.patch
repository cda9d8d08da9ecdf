From d87834ba0799230e29d7a341f988bad495a76df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 01/97] fix: assign bit positions numerically when a bits type
 omits them

A bit without a position statement aborted the plugin (max() over names), and
explicit positions were kept as strings, so position 10 sorted before 2.
---
 pyangbind/plugin/pybind.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index f4606e7..90f8c38 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1354,12 +1354,15 @@ def build_elemtype(ctx, et, prefix=False):
                 sys.exit(127)
         elif et.arg == "bits":
             allowed_bits = {}
+            next_pos = 0
             for bit in et.search("bit"):
                 position = bit.search_one("position")
                 if position is not None:
-                    pos = position.arg
+                    pos = int(position.arg)
                 else:
-                    pos = 1 + max(allowed_bits)
+                    # RFC7950 section 9.7.4.2: one more than the highest position so far
+                    pos = next_pos
+                next_pos = max(next_pos, pos + 1)
                 allowed_bits[bit.arg] = pos
             cls = "restricted-bits"
             elemtype = {
-- 
2.43.0


From b4cbddb843a86791010753d6f307c9d3e1d0f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 02/97] fix: support a union that is directly a member of
 another union

---
 pyangbind/plugin/pybind.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 90f8c38..9da2b2a 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -501,9 +501,13 @@ def build_typedefs(ctx, defnd):
         base_t = defnd[t].search_one("type")
         if base_t.arg == "union":
             subtypes = []
-            for i in base_t.search("type"):
+            members = base_t.search("type")
+            while members:
+                i = members.pop(0)
                 if i.arg == "identityref":
                     subtypes.append(i.search_one("base"))
+                elif i.arg == "union":
+                    members.extend(i.search("type"))
                 else:
                     subtypes.append(i)
         elif base_t.arg == "identityref":
@@ -1311,6 +1315,10 @@ def build_elemtype(ctx, et, prefix=False):
             elemtype = []
             for uniontype in et.search("type"):
                 elemtype_s = copy.deepcopy(build_elemtype(ctx, uniontype))
+                if isinstance(elemtype_s[1], list):
+                    # a union directly within a union contributes its own members
+                    elemtype.extend(elemtype_s[1])
+                    continue
                 elemtype_s[1]["yang_type"] = uniontype.arg
                 elemtype.append(elemtype_s)
             cls = "union"
-- 
2.43.0


From e24c44d3b7263680aba582f852da9e29182d659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 03/97] fix: resolve typedefs and identity bases by definition
 rather than by name

Typedefs were looked up by the name written in the module, so equal names or
prefixes in different modules were confused, a typedef from a submodule could
not be used through an import with another prefix, and typedefs scoped to a
choice, case or augment were not found.
---
 pyangbind/helpers/misc.py  | 13 +++++-
 pyangbind/plugin/pybind.py | 85 +++++++++++++++++++-------------------
 2 files changed, 55 insertions(+), 43 deletions(-)

diff --git a/pyangbind/helpers/misc.py b/pyangbind/helpers/misc.py
index c4d2619..9193d62 100644
--- a/pyangbind/helpers/misc.py
+++ b/pyangbind/helpers/misc.py
@@ -38,7 +38,18 @@ def find_child_definitions(obj, defn, prefix, definitions):
         else:
             definitions["%s:%s" % (prefix, i.arg)] = i
 
-    possible_parents = ["grouping", "container", "list", "rpc", "input", "output", "notification"]
+    possible_parents = [
+        "grouping",
+        "container",
+        "list",
+        "choice",
+        "case",
+        "augment",
+        "rpc",
+        "input",
+        "output",
+        "notification",
+    ]
 
     for parent_type in possible_parents:
         for ch in obj.search(parent_type):
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 9da2b2a..0dc0ec9 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -393,9 +393,16 @@ long = int
             for k in t:
                 if k not in defn[defnt]:
                     defn[defnt][k] = t[k]
+                elif defn[defnt][k] is not t[k]:
+                    # The same prefix and name denote another definition in a different
+                    # module (or scope), use a name that cannot appear in a module.
+                    unique = "%s/%s:%s" % (m[1].arg, t[k].pos.line, t[k].arg)
+                    defn[defnt].setdefault(unique, t[k])
 
     # Build the identities and typedefs (these are added to the class_map which
-    # is globally referenced).
+    # is globally referenced). The name that a typedef statement is stored by is
+    # kept, such that references to it can be found.
+    ctx.pybind_typedef_names = {}
     build_identities(ctx, defn["identity"])
     build_typedefs(ctx, defn["typedef"])
 
@@ -489,11 +496,8 @@ def build_typedefs(ctx, defnd):
         unresolved_tc[i] = 0
     unresolved_t = list(defnd.keys())
     error_ids = []
-    known_types = list(class_map.keys())
-    known_types.append("enumeration")
-    known_types.append("leafref")
-    known_types.append("bits")
-    base_types = copy.deepcopy(known_types)
+    pending_names = dict(defnd)
+    pending = set(defnd.values())
     process_typedefs_ordered = []
 
     while len(unresolved_t):
@@ -517,39 +521,17 @@ def build_typedefs(ctx, defnd):
 
         any_unknown = False
         for i in subtypes:
-            # Resolve this typedef to the module that it
-            # was defined by
-
-            if ":" in i.arg:
-                defining_module = util.prefix_to_module(
-                    defnd[t].i_module, i.arg.split(":")[0], defnd[t].pos, ctx.errors
-                )
-            else:
-                defining_module = defnd[t].i_module
-
-            belongs_to = defining_module.search_one("belongs-to")
-            if belongs_to is not None:
-                for mod in ctx.modules:
-                    if mod[0] == belongs_to.arg:
-                        defining_module = ctx.modules[mod]
-
-            real_pfx = defining_module.search_one("prefix").arg
-
-            if ":" in i.arg:
-                tn = "%s:%s" % (real_pfx, i.arg.split(":")[1])
-            elif i.arg not in base_types:
-                # If this was not a base type (defined in YANG) then resolve it
-                # to the module it belongs to.
-                tn = "%s:%s" % (real_pfx, i.arg)
-            else:
-                tn = i.arg
-
-            if tn not in known_types:
+            # pyang resolves each reference to a typedef to the statement that defines
+            # it, names are not sufficient as they are local to a module. References to
+            # an identity are already known, and need no ordering.
+            typedef_stmt = getattr(i, "i_typedef", None)
+            if typedef_stmt is not None and typedef_stmt in pending:
                 any_unknown = True
 
         if not any_unknown:
             process_typedefs_ordered.append((t, defnd[t]))
-            known_types.append(t)
+            del pending_names[t]
+            pending = set(pending_names.values())
         else:
             unresolved_tc[t] += 1
             if unresolved_tc[t] > 1000:
@@ -647,6 +629,7 @@ def build_typedefs(ctx, defnd):
                 class_map[type_name]["quote_default"] = default[1]
 
         class_map[type_name.split(":")[1]] = class_map[type_name]
+        ctx.pybind_typedef_names[item] = type_name
 
 
 def get_children_elements(
@@ -1222,11 +1205,29 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def class_map_type_name(ctx, et):
+    # Determine the name by which the type that a statement refers to is stored in
+    # the class_map. Typedefs are found through the statement that pyang resolved the
+    # reference to, since the same name can have other meanings in other modules.
+    return ctx.pybind_typedef_names.get(getattr(et, "i_typedef", None), et.arg)
+
+
+def class_map_identity_name(base_stmt):
+    # As class_map_type_name, for the base of an identityref.
+    identity = getattr(base_stmt, "i_identity", None)
+    if identity is not None:
+        name = "%s:%s" % (identity.main_module().arg, identity.arg)
+        if name in class_map:
+            return name
+    return base_stmt.arg
+
+
 def build_elemtype(ctx, et, prefix=False):
     # Build a dictionary which defines the type for the element. This is used
     # both in the case that a typedef needs to be built, as well as on per-list
     # basis.
     cls = None
+    type_name = class_map_type_name(ctx, et)
     pattern_stmt = et.search_one("pattern") if not et.search_one("pattern") is None else False
     range_stmt = et.search_one("range") if not et.search_one("range") is None else False
     length_stmt = et.search_one("length") if not et.search_one("length") is None else False
@@ -1258,18 +1259,18 @@ def build_elemtype(ctx, et, prefix=False):
             cls = "restricted-%s" % (et.arg)
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (class_map[type_name]["native_type"], repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name,
                 "base_type": False,
             }
         elif "range" in restrictions:
             cls = "restricted-%s" % et.arg
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (class_map[type_name]["native_type"], repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name,
                 "base_type": False,
             }
 
@@ -1319,7 +1320,7 @@ def build_elemtype(ctx, et, prefix=False):
                     # a union directly within a union contributes its own members
                     elemtype.extend(elemtype_s[1])
                     continue
-                elemtype_s[1]["yang_type"] = uniontype.arg
+                elemtype_s[1]["yang_type"] = class_map_type_name(ctx, uniontype)
                 elemtype.append(elemtype_s)
             cls = "union"
         # Map leafrefs to a ReferenceType, handling the referenced path, and
@@ -1352,7 +1353,7 @@ def build_elemtype(ctx, et, prefix=False):
             if base_stmt is None:
                 raise ValueError("identityref specified with no base statement")
             try:
-                elemtype = class_map[base_stmt.arg]
+                elemtype = class_map[class_map_identity_name(base_stmt)]
             except KeyError:
                 sys.stderr.write("FATAL: identityref with an unknown base\n")
                 if DEBUG:
@@ -1385,7 +1386,7 @@ def build_elemtype(ctx, et, prefix=False):
             # at this point. In the case that we are referencing a type that is a
             # typedef, then this has been added to the class_map.
             try:
-                elemtype = class_map[et.arg]
+                elemtype = class_map[type_name]
             except KeyError:
                 passed = False
                 if prefix:
-- 
2.43.0


From 6706087b77ebf0243fbf465eb9f04fbe0beba24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 04/97] fix: resolve the type of a default against every member
 of a union

---
 pyangbind/plugin/pybind.py | 59 +++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 0dc0ec9..1e90337 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -34,10 +34,30 @@ from pyang import plugin, statements, util
 
 import pyangbind.helpers.misc as misc_help
 from pyangbind.helpers.identity import IdentityStore
-from pyangbind.lib.yangtypes import RestrictedClassType, YANGBool, safe_name, YANGBinary, YANGBitsType
+from pyangbind.lib.yangtypes import (
+    RestrictedClassType,
+    RestrictedPrecisionDecimalType,
+    YANGBinary,
+    YANGBitsType,
+    YANGBool,
+    safe_name,
+)
 
 long = int
 
+# The names that the native types of the class_map are built from, used where a
+# type must be instantiated in order to determine whether a value is valid for it.
+native_type_namespace = {
+    "Decimal": decimal.Decimal,
+    "ReferenceType": str,
+    "RestrictedClassType": RestrictedClassType,
+    "RestrictedPrecisionDecimalType": RestrictedPrecisionDecimalType,
+    "YANGBinary": YANGBinary,
+    "YANGBitsType": YANGBitsType,
+    "YANGBool": YANGBool,
+    "long": long,
+}
+
 DEBUG = True
 if DEBUG:
     import pprint
@@ -1414,21 +1434,28 @@ def build_elemtype(ctx, et, prefix=False):
 
 
 def find_absolute_default_type(default_type, default_value, elemname):
-    if not isinstance(default_type, list):
+    if isinstance(default_type, list):
+        members = [i[1] for i in default_type]
+    elif isinstance(default_type["native_type"], list):
+        # a typedef that is a union
+        members = [default_type]
+    else:
         return default_type
 
-    for i in default_type:
-        if not i[1]["base_type"]:
-            test_type = class_map[i[1]["parent_type"]]
-        else:
-            test_type = i[1]
-        try:
-            test_type["pytype"](default_value)
-            default_type = test_type
-            break
-        except (ValueError, TypeError):
-            pass
-    return find_absolute_default_type(default_type, default_value, elemname)
+    # The default belongs to the first member of the union that accepts it
+    for member in members:
+        native_types = member["native_type"]
+        if not isinstance(native_types, list):
+            native_types = [native_types]
+        for native_type in native_types:
+            try:
+                eval(native_type, native_type_namespace)(default_value)
+            except Exception:
+                continue
+            if native_type == "ReferenceType":
+                native_type = "str"
+            return {"native_type": native_type, "base_type": True, "quote_arg": True}
+    raise TypeError("default %s of %s does not match any type of its union" % (default_value, elemname))
 
 
 def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=False, register_paths=True):
@@ -1585,7 +1612,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
         if elemdefault is not None:
             elemdefault = elemdefault.arg
             default_type = elemtype
-        if isinstance(elemtype, list):
+        elif isinstance(elemtype, list):
             # this is a union, we should check whether any of the types
             # immediately has a default
             for i in elemtype:
@@ -1648,7 +1675,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             # the default was set at a level where there was not
             # a single option for the type. check the default
             # against each option, to get a to a single default_type
-            if isinstance(default_type, list):
+            if isinstance(default_type, list) or isinstance(default_type["native_type"], list):
                 default_type = find_absolute_default_type(default_type, elemdefault, element.arg)
 
             if not default_type["base_type"]:
-- 
2.43.0


From 46d95cab2c61c406fa996787825883bcae531b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 05/97] fix: inherit the default of a typedef that another
 typedef is derived from

---
 pyangbind/plugin/pybind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 1e90337..49dfcc7 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -603,6 +603,9 @@ def build_typedefs(ctx, defnd):
                 class_map[type_name]["parent_type"] = yang_type
             if default_stmt is not None:
                 class_map[type_name]["default"] = default_stmt.arg
+            elif "default" in elemtype:
+                # RFC7950 section 7.3.4: the default of the base type is inherited
+                class_map[type_name]["default"] = elemtype["default"]
             if "referenced_path" in elemtype:
                 class_map[type_name]["referenced_path"] = elemtype["referenced_path"]
                 class_map[type_name]["class_override"] = "leafref"
-- 
2.43.0


From e852567e349b20d682cc9f634bb57e988a06c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 06/97] fix: escape defaults and descriptions that are written
 to the bindings

---
 pyangbind/plugin/pybind.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 49dfcc7..b844842 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -831,7 +831,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         # code that is generated.
         parent_descr = parent.search_one("description")
         if parent_descr is not None:
-            parent_descr = "\n\n  YANG Description: %s" % parent_descr.arg
+            parent_descr = "\n\n  YANG Description: %s" % escape_docstring(parent_descr.arg)
         else:
             parent_descr = ""
 
@@ -891,7 +891,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             # extension that were provided with the leaf, etc.).
             class_str = {}
             if "default" in i and not i["default"] is None:
-                default_arg = '"%s"' % (i["default"]) if i["quote_arg"] else "%s" % i["default"]
+                default_arg = repr(i["default"]) if i["quote_arg"] else "%s" % i["default"]
 
             if i["class"] == "leaf-list":
                 # Map a leaf-list to the type specified in the class map. This is a
@@ -1112,7 +1112,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             c_str = classes[i["name"]]
             description_str = ""
             if i["description"]:
-                description_str = "\n\n    YANG Description: %s" % i["description"]
+                description_str = "\n\n    YANG Description: %s" % escape_docstring(i["description"])
             nfd.write(
                 '''
   def _get_%s(self):
@@ -1163,7 +1163,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 """      raise ValueError({
           'error-string': \"\"\"%s must be of a type compatible with %s\"\"\",
           'defined-type': "%s",
-          'generated-type': \"\"\"%s(%s)\"\"\",
+          'generated-type': %s,
         })\n\n"""
                 % (
                     i["name"],
@@ -1173,8 +1173,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                         if ":" not in i["origtype"] and not i["origtype"] in YANG_BUILTIN_TYPES
                         else i["origtype"]
                     ),
-                    c_str["type"],
-                    c_str["arg"],
+                    repr("%s(%s)" % (c_str["type"], c_str["arg"])),
                 )
             )
             nfd.write("    self.__%s = t\n" % (i["name"]))
@@ -1228,6 +1227,12 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def escape_docstring(text):
+    # Text from the YANG module must not be able to end the docstring it is put in,
+    # or to form escape sequences.
+    return text.replace("\\", "\\\\").replace('"', '\\"')
+
+
 def class_map_type_name(ctx, et):
     # Determine the name by which the type that a statement refers to is stored in
     # the class_map. Typedefs are found through the statement that pyang resolved the
-- 
2.43.0


From 30657c10358184af08920d95d080aa96b2e66cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 07/97] fix: build the default of a typedef derived from bits
 with the bits it allows

---
 pyangbind/plugin/pybind.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b844842..c5f0da9 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1702,7 +1702,11 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                                 to_visit.extend(tmp_class_map[check]["parent_type"])
                             else:
                                 to_visit.append(tmp_class_map[check]["parent_type"])
+                derived_type = default_type
                 default_type = tmp_class_map[checked.pop()]
+                if default_type is class_map["bits"]:
+                    # the bits that are allowed are only known by the derived type
+                    default_type = dict(default_type, native_type=derived_type["native_type"])
                 if not default_type["base_type"]:
                     raise TypeError("default type was not a base type")
 
-- 
2.43.0


From e9eb1d64023a5bf49903b9d63feaed56dcf85f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 08/97] fix: do not pass decimal64 defaults through a float

---
 pyangbind/plugin/pybind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index c5f0da9..ace5c35 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -153,7 +153,7 @@ class_map = {
         ),
     },
     "string": {"native_type": "str", "base_type": True, "quote_arg": True, "pytype": str},
-    "decimal64": {"native_type": "Decimal", "base_type": True, "pytype": decimal.Decimal},
+    "decimal64": {"native_type": "Decimal", "base_type": True, "quote_arg": True, "pytype": decimal.Decimal},
     "empty": {
         "native_type": "YANGBool",
         "map": class_bool_map,
-- 
2.43.0


From 2155e65350497e426ed0edd860eb37514b1391fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 09/97] fix: keep defaults that are zero, false or empty

---
 pyangbind/lib/base.py      | 2 +-
 pyangbind/lib/yangtypes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/base.py b/pyangbind/lib/base.py
index 5853f33..e62b3bb 100644
--- a/pyangbind/lib/base.py
+++ b/pyangbind/lib/base.py
@@ -86,7 +86,7 @@ class PybindBase(object):
                 # this is an attribute that does not have get()
                 # method
                 if filter is False and not element._changed() and not element._present() is True:
-                    if element._default is not False and element._default:
+                    if element._default is not False:
                         d[element_id] = element._default
                     else:
                         d[element_id] = element
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 7e67e27..67ce3e3 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1062,7 +1062,7 @@ def YANGDynClass(*args, **kwargs):
                             if not hasattr(self, "_method"):
                                 setattr(self, "_" + method, self.__generate_extmethod(member))
 
-            if default:
+            if default is not False:
                 self._default = default
             if len(args):
                 self._set()
-- 
2.43.0


From 6601707a2f02acba277ee19618aea4035227d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 10/97] fix: match every pattern of a type against the entire
 value

---
 pyangbind/lib/yangtypes.py | 33 ++++++++++++---------------------
 pyangbind/plugin/pybind.py |  8 +++++---
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 67ce3e3..d026f6f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -232,25 +232,14 @@ def RestrictedClassType(*args, **kwargs):
 
             def convert_regexp(pattern):
                 # Some patterns include a $ character in them in some IANA modules, this
-                # is not escaped. Do some logic to escape them, whilst leaving one at the
-                # end of the string if it's there.
-                trimmed = False
-                if pattern[-1] == "$":
-                    tmp_pattern = pattern[:-1]
-                    trimmed = True
-                else:
-                    tmp_pattern = pattern
-                tmp_pattern = tmp_pattern.replace("$", r"\$")
-                pattern = tmp_pattern
-                if trimmed:
-                    pattern += "$"
-
-                if not pattern[0] == "^":
-                    pattern = "^%s" % pattern
-                if not pattern[len(pattern) - 1] == "$":
-                    pattern = "%s$" % pattern
-
-                return pattern
+                # is not escaped. Do some logic to escape them, whilst treating one at the
+                # end of the string as an anchor if it's there. Since patterns are always
+                # matched against the entire value, anchors are not needed.
+                if pattern.startswith("^"):
+                    pattern = pattern[1:]
+                if regex.search(r"(?<!\\)(\\\\)*\$$", pattern):
+                    pattern = pattern[:-1]
+                return regex.sub(r"(\\.)|\$", lambda m: m.group(1) or r"\$", pattern)
 
             def build_length_range_tuples(range, length=False, multiplier=1):
                 if range_regex.match(range_spec):
@@ -296,7 +285,7 @@ def RestrictedClassType(*args, **kwargs):
 
             def match_pattern_check(regexp):
                 def mp_check(value):
-                    if regex.match(convert_regexp(regexp), str(value)):
+                    if regex.fullmatch(convert_regexp(regexp), str(value)):
                         return True
                     return False
 
@@ -318,7 +307,9 @@ def RestrictedClassType(*args, **kwargs):
 
             for rtype, rarg in self._restriction_dict.items():
                 if rtype == "pattern":
-                    self._restriction_tests.append(match_pattern_check(rarg))
+                    # where there are multiple patterns, all of them must match
+                    for pattern in rarg if isinstance(rarg, list) else [rarg]:
+                        self._restriction_tests.append(match_pattern_check(pattern))
                 elif rtype == "range":
                     ranges = []
                     for range_spec in rarg:
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index ace5c35..8fef814 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1256,7 +1256,7 @@ def build_elemtype(ctx, et, prefix=False):
     # basis.
     cls = None
     type_name = class_map_type_name(ctx, et)
-    pattern_stmt = et.search_one("pattern") if not et.search_one("pattern") is None else False
+    pattern_stmts = et.search("pattern")
     range_stmt = et.search_one("range") if not et.search_one("range") is None else False
     length_stmt = et.search_one("length") if not et.search_one("length") is None else False
 
@@ -1264,8 +1264,10 @@ def build_elemtype(ctx, et, prefix=False):
     # and build a dictionary of the different restrictions to be placed on the
     # type.
     restrictions = {}
-    if pattern_stmt:
-        restrictions["pattern"] = pattern_stmt.arg
+    if len(pattern_stmts) == 1:
+        restrictions["pattern"] = pattern_stmts[0].arg
+    elif pattern_stmts:
+        restrictions["pattern"] = [i.arg for i in pattern_stmts]
 
     if length_stmt:
         if "|" in length_stmt.arg:
-- 
2.43.0


From adb6966a22671009bcfef2f1be3c1d8b96b28352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 11/97] fix: compare single values of a range without
 converting them to a float

---
 pyangbind/lib/yangtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d026f6f..94f2172 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -274,7 +274,10 @@ def RestrictedClassType(*args, **kwargs):
                             if check_tuple[1] is not None and value > check_tuple[1]:
                                 chk = False
                         elif len(check_tuple) == 1:
-                            if value != float(check_tuple[0]):
+                            # a decimal64 can be specified by a float that is only close to it
+                            if value != check_tuple[0] and not (
+                                isinstance(value, Decimal) and value == float(check_tuple[0])
+                            ):
                                 chk = False
                         else:
                             raise AttributeError("Invalid check tuple length specified")
-- 
2.43.0


From a8d29154700a4c19d4240643acbcea9d0da5540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 12/97] fix: number enums without a value from the highest
 value so far

---
 pyangbind/lib/yangtypes.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 94f2172..9c4103a 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -335,17 +335,13 @@ def RestrictedClassType(*args, **kwargs):
                         if k.startswith("@"):
                             new_rarg.pop(k, None)
                     # populate enum values
-                    used_values = []
-                    for k in new_rarg:
-                        if "value" in new_rarg[k]:
-                            used_values.append(int(new_rarg[k]["value"]))
-                    c = 0
-                    for k in new_rarg:
-                        while c in used_values:
-                            c += 1
+                    # RFC7950 section 9.6.4.2: one more than the highest value so far
+                    highest = -1
+                    for c, k in enumerate(new_rarg):
                         if "value" not in new_rarg[k]:
-                            new_rarg[k]["value"] = c
-                        c += 1
+                            new_rarg[k]["value"] = highest + 1
+                        value = int(new_rarg[k]["value"])
+                        highest = value if c == 0 else max(highest, value)
                     self._restriction_tests.append(in_dictionary_check(new_rarg))
                     self._enumeration_dict = new_rarg
                 else:
-- 
2.43.0


From c9212e9f8dbdf7ff0d34fe82ea2e0a00858abf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 13/97] fix: reject values that are not a decimal64 with a
 ValueError

---
 pyangbind/lib/yangtypes.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 9c4103a..961d806 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -27,7 +27,7 @@ import collections
 from collections import abc
 import copy
 import uuid
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 import regex
 
@@ -153,15 +153,21 @@ def RestrictedPrecisionDecimalType(*args, **kwargs):
             Overloads the decimal __new__ function in order to round the input
             value to the new value.
             """
-            if self._precision is not None:
-                if len(args):
-                    value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+            try:
+                if self._precision is not None:
+                    if len(args):
+                        value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+                    else:
+                        value = Decimal(0)
+                elif len(args):
+                    value = Decimal(args[0])
                 else:
                     value = Decimal(0)
-            elif len(args):
-                value = Decimal(args[0])
-            else:
-                value = Decimal(0)
+            except InvalidOperation:
+                raise ValueError("%s is not a valid decimal" % (args[0],))
+            # RFC7950 section 9.3: the digits of the value are a 64-bit signed integer
+            if not value.is_finite() or not -(2**63) <= value.scaleb(int(precision)) < 2**63:
+                raise ValueError("%s is out of the range of a decimal64" % (args[0],))
             obj = Decimal.__new__(self, value, **kwargs)
             return obj
 
@@ -265,6 +271,8 @@ def RestrictedClassType(*args, **kwargs):
                 def range_check(value):
                     if length:
                         value = len(value)
+                    elif isinstance(value, Decimal) and not value.is_finite():
+                        return False
                     range_results = []
                     for check_tuple in low_high_tuples:
                         chk = True
-- 
2.43.0


From df35d7d1c6b44c9fa228b554b9eb10d17176ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 14/97] fix: check the length of a binary on its value rather
 than on its base64 encoding

---
 pyangbind/lib/yangtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 961d806..abc874c 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -332,6 +332,9 @@ def RestrictedClassType(*args, **kwargs):
                         except Exception:
                             raise TypeError("must specify a numeric type for a range " + "argument")
                 elif rtype == "length":
+                    if val and issubclass(base_type, bytes):
+                        # the length of a binary is that of the value, not of its encoding
+                        val = base_type(val)
                     multiplier = 1
                     lengths = []
                     for range_spec in rarg:
-- 
2.43.0


From 13db2338747484120deba63d928502806bba628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 15/97] fix: accept bits in leaf-lists and from sets of names

---
 pyangbind/lib/yangtypes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index abc874c..f1fd1a0 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -450,7 +450,7 @@ def TypedListType(*args, **kwargs):
                             tmp = i(v)
                             passed = True
                             break
-                        elif attr == "RestrictedPrecisionDecimal":
+                        elif attr in ("RestrictedPrecisionDecimal", "YANGBits"):
                             tmp = i(v)
                             passed = True
                             break
@@ -1408,7 +1408,7 @@ def YANGBitsType(allowed_bits):
 
             if args:
                 value = args[0]
-                for bit in value.split():
+                for bit in value.split() if isinstance(value, str) else value:
                     self.add(bit)
 
         def _add_bit_definition(self, bit, position):
@@ -1433,8 +1433,9 @@ def YANGBitsType(allowed_bits):
             self._mchanged = True
 
         def pop(self):
-            super().pop()
+            bit = super().pop()
             self._mchanged = True
+            return bit
 
         def remove(self, bit):
             super().remove(bit)
-- 
2.43.0


From 686beea6a21762bfed753ac73df9a93739542eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 16/97] fix: keep leaf-lists unique when a value is converted
 to its type

---
 pyangbind/lib/yangtypes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index f1fd1a0..931fcbc 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -420,18 +420,21 @@ def TypedListType(*args, **kwargs):
                 if isinstance(args[0], list):
                     tmp = []
                     for i in args[0]:
+                        i = self._convert(i)
                         if not self._unique or i not in tmp:
-                            tmp.append(self.check(i))
+                            tmp.append(i)
                     self._list.extend(tmp)
                 else:
                     tmp = self.check(args[0])
                     self._list.append(tmp)
 
         def check(self, v):
-            # Short circuit uniqueness check
+            v = self._convert(v)
             if self._unique and v in self._list:
                 raise ValueError("Values in this list must be unique.")
+            return v
 
+        def _convert(self, v):
             passed = False
             count = 0
             for i in self._allowed_type:
@@ -494,8 +497,8 @@ def TypedListType(*args, **kwargs):
             self._list.insert(i, val)
 
         def append(self, v):
-            if not self._unique or v not in self._list:
-                val = self.check(v)
+            val = self._convert(v)
+            if not self._unique or val not in self._list:
                 self._list.append(val)
 
         def __str__(self):
-- 
2.43.0


From 0f7f5dc77af3df49105bd632eb7726e7f195af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 17/97] fix: keep the size of an integer that is restricted
 further

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 931fcbc..651b1db 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -185,7 +185,7 @@ def RestrictedClassType(*args, **kwargs):
     restriction_type = kwargs.pop("restriction_type", None)
     restriction_arg = kwargs.pop("restriction_arg", None)
     restriction_dict = kwargs.pop("restriction_dict", None)
-    int_size = kwargs.pop("int_size", None)
+    int_size = kwargs.pop("int_size", getattr(base_type, "_restricted_int_size", None))
 
     # this gives deserialisers some hints as to how to encode/decode this value
     # it must be a list since a restricted class can encapsulate a restricted
-- 
2.43.0


From e7ba5542a27625fe3e25e8b6bf225bb84472dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 18/97] fix: enforce every choice that a node is within

---
 pyangbind/lib/yangtypes.py | 43 +++++++++++++++++++++++++-------------
 pyangbind/plugin/pybind.py | 19 +++++++++--------
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 651b1db..e4b151a 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -696,6 +696,7 @@ def YANGListType(*args, **kwargs):
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
                             extmethods=self._parent._extmethods,
                             extensions=extensions,
+                            choice=self._choice,
                         )
                     else:
                         # hand the value to the init, rather than simply creating an empty
@@ -711,6 +712,7 @@ def YANGListType(*args, **kwargs):
                             extmethods=self._parent._extmethods,
                             load=True,
                             extensions=extensions,
+                            choice=self._choice,
                         )
 
                     if keydict is not None:
@@ -734,6 +736,7 @@ def YANGListType(*args, **kwargs):
                     path_helper=path_helper,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
+                    choice=self._choice,
                 )
                 return k
 
@@ -903,6 +906,26 @@ class YANGBool(int):
         return str(self.__repr__())
 
 
+def unset_other_cases(obj, choice):
+    """
+    Return the elements of obj that are within other cases than that of the child
+    which was set to their defaults. choice is the (choice, case) that this child is
+    a member of. Where this choice is itself within a case, it is followed by the
+    choice that the case belongs to.
+    """
+    choices = getattr(obj, "__choices__", {})
+    while choice:
+        for case in choices.get(choice[0], {}):
+            if not case == choice[1]:
+                for elem in choices[choice[0]][case]:
+                    method = "_unset_%s" % elem
+                    if not hasattr(obj, method):
+                        raise AttributeError("unmapped choice!")
+                    x = getattr(obj, method)
+                    x()
+        choice = choice[2] if len(choice) > 2 else False
+
+
 def YANGDynClass(*args, **kwargs):
     """
     Wrap an type - specified in the base_type arugment - with
@@ -1113,20 +1136,7 @@ def YANGDynClass(*args, **kwargs):
             return super(YANGBaseClass, self).__repr__()
 
         def _set(self, choice=False):
-            if hasattr(self, "__choices__") and choice:
-                for ch in self.__choices__:
-                    if ch == choice[0]:
-                        for case in self.__choices__[ch]:
-                            if not case == choice[1]:
-                                for elem in self.__choices__[ch][case]:
-                                    method = "_unset_%s" % elem
-                                    if not hasattr(self, method):
-                                        raise AttributeError("unmapped choice!")
-                                    x = getattr(self, method)
-                                    x()
-
-            if self._choice and not choice:
-                choice = self._choice
+            unset_other_cases(self, choice)
 
             self._mchanged = True
 
@@ -1134,7 +1144,10 @@ def YANGDynClass(*args, **kwargs):
                 self._cpresent = True
 
             if self._parent and hasattr(self._parent, "_set"):
-                self._parent._set(choice=choice)
+                self._parent._set(choice=self._choice)
+            elif self._parent:
+                # a module at the root of the tree
+                unset_other_cases(self._parent, self._choice)
 
         def _add_metadata(self, k, v):
             self._metadata[k] = v
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 8fef814..649b9c9 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -677,6 +677,10 @@ def get_children_elements(
         if ch.keyword == "choice":
             # These are cases
             for sub_choice_ch in ch.i_children:
+                sub_choice = (ch.arg, sub_choice_ch.arg)
+                if choice:
+                    # a choice within a case is also subject to the choice of that case
+                    sub_choice += (choice,)
                 get_children_elements(
                     ctx,
                     fd,
@@ -687,7 +691,7 @@ def get_children_elements(
                     imports,
                     path=path,
                     parent_cfg=parent_cfg,
-                    choice=(ch.arg, sub_choice_ch.arg),
+                    choice=sub_choice,
                     register_paths=register_paths,
                 )
         else:
@@ -922,8 +926,6 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 class_str["arg"] += ", path_helper=self._path_helper"
                 class_str["arg"] += ", yang_keys='%s'" % i["yang_keys"]
                 class_str["arg"] += ", extensions=%s" % i["extensions"]
-                if i["choice"]:
-                    class_str["arg"] += ", choice=%s" % repr(choice)
                 class_str["arg"] += ")"
             elif i["class"] == "union" or i["class"] == "leaf-union":
                 # A special mapped type where there is a union that just includes
@@ -995,11 +997,11 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 if i["choice"]:
                     class_str["arg"] += ", choice=%s" % repr(i["choice"])
                     choice_attrs.append(i["name"])
-                    if not i["choice"][0] in choices:
-                        choices[i["choice"][0]] = {}
-                    if not i["choice"][1] in choices[i["choice"][0]]:
-                        choices[i["choice"][0]][i["choice"][1]] = []
-                    choices[i["choice"][0]][i["choice"][1]].append(i["name"])
+                    elem_choice = i["choice"]
+                    while elem_choice:
+                        cases = choices.setdefault(elem_choice[0], {})
+                        cases.setdefault(elem_choice[1], []).append(i["name"])
+                        elem_choice = elem_choice[2] if len(elem_choice) > 2 else False
                 class_str["arg"] += ", path_helper=self._path_helper"
                 class_str["arg"] += ", extmethods=self._extmethods"
                 class_str["arg"] += ", register_paths=%s" % i["register_paths"]
@@ -1541,7 +1543,6 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 element,
                 npath,
                 parent_cfg=parent_cfg,
-                choice=choice,
                 register_paths=register_paths,
             )
 
-- 
2.43.0


From fbfda4de77c55226a4ee4439a01eef213edb57ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 19/97] fix: rename nodes that are keywords or methods of the
 generated classes

---
 pyangbind/lib/yangtypes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index e4b151a..a526b00 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -86,6 +86,13 @@ reserved_name = [
     "min",
     "max",
     "async",
+    "await",
+    "nonlocal",
+    "None",
+    "True",
+    "False",
+    "append",
+    "extend",
 ]
 
 
-- 
2.43.0


From 6e2dd65290318a4506ff9227acb2f0fc96c8c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 20/97] fix: give nodes with similar paths different classes

---
 pyangbind/plugin/pybind.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 649b9c9..8906220 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -423,6 +423,7 @@ long = int
     # is globally referenced). The name that a typedef statement is stored by is
     # kept, such that references to it can be found.
     ctx.pybind_typedef_names = {}
+    ctx.pybind_class_paths = {}
     build_identities(ctx, defn["identity"])
     build_typedefs(ctx, defn["typedef"])
 
@@ -813,10 +814,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
         else:
             if not path == "":
-                nfd.write(
-                    "class yc_%s_%s_%s(PybindBase):\n"
-                    % (safe_name(parent.arg), safe_name(module.arg), safe_name(path.replace("/", "_")))
-                )
+                nfd.write("class %s(PybindBase):\n" % generated_class_name(ctx, parent, module, path))
             else:
                 nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
 
@@ -1229,6 +1227,17 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def generated_class_name(ctx, element, module, path):
+    # The name of the class for an element where all classes are in one file. Paths
+    # that only differ in characters that are not allowed in names are told apart.
+    name = "yc_%s_%s_%s" % (safe_name(element.arg), safe_name(module.arg), safe_name(path.replace("/", "_")))
+    paths = ctx.pybind_class_paths.setdefault(name, [])
+    if path not in paths:
+        paths.append(path)
+    index = paths.index(path)
+    return name if index == 0 else "%s__%d" % (name, index)
+
+
 def escape_docstring(text):
     # Text from the YANG module must not be able to end the docstring it is put in,
     # or to form escape sequences.
@@ -1579,11 +1588,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-                elemdict["type"] = "yc_%s_%s_%s" % (
-                    safe_name(element.arg),
-                    safe_name(module.arg),
-                    safe_name(path.replace("/", "_")),
-                )
+                elemdict["type"] = generated_class_name(ctx, element, module, path)
 
             # Deal with specific cases for list - such as the key and how it is
             # ordered.
-- 
2.43.0


From d7c8f335d9381615aceb876d0d8aed5c45f6f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 21/97] fix: only include data that was set where with_defaults
 is IF_SET

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f1d4d78..daa6b07 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -446,7 +446,7 @@ def make_generate_ietf_tree(yname_ns_func):
                     elif not flt:
                         d[yname] = element
                 elif with_defaults == WithDefaults.IF_SET:
-                    if element._changed() or element._default == element:
+                    if element._changed():
                         d[yname] = element
         return d
 
-- 
2.43.0


From 58b7138096e9c777c653155bc354c61a1059357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 22/97] fix: do not modify the data that is loaded from

---
 pyangbind/lib/serialise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index daa6b07..872c19c 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -602,6 +602,9 @@ class pybindJSONDecoder(object):
             return obj
 
         for key in d:
+            if key == "__yang_order":
+                # metadata of an entry of a list that is ordered by the user
+                continue
             child = getattr(obj, "_get_%s" % safe_name(key), None)
             if child is None and skip_unknown is False:
                 raise AttributeError("JSON object contained a key that" + "did not exist (%s)" % (key))
@@ -646,8 +649,6 @@ class pybindJSONDecoder(object):
                             okeys.append(k)
                         else:
                             kdict[v["__yang_order"]] = k
-                            # Throw this metadata away
-                            v.pop("__yang_order", None)
                     okeys.reverse()
                     key_order = [kdict[k] for k in sorted(kdict)]
                     for add_element in okeys:
-- 
2.43.0


From 722a68c696e9257f6d4bb46ec944330438fcf30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 23/97] fix: replace the contents of containers and lists when
 loading with overwrite

---
 pyangbind/lib/serialise.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 872c19c..c170b3a 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -656,6 +656,9 @@ class pybindJSONDecoder(object):
                 else:
                     key_order = d[key].keys()
 
+                if overwrite:
+                    for existing_key in list(chobj.keys()):
+                        chobj.delete(existing_key)
                 for child_key in key_order:
                     if child_key not in chobj:
                         chobj.add(child_key)
@@ -669,10 +672,6 @@ class pybindJSONDecoder(object):
                         skip_unknown=skip_unknown,
                     )
                     set_via_stdmethod = False
-                if overwrite:
-                    for child_key in chobj:
-                        if child_key not in d[key]:
-                            chobj.delete(child_key)
             elif pybind_attr in ["TypedListType"]:
                 if not overwrite:
                     list_obj = getattr(obj, "_get_%s" % safe_name(key))()
@@ -779,6 +778,10 @@ class pybindJSONDecoder(object):
                     if chobj._presence:
                         chobj._set_present()
 
+                if overwrite:
+                    for child in chobj._pyangbind_elements:
+                        getattr(chobj, "_unset_%s" % child)()
+
                 pybindJSONDecoder.check_metadata_add(key, d, chobj)
                 pybindJSONDecoder.load_ietf_json(
                     d[key],
@@ -791,17 +794,16 @@ class pybindJSONDecoder(object):
                     skip_unknown=skip_unknown,
                 )
             elif isinstance(d[key], list):
-                for elem in d[key]:
+                for index, elem in enumerate(d[key]):
                     # if this is a list, then this is a YANG list
                     this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
                     if this_attr is None:
                         raise AttributeError("List specified that did not exist")
                     this_attr = this_attr()
                     if hasattr(this_attr, "_keyval"):
-                        if overwrite:
-                            existing_keys = this_attr.keys()
-                            for i in existing_keys:
-                                this_attr.delete(i)
+                        if overwrite and index == 0:
+                            for existing_key in list(this_attr.keys()):
+                                this_attr.delete(existing_key)
                         #  this handles YANGLists
                         if this_attr._keyval is False:
                             # Keyless list, generate a key
-- 
2.43.0


From 818797b58bd8524993a3630296a15f3c779712e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 24/97] fix: skip unknown lists of IETF JSON when asked to

---
 pyangbind/lib/serialise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index c170b3a..70404c3 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -797,7 +797,9 @@ class pybindJSONDecoder(object):
                 for index, elem in enumerate(d[key]):
                     # if this is a list, then this is a YANG list
                     this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
-                    if this_attr is None:
+                    if this_attr is None and skip_unknown is not False:
+                        continue
+                    elif this_attr is None:
                         raise AttributeError("List specified that did not exist")
                     this_attr = this_attr()
                     if hasattr(this_attr, "_keyval"):
-- 
2.43.0


From 44fecee7be0153589c0fa549296ae15e2cf227a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 25/97] fix: use the text of XML elements as the value of
 leaf-lists, keys and leaves

---
 pyangbind/lib/serialise.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 70404c3..2dba590 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -517,8 +517,9 @@ class pybindIETFXMLDecoder(object):
                 key_parts = []
                 add_kwargs = {}
                 for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
-                    add_kwargs[pkv] = child[ykv]
-                    key_parts.append(str(child[ykv]))
+                    key_text = child[ykv].text or ""
+                    add_kwargs[pkv] = key_text
+                    key_parts.append(key_text)
                 key_str = " ".join(map(str, key_parts))
                 if key_str not in chobj:
                     nobj = chobj.add(**add_kwargs)
@@ -531,26 +532,16 @@ class pybindIETFXMLDecoder(object):
                 )
 
             elif hasattr(chobj, "_pybind_generated_by") and chobj._pybind_generated_by == "TypedListType":
-                # NOTE: this is a little curious, because we are relying on the coercion of types
-                #   i.e. lxml will "identify" the type based on its own internal model of Python
-                #   types, see: https://lxml.de/2.0/objectify.html#how-data-types-are-matched
-                # There are limitations which need to be addressed, e.g. hexadecimal strings.
-                # Already, we have a stringify-fallback: if we fail on the first attempt then
-                # try again as a pure string (if its allowed).
-                try:
-                    chobj.append(child.pyval)
-                except ValueError:
-                    if str in chobj._allowed_type:
-                        chobj.append(str(child.pyval))
-                    else:
-                        raise
+                # the text of the element is used, rather than the type that lxml identifies for it,
+                # since this would change strings such as "007" or "1e3".
+                chobj.append(child.text or "")
 
             else:
                 if chobj._is_keyval is True:
                     # we've already added the key
                     continue
 
-                val = child.text
+                val = child.text or ""
                 if chobj._yang_type == "empty":
                     if child.text is None:
                         val = True
@@ -561,11 +552,10 @@ class pybindIETFXMLDecoder(object):
                     if ":" in val:
                         _, val = val.split(":", 1)
 
-                if val is not None:
-                    set_method = getattr(obj, "_set_%s" % safe_name(ykey), None)
-                    if set_method is None:
-                        raise AttributeError("Invalid attribute specified in XML - %s" % (ykey))
-                    set_method(val)
+                set_method = getattr(obj, "_set_%s" % safe_name(ykey), None)
+                if set_method is None:
+                    raise AttributeError("Invalid attribute specified in XML - %s" % (ykey))
+                set_method(val)
 
         return obj
 
-- 
2.43.0


From 76a8695d4f5786ed8b53893a43b8b7578824d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 26/97] fix: prefix identities with the name of their module in
 IETF JSON

---
 pyangbind/lib/serialise.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 2dba590..809d634 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -235,10 +235,11 @@ class IETFYangDataSerialiser(YangDataSerialiser):
     def yangt_identityref(self, obj):
         try:
             emod = obj._enumeration_dict[obj]["@module"]
+            # the value may have been set with the prefix, or the name of the module
+            name = str(obj).split(":")[-1]
             if emod != obj._defining_module:
-                # if not already prefixed with the type namespace
-                if not obj.startswith("%s" % emod):
-                    return "%s:%s" % (emod, obj)
+                return "%s:%s" % (emod, name)
+            return name
         except KeyError:
             pass
         return str(obj)
-- 
2.43.0


From 56363ae3a97ef6ac2ea008591a112832c9ba2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 27/97] fix: refuse values that cannot be converted to the type
 of a leaf

---
 pyangbind/lib/yangtypes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index a526b00..d63c963 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -170,7 +170,7 @@ def RestrictedPrecisionDecimalType(*args, **kwargs):
                     value = Decimal(args[0])
                 else:
                     value = Decimal(0)
-            except InvalidOperation:
+            except (InvalidOperation, TypeError):
                 raise ValueError("%s is not a valid decimal" % (args[0],))
             # RFC7950 section 9.3: the digits of the value are a 64-bit signed integer
             if not value.is_finite() or not -(2**63) <= value.scaleb(int(precision)) < 2**63:
@@ -385,7 +385,10 @@ def RestrictedClassType(*args, **kwargs):
             Run the _restriction_test static method against the argument v,
             returning an error if the value does not validate.
             """
-            v = base_type(v)
+            try:
+                v = base_type(v)
+            except TypeError:
+                raise ValueError("%s is not a valid value" % (v,))
             for chkfn in self._restriction_tests:
                 if not chkfn(v):
                     raise ValueError("did not match restricted type")
-- 
2.43.0


From 11bb2f22979ccd4ff46905b13cab9c58db7244e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 28/97] fix: refuse text that is not a number for a decimal64
 with a range

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d63c963..e0ac3f8 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -387,7 +387,7 @@ def RestrictedClassType(*args, **kwargs):
             """
             try:
                 v = base_type(v)
-            except TypeError:
+            except (InvalidOperation, TypeError):
                 raise ValueError("%s is not a valid value" % (v,))
             for chkfn in self._restriction_tests:
                 if not chkfn(v):
-- 
2.43.0


From 6382868a9a6bfe56b464772be4089846c28781ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 29/97] fix: enforce all restrictions that are added to a
 restricted type

---
 pyangbind/lib/yangtypes.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index e0ac3f8..ca1558c 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -339,8 +339,9 @@ def RestrictedClassType(*args, **kwargs):
                         except Exception:
                             raise TypeError("must specify a numeric type for a range " + "argument")
                 elif rtype == "length":
-                    if val and issubclass(base_type, bytes):
-                        # the length of a binary is that of the value, not of its encoding
+                    if val is not False:
+                        # the length is that of the value itself - for a binary, this is not
+                        # that of its encoding
                         val = base_type(val)
                     multiplier = 1
                     lengths = []
@@ -366,13 +367,11 @@ def RestrictedClassType(*args, **kwargs):
                     raise TypeError("unsupported restriction type")
 
             if val is not False:
+                # these are checked here, since the tests that are stored are replaced by
+                # those of the base type where that is restricted too
                 for test in self._restriction_tests:
-                    passed = False
-                    if test(val) is not False:
-                        passed = True
-                        break
-                if not passed:
-                    raise ValueError("%s does not match a restricted type" % val)
+                    if test(val) is False:
+                        raise ValueError("%s does not match a restricted type" % val)
 
             try:
                 obj = base_type.__new__(self, *args, **kwargs)
-- 
2.43.0


From 1112c4b5d8769d441c72daf503095ebd5d1bbb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 30/97] fix: rename each of the keys of a list that is a
 reserved name

---
 pyangbind/plugin/pybind.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 8906220..dd7a36b 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -823,10 +823,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         keyval = False
         if parent.keyword == "list":
             keyval = parent.search_one("key").arg if parent.search_one("key") is not None else False
-            if keyval and " " in keyval:
-                keyval = keyval.split(" ")
-            else:
-                keyval = [keyval]
+            keyval = keyval.split() if keyval else [keyval]
 
         # Auto-generate a docstring based on the description that is provided in
         # the YANG module. This aims to provide readability to someone perusing the
@@ -1593,12 +1590,11 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             # Deal with specific cases for list - such as the key and how it is
             # ordered.
             if element.keyword == "list":
-                elemdict["key"] = (
-                    safe_name(element.search_one("key").arg) if element.search_one("key") is not None else False
-                )
-                elemdict["yang_keys"] = (
-                    element.search_one("key").arg if element.search_one("key") is not None else False
-                )
+                key_stmt = element.search_one("key")
+                # there can be several keys, separated by any whitespace
+                key_names = key_stmt.arg.split() if key_stmt is not None else []
+                elemdict["key"] = " ".join(safe_name(k) for k in key_names) or False
+                elemdict["yang_keys"] = " ".join(key_names) or False
                 user_ordered = element.search_one("ordered-by")
                 elemdict["user_ordered"] = (
                     True if user_ordered is not None and user_ordered.arg.upper() == "USER" else False
-- 
2.43.0


From 04c181a7829bc87e811b0ea6cdf198e2868c343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 31/97] fix: keep the empty default of a typedef that is a
 union

---
 pyangbind/plugin/pybind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index dd7a36b..c1368af 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -639,13 +639,13 @@ def build_typedefs(ctx, defnd):
                     msg += " supported (%s in %s)" % (i[1]["yang_type"], item.arg)
                     raise TypeError(msg)
 
-                if "default" in i[1] and not default:
+                if "default" in i[1] and default is False:
                     # When multiple 'default' values are specified within a union that
                     # is within a typedef, then pyangbind will choose the first one.
                     q = True if "quote_arg" in i[1] else False
                     default = (i[1]["default"], q)
             class_map[type_name] = {"native_type": native_type, "base_type": False, "parent_type": parent_type}
-            if default:
+            if default is not False:
                 if not isinstance(default, tuple):
                     q = True if "quote_arg" in i[1] else False
                     default = (default, q)
-- 
2.43.0


From 7f8465b405174722cbb2c14b8e635e20eab556e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 32/97] fix: apply the effects of a write only once the value
 has been accepted

---
 pyangbind/lib/yangtypes.py | 51 +++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index ca1558c..ea4de71 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -510,6 +510,11 @@ def TypedListType(*args, **kwargs):
             if not self._unique or val not in self._list:
                 self._list.append(val)
 
+        def extend(self, values):
+            # check all of the values before any of them is added
+            for val in [self._convert(v) for v in values]:
+                self.append(val)
+
         def __str__(self):
             return str(self._list)
 
@@ -1100,9 +1105,29 @@ def YANGDynClass(*args, **kwargs):
 
             if default is not False:
                 self._default = default
+
+            is_data_node = self._is_container in ("list", "container")
+            if is_data_node:
+                self._register()
+                kwargs["path_helper"] = self._path_helper
+                if load is not None:
+                    kwargs["load"] = load
+
+            try:
+                super(YANGBaseClass, self).__init__(*args, **kwargs)
+            except TypeError:
+                super(YANGBaseClass, self).__init__()
+            except Exception:
+                raise
+
+            # a value that is refused must not affect anything else, such
+            # that this is marked only once the value has been accepted.
+            if not is_data_node:
+                self._register()
             if len(args):
                 self._set()
 
+        def _register(self):
             # lists themselves do not register, only elements within them
             # are actually created in the tree.
             if not self._is_container == "list":
@@ -1114,18 +1139,6 @@ def YANGDynClass(*args, **kwargs):
                         if self._register_paths:
                             self._path_helper.register(self._supplied_register_path, self)
 
-            if self._is_container == "list" or self._is_container == "container":
-                kwargs["path_helper"] = self._path_helper
-                if load is not None:
-                    kwargs["load"] = load
-
-            try:
-                super(YANGBaseClass, self).__init__(*args, **kwargs)
-            except TypeError:
-                super(YANGBaseClass, self).__init__()
-            except Exception:
-                raise
-
         def _changed(self):
             return self._mchanged
 
@@ -1169,42 +1182,42 @@ def YANGDynClass(*args, **kwargs):
 
         # we need to overload the set methods
         def __setitem__(self, *args, **kwargs):
-            self._set()
             super(YANGBaseClass, self).__setitem__(*args, **kwargs)
+            self._set()
 
         def append(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "append"):
                 raise AttributeError("%s object has no attribute append" % base_type)
-            self._set()
             super(YANGBaseClass, self).append(*args, **kwargs)
+            self._set()
 
         def pop(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "pop"):
                 raise AttributeError("%s object has no attribute pop" % base_type)
-            self._set()
             item = super(YANGBaseClass, self).pop(*args, **kwargs)
+            self._set()
             return item
 
         def remove(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "remove"):
                 raise AttributeError("%s object has no attribute remove" % base_type)
-            self._set()
             if self._path_helper:
                 elem_index = super(YANGBaseClass, self).index(*args, **kwargs)
                 super(YANGBaseClass, self).__getitem__(elem_index)
             super(YANGBaseClass, self).remove(*args, **kwargs)
+            self._set()
 
         def extend(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "extend"):
                 raise AttributeError("%s object has no attribute extend" % base_type)
-            self._set()
             super(YANGBaseClass, self).extend(*args, **kwargs)
+            self._set()
 
         def insert(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "insert"):
                 raise AttributeError("%s object has no attribute insert" % base_type)
-            self._set()
             super(YANGBaseClass, self).insert(*args, **kwargs)
+            self._set()
 
         def _register_path(self):
             if self._supplied_register_path is not None:
@@ -1282,8 +1295,6 @@ def ReferenceType(*args, **kwargs):
 
             if len(args):
                 value = args[0]
-                if hasattr(self, "_set"):
-                    self._set()
             else:
                 value = None
 
-- 
2.43.0


From 8cadc02b8242429970b563f8c734c718de527348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 33/97] fix: make classes of containers without elements behave
 as containers

---
 pyangbind/plugin/pybind.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index c1368af..432b743 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -849,7 +849,23 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
 
     elements_str = ""
     if len(elements) == 0:
-        nfd.write("  _pyangbind_elements = {}")
+        nfd.write(
+            """
+  __slots__ = ('_path_helper', '_extmethods')
+
+  _pybind_generated_by = 'container'
+
+  _yang_name = '%s'
+
+  _pyangbind_elements = {}
+
+  def __init__(self, *args, **kwargs):
+    self._path_helper = kwargs.pop("path_helper", False)
+    self._extmethods = kwargs.pop("extmethods", False)
+    if args and not hasattr(args[0], "_pyangbind_elements"):
+      raise ValueError("Supplied object did not have the correct attributes")\n"""
+            % parent.arg
+        )
     else:
         # We want to prevent a user from creating new attributes on a class that
         # are not allowed within the data model - this uses the __slots__ magic
-- 
2.43.0


From 250a1d6aace8ba87ffcda56d093558dcee979335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 34/97] fix: keep the entries of a list that is assigned, and
 refuse values that are no list

---
 pyangbind/lib/yangtypes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index ea4de71..8a8a043 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -578,6 +578,15 @@ def YANGListType(*args, **kwargs):
             self._path_helper = path_helper
             self._yang_keys = yang_keys
 
+            if len(args):
+                if getattr(args[0], "_pybind_generated_by", None) != "YANGListType":
+                    raise ValueError("a list can only be set to another list")
+                try:
+                    for k, v in args[0].items():
+                        self.__set(_k=k, _v=v)
+                except KeyError as m:
+                    raise ValueError("entries of the list are not valid, %s" % m)
+
         def __str__(self):
             return str(self._members)
 
@@ -587,6 +596,8 @@ def YANGListType(*args, **kwargs):
         def __check__(self, v):
             if self._contained_class is None:
                 return False
+            if isinstance(v, self._contained_class):
+                return True
             try:
                 tmp = YANGDynClass(
                     base=self._contained_class,
@@ -742,7 +753,9 @@ def YANGListType(*args, **kwargs):
                 except ValueError as m:
                     raise KeyError("key value %s must be valid, %s" % (self._keyval, m))
             else:
+                value = [v] if v is not None else []
                 self._members[k] = YANGDynClass(
+                    *value,
                     base=self._contained_class,
                     parent=parent,
                     yang_name=yang_name,
@@ -889,7 +902,7 @@ def YANGListType(*args, **kwargs):
                     d[i] = self._members[i]
             return d
 
-    return type(YANGList(*args, **kwargs))
+    return type(YANGList())
 
 
 class YANGBool(int):
-- 
2.43.0


From f98afb848846fe555d56ac525a0d1fafcbbd8fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 35/97] fix: check the keys of a list entry before adding it
 changes anything

---
 pyangbind/lib/yangtypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 8a8a043..585bba6 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -672,9 +672,11 @@ def YANGListType(*args, **kwargs):
 
             if self._keyval:
                 try:
+                    # this is not a member of the tree, such that keys which
+                    # are not valid are found before there are any changes.
                     tmp = YANGDynClass(
                         base=self._contained_class,
-                        parent=parent,
+                        parent=None,
                         yang_name=yang_name,
                         is_container="container",
                         path_helper=False,
@@ -711,6 +713,9 @@ def YANGListType(*args, **kwargs):
                         path_keystring = path_keystring[:-1]
                         path_keystring += "]"
 
+                        for kn in keydict:
+                            getattr(tmp, "_set_%s" % safe_name(kn))(keydict[kn], load=True)
+
                     if not update:
                         tmp = YANGDynClass(
                             base=self._contained_class,
-- 
2.43.0


From 0688da0d5df27c148e520332c0d133557382eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 36/97] fix: refuse empty text for types with a range

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 585bba6..419c14a 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -333,7 +333,7 @@ def RestrictedClassType(*args, **kwargs):
                     for range_spec in rarg:
                         ranges.append(build_length_range_tuples(range_spec))
                     self._restriction_tests.append(in_range_check(ranges))
-                    if val:
+                    if val is not False:
                         try:
                             val = base_type(val)
                         except Exception:
-- 
2.43.0


From eaa4bd297c24d3f33949642f302f5206f288e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 37/97] fix: find list entries whose keys have spaces, quotes,
 brackets or carets with the path helper

---
 pyangbind/lib/xpathhelper.py | 33 ++++++++++++++++++++-------------
 pyangbind/lib/yangtypes.py   | 35 +++++++++++++----------------------
 2 files changed, 33 insertions(+), 35 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 02a5635..5e81cf7 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -33,7 +33,7 @@ import regex
 from lxml import etree
 
 from .base import PybindBase
-from .yangtypes import safe_name
+from .yangtypes import quote_value, safe_name
 
 
 class YANGPathHelperException(Exception):
@@ -105,12 +105,15 @@ class FakeRoot(PybindBase):
 
 
 class YANGPathHelper(PybindXpathHelper):
-    _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>(\[[^\]]+\])+)$")
+    _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>\[.+\])$", regex.DOTALL)
     _arg_re = regex.compile(
         r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_:]+)([ ]+)?"
-        + r"=([ ]+)?['\"]?(?P<arg>[^ ^'^\"]+)(['\"])?([ ]+)?"
-        + "(?P<remainder>.*)"
+        + r"=([ ]+)?('(?P<arg>[^']*)'|\"(?P<arg>[^\"]*)\"|(?P<arg>[^ '\"]+))([ ]+)?"
+        + "(?P<remainder>.*)",
+        regex.DOTALL,
     )
+    # A predicate, in which quoted values can contain any character.
+    _predicate_re = regex.compile(r"\[((?:'[^']*'|\"[^\"]*\"|[^\]'\"])*)\]")
     _relative_path_re = regex.compile(r"^(\.|\.\.)")
 
     def __init__(self):
@@ -130,11 +133,12 @@ class YANGPathHelper(PybindXpathHelper):
             if path[c] == "/" and not in_qstr and not in_attr:
                 parts.append(buf)
                 buf = ""
-            elif path[c] == '"' and in_qstr:
-                in_qstr = False
+            elif in_qstr:
+                if path[c] == in_qstr:
+                    in_qstr = False
                 buf += path[c]
-            elif path[c] == '"':
-                in_qstr = True
+            elif path[c] in ('"', "'"):
+                in_qstr = path[c]
                 buf += path[c]
             elif path[c] == "[":
                 in_attr = True
@@ -187,7 +191,7 @@ class YANGPathHelper(PybindXpathHelper):
                                 "XPATH specified a current() expression that " + "returned a non-unique list"
                             )
                         v = resolved_current_attr[0]
-                    epath += "@%s='%s' " % (k, v)
+                    epath += "@%s=%s " % (k, quote_value(v))
                     if mode == "search":
                         epath += "and "
                 if mode == "search":
@@ -202,15 +206,18 @@ class YANGPathHelper(PybindXpathHelper):
     def _tagname_attributes(self, tag, normalise_namespace=True):
         tagname, attributes = tag, None
         if self._attr_re.match(tag):
-            tagname, args = self._attr_re.sub(r"\g<tagname>||\g<args>", tag).split("||")
-            arg_parts = [i.strip("[") for i in args.split("]")]
+            tagname, args = self._attr_re.match(tag).group("tagname", "args")
+            arg_parts = self._predicate_re.findall(args)
+            if not "".join("[%s]" % i for i in arg_parts) == args:
+                raise XPathError("invalid attribute string specified for %s (%s)" % (tagname, args))
 
             attributes = {}
             for arg in arg_parts:
                 tmp_arg = arg
                 while len(tmp_arg):
-                    if self._arg_re.match(tmp_arg):
-                        c, a, r = self._arg_re.sub(r"\g<cmd>||\g<arg>||\g<remainder>", tmp_arg).split("||")
+                    matched = self._arg_re.match(tmp_arg)
+                    if matched:
+                        c, a, r = matched.group("cmd", "arg", "remainder")
                         if ":" in c and normalise_namespace:
                             c = c.split(":")[1]
                         attributes[c] = a
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 419c14a..6d8f50f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -125,6 +125,14 @@ def remove_path_attributes(p):
     return new_path
 
 
+def quote_value(value):
+    """
+    Quote a value such that it can be used within a predicate of an XPATH. There is
+    no means to escape a quote within such a value.
+    """
+    return '"%s"' % value if "'" in str(value) else "'%s'" % value
+
+
 def safe_name(arg):
     """
     Make a leaf or container name safe for use in Python.
@@ -702,14 +710,14 @@ def YANGListType(*args, **kwargs):
                             raise KeyError("Cannot set a null key for a list entry!")
                         keydict = {self._keyval: k}
                         kv_obj = getattr(tmp, self._keyval)
-                        path_keystring = "[%s='%s']" % (kv_obj.yang_name(), k)
+                        path_keystring = "[%s=%s]" % (kv_obj.yang_name(), quote_value(k))
 
                     if keydict is not None:
                         keys = self._keyval.split(" ")
                         path_keystring = "["
                         for kv in keys:
                             kv_obj = getattr(tmp, kv)
-                            path_keystring += "%s='%s' " % (kv_obj.yang_name(), keydict[kv])
+                            path_keystring += "%s=%s " % (kv_obj.yang_name(), quote_value(keydict[kv]))
                         path_keystring = path_keystring[:-1]
                         path_keystring += "]"
 
@@ -858,27 +866,10 @@ def YANGListType(*args, **kwargs):
         def delete(self, *args, **kwargs):
             (k, _) = self._generate_key(*args, **kwargs)
 
-            if self._path_helper:
-                current_item = self._members[k]
-                if " " in self._keyval:
-                    keyparts = self._keyval.split(" ")
-                    keyargs = k.split(" ")
-                    key_string = "["
-                    for key, val in zip(keyparts, keyargs):
-                        kv_o = getattr(current_item, key)
-                        key_string += "%s=%s " % (kv_o.yang_name(), val)
-                    key_string = key_string.rstrip(" ")
-                    key_string += "]"
-                else:
-                    kv_o = getattr(current_item, self._keyval)
-                    key_string = "[@%s=%s]" % (kv_o.yang_name(), k)
-
-                obj_path = self._parent._path() + [self._yang_name + key_string]
-
             try:
-                del self._members[k]
-                if self._path_helper:
-                    self._path_helper.unregister(obj_path)
+                obj = self._members.pop(k)
+                if self._path_helper and self._keyval:
+                    self._path_helper.unregister(obj._path())
             except KeyError as m:
                 raise KeyError("key %s was not in list (%s)" % (k, m))
 
-- 
2.43.0


From 73aca62a8c094ce6abcde81c104d4ae5c6afcae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 38/97] fix: forget replaced and unset nodes in the path helper

---
 pyangbind/lib/xpathhelper.py | 14 ++++++++++----
 pyangbind/lib/yangtypes.py   |  6 +++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 5e81cf7..5244f76 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -251,9 +251,12 @@ class YANGPathHelper(PybindXpathHelper):
             raise XPathError("duplicate objects in tree - %s" % object_path)
         if this_obj_existing is not None and not this_obj_existing == []:
             this_obj_existing = this_obj_existing[0]
-            if self._library[this_obj_existing.get("obj_ptr")] == object_ptr:
+            if self._library[this_obj_existing.get("obj_ptr")] is object_ptr:
                 return True
             else:
+                # what was below the object that is replaced is no longer in the tree
+                for child in list(this_obj_existing):
+                    self._remove(child)
                 del self._library[this_obj_existing.get("obj_ptr")]
                 new_uuid = str(uuid.uuid1())
                 self._library[new_uuid] = object_ptr
@@ -295,9 +298,12 @@ class YANGPathHelper(PybindXpathHelper):
             raise XPathError("object did not exist to unregister - %s" % object_path)
 
         for obj in existing_objs:
-            ref = obj.get("obj_ptr")
-            del self._library[ref]
-            obj.getparent().remove(obj)
+            self._remove(obj)
+
+    def _remove(self, obj):
+        for elem in obj.iter():
+            del self._library[elem.get("obj_ptr")]
+        obj.getparent().remove(obj)
 
     def _get_etree(self, object_path, caller=False):
         fx_q = self._encode_path(object_path, caller=caller)
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 6d8f50f..6565258 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -781,7 +781,7 @@ def YANGListType(*args, **kwargs):
                 return k
 
         def __delitem__(self, k):
-            del self._members[k]
+            self.delete(k)
 
         def __len__(self):
             return len(self._members)
@@ -1139,6 +1139,10 @@ def YANGDynClass(*args, **kwargs):
         def _register(self):
             # lists themselves do not register, only elements within them
             # are actually created in the tree.
+            if self._is_container == "list" and self._path_helper:
+                # entries of a list that this replaces are no longer in the tree
+                if self._path_helper.get(self._register_path()):
+                    self._path_helper.unregister(self._register_path())
             if not self._is_container == "list":
                 if self._path_helper:
                     if self._supplied_register_path is None:
-- 
2.43.0


From f94596e9087b55b09b5871f057d772b60ae6b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 39/97] fix: allow key leaves with a dot in their name with the
 path helper

---
 pyangbind/lib/xpathhelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 5244f76..e0d2ff2 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -107,7 +107,7 @@ class FakeRoot(PybindBase):
 class YANGPathHelper(PybindXpathHelper):
     _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>\[.+\])$", regex.DOTALL)
     _arg_re = regex.compile(
-        r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_:]+)([ ]+)?"
+        r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_\.:]+)([ ]+)?"
         + r"=([ ]+)?('(?P<arg>[^']*)'|\"(?P<arg>[^\"]*)\"|(?P<arg>[^ '\"]+))([ ]+)?"
         + "(?P<remainder>.*)",
         regex.DOTALL,
-- 
2.43.0


From 24c6a0080c3b4ff92dc4dff143196d637fa3ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 40/97] fix: encode booleans and binaries in leaf-lists and
 unions

---
 pyangbind/lib/serialise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 809d634..d19037e 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -160,12 +160,14 @@ class YangDataSerialiser(object):
             return ndict
         elif isinstance(obj, (str,)):
             return str(obj)
-        elif isinstance(obj, (int,)):
-            return int(obj)
         elif isinstance(obj, (YANGBool, bool)):
             return bool(obj)
+        elif isinstance(obj, (int,)):
+            return int(obj)
         elif isinstance(obj, Decimal):
             return self.yangt_decimal(obj)
+        elif isinstance(obj, bytes):
+            return str(base64.b64encode(obj), "ascii")
 
         raise AttributeError(
             "Unmapped type: %s, %s, %s, %s, %s, %s" % (elem_name, orig_yangt, pybc, pyc, type(obj), obj)
-- 
2.43.0


From 4b9f7ecc40ccb70ef7255a5d6120ae1e2604b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 41/97] fix: replace leaf-lists whose values JSON has in
 another form when loading

---
 pyangbind/lib/serialise.py | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index d19037e..1bd9ba0 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -665,23 +665,8 @@ class pybindJSONDecoder(object):
                         skip_unknown=skip_unknown,
                     )
                     set_via_stdmethod = False
-            elif pybind_attr in ["TypedListType"]:
-                if not overwrite:
-                    list_obj = getattr(obj, "_get_%s" % safe_name(key))()
-                    for item in d[key]:
-                        if item not in list_obj:
-                            list_obj.append(item)
-                    list_copy = []
-                    for elem in list_obj:
-                        list_copy.append(elem)
-                    for e in list_copy:
-                        if e not in d[key]:
-                            list_obj.remove(e)
-                    set_via_stdmethod = False
-                else:
-                    # use the set method
-                    pass
             elif pybind_attr in [
+                "TypedListType",
                 "RestrictedClassType",
                 "ReferencePathType",
                 "RestrictedPrecisionDecimal",
-- 
2.43.0


From ad01e795197751c006f9173a19bf9a5e9a8144f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 42/97] fix: encode and decode typedefs of empty and
 identityref as such

---
 pyangbind/lib/serialise.py | 54 ++++++++++++++++++++++++--------------
 pyangbind/lib/yangtypes.py |  7 +++++
 pyangbind/plugin/pybind.py |  7 +++--
 3 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 1bd9ba0..b8cb463 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -34,7 +34,7 @@ import base64
 from enum import IntEnum
 from lxml import objectify, etree
 
-from pyangbind.lib.yangtypes import YANGBool, safe_name
+from pyangbind.lib.yangtypes import YANGBool, YANGEmpty, safe_name
 
 
 long = int
@@ -66,6 +66,17 @@ class SerialisedTypedList(list):
     pass
 
 
+def is_empty(obj):
+    """Whether obj is of type empty, which may be that of a typedef"""
+    return isinstance(obj, YANGEmpty) or getattr(obj, "_yang_type", None) == "empty"
+
+
+def is_identityref(obj):
+    """Whether obj is an identityref, which may be that of a typedef or a member of a union"""
+    identities = getattr(obj, "_enumeration_dict", None) or {}
+    return any("@module" in identity for identity in identities.values())
+
+
 class YangDataSerialiser(object):
     """
     This class encapsulates the logic to parse the object tree and generate appropriate
@@ -120,7 +131,7 @@ class YangDataSerialiser(object):
             return self.default(obj._get()) if hasattr(obj, "_get") else str(obj)
         elif orig_yangt in ["int64", "uint64"]:
             return self.yangt_long(obj)
-        elif orig_yangt in ["identityref"]:
+        elif is_identityref(obj):
             try:
                 return self.yangt_identityref(obj)
             except UnmappedItem:
@@ -186,12 +197,11 @@ class YangDataSerialiser(object):
             return str(base64.b64encode(obj), "ascii")
         elif map_val in ["unicode"]:
             return str(obj)
+        elif map_val in ["pyangbind.lib.yangtypes.YANGEmpty"]:
+            # NOTE: previously with IETF mode the code would fall-through if obj was falsey
+            return self.yangt_empty(obj)
         elif map_val in ["pyangbind.lib.yangtypes.YANGBool"]:
-            if original_yang_type == "empty":
-                # NOTE: previously with IETF mode the code would fall-through if obj was falsey
-                return self.yangt_empty(obj)
-            else:
-                return bool(obj)
+            return bool(obj)
         elif map_val in ["pyangbind.lib.yangtypes.TypedList"]:
             return self.yangt_typed_list(obj)
         elif map_val in ["int", "long"]:
@@ -234,12 +244,12 @@ class IETFYangDataSerialiser(YangDataSerialiser):
     def yangt_long(self, obj):
         return str(obj)
 
-    def yangt_identityref(self, obj):
+    def yangt_identityref(self, obj, module=None):
         try:
             emod = obj._enumeration_dict[obj]["@module"]
             # the value may have been set with the prefix, or the name of the module
             name = str(obj).split(":")[-1]
-            if emod != obj._defining_module:
+            if emod != (module or obj._defining_module):
                 return "%s:%s" % (emod, name)
             return name
         except KeyError:
@@ -252,6 +262,12 @@ class IETFYangDataSerialiser(YangDataSerialiser):
     def yangt_empty(self, obj):
         return [None] if obj else False
 
+    def yangt_typed_list(self, obj):
+        # the members of a list do not know the module that it is defined in
+        return [
+            self.yangt_identityref(i, obj._defining_module) if is_identityref(i) else self.default(i) for i in obj
+        ]
+
 
 class XmlYangDataSerialiser(IETFYangDataSerialiser):
     """
@@ -261,7 +277,7 @@ class XmlYangDataSerialiser(IETFYangDataSerialiser):
     def yangt_typed_list(self, obj):
         # We have already used a standard list to denote a container, so we instead we use a custom list
         # type here in the serialised model
-        return SerialisedTypedList([self.default(i) for i in obj])
+        return SerialisedTypedList(super(XmlYangDataSerialiser, self).yangt_typed_list(obj))
 
     def yangt_empty(self, obj):
         return None
@@ -370,11 +386,11 @@ class pybindIETFXMLEncoder(object):
     def yname_ns_func(parent_namespace, element, yname):
         # to keeps things simple, we augment every key with a complete namespace map
         ns_map = [(None, element._namespace)]
-        if element._yang_type == "identityref" and element._changed():
-            # configured identityref (i.e. points to a valid identity)
-            ns_map.append(
-                (element._enumeration_dict[element]["@module"], element._enumeration_dict[element]["@namespace"])
-            )
+        # the namespaces of the identities that are the value of the element, or of its members
+        for value in element if getattr(element, "_pybind_generated_by", None) == "TypedListType" else [element]:
+            identity = value._enumeration_dict.get(value) if is_identityref(value) else None
+            if identity is not None:
+                ns_map.append((identity["@module"], identity["@namespace"]))
         return yname, tuple(ns_map)
 
     @classmethod
@@ -545,13 +561,13 @@ class pybindIETFXMLDecoder(object):
                     continue
 
                 val = child.text or ""
-                if chobj._yang_type == "empty":
+                if is_empty(chobj):
                     if child.text is None:
                         val = True
                     else:
                         raise ValueError("Invalid value for empty in input XML - key: %s, got: %s" % (ykey, val))
 
-                elif chobj._yang_type == "identityref":
+                elif is_identityref(chobj):
                     if ":" in val:
                         _, val = val.split(":", 1)
 
@@ -834,7 +850,7 @@ class pybindJSONDecoder(object):
                     pass
                 else:
                     val = d[key]
-                    if chk._yang_type == "empty":
+                    if is_empty(chk):
                         # A 'none' value in the JSON means that an empty value is set,
                         # since this is serialised as [null] in the input JSON.
                         if val == [None]:
@@ -842,7 +858,7 @@ class pybindJSONDecoder(object):
                         else:
                             raise ValueError("Invalid value for empty in input JSON " "key: %s, got: %s" % (ykey, val))
 
-                    if chk._yang_type == "identityref":
+                    if is_identityref(chk):
                         # identityref values in IETF JSON may contain their module name, as a prefix,
                         # but we don't build identities with these as valid values. If this is the
                         # case then re-write the value to just be the name of the identity that we
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 6565258..48451a5 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -929,6 +929,13 @@ class YANGBool(int):
         return str(self.__repr__())
 
 
+class YANGEmpty(YANGBool):
+    """
+    A leaf of type empty, which has no value other than that it is present. It is
+    handled as a boolean, but is distinguished from it when it is serialised.
+    """
+
+
 def unset_other_cases(obj, choice):
     """
     Return the elements of obj that are within other cases than that of the child
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 432b743..726de64 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -40,6 +40,7 @@ from pyangbind.lib.yangtypes import (
     YANGBinary,
     YANGBitsType,
     YANGBool,
+    YANGEmpty,
     safe_name,
 )
 
@@ -55,6 +56,7 @@ native_type_namespace = {
     "YANGBinary": YANGBinary,
     "YANGBitsType": YANGBitsType,
     "YANGBool": YANGBool,
+    "YANGEmpty": YANGEmpty,
     "long": long,
 }
 
@@ -155,11 +157,11 @@ class_map = {
     "string": {"native_type": "str", "base_type": True, "quote_arg": True, "pytype": str},
     "decimal64": {"native_type": "Decimal", "base_type": True, "quote_arg": True, "pytype": decimal.Decimal},
     "empty": {
-        "native_type": "YANGBool",
+        "native_type": "YANGEmpty",
         "map": class_bool_map,
         "base_type": True,
         "quote_arg": True,
-        "pytype": YANGBool,
+        "pytype": YANGEmpty,
     },
     "int8": {
         "native_type": "RestrictedClassType(base_type=int, "
@@ -335,6 +337,7 @@ def build_pybind(ctx, modules, fd):
         "RestrictedClassType",
         "TypedListType",
         "YANGBool",
+        "YANGEmpty",
         "YANGListType",
         "YANGDynClass",
         "ReferenceType",
-- 
2.43.0


From 145417ef679b5edd685e7c144370dc61c9f4342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 43/97] fix: load list entries whose keys are prefixed or
 booleans from IETF JSON

---
 pyangbind/lib/serialise.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index b8cb463..91d0dd6 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -709,6 +709,16 @@ class pybindJSONDecoder(object):
             for k, v in data["@" + key].items():
                 obj._add_metadata(k, v)
 
+    @staticmethod
+    def ietf_key_value(entry, name):
+        """The value that an entry of a list has for a key, whose name may be preceded by the name of its module"""
+        for member in entry:
+            if member.split(":")[-1] == name:
+                value = entry[member]
+                # entries are found by the text of a boolean
+                return str(value).lower() if isinstance(value, bool) else value
+        raise KeyError(name)
+
     @staticmethod
     def load_ietf_json(
         d, parent, yang_base, obj=None, path_helper=None, extmethods=None, overwrite=False, skip_unknown=False
@@ -809,15 +819,15 @@ class pybindJSONDecoder(object):
                             keystr = ""
                             kwargs = {}
                             for pkv, ykv in zip(this_attr._keyval.split(" "), this_attr._yang_keys.split(" ")):
-                                kwargs[pkv] = elem[ykv]
-                                keystr += "%s " % elem[ykv]
+                                kwargs[pkv] = pybindJSONDecoder.ietf_key_value(elem, ykv)
+                                keystr += "%s " % kwargs[pkv]
                             keystr = keystr.rstrip(" ")
                             if keystr not in this_attr:
                                 nobj = this_attr.add(**kwargs)
                             else:
                                 nobj = this_attr[keystr]
                         else:
-                            k = elem[this_attr._yang_keys]
+                            k = pybindJSONDecoder.ietf_key_value(elem, this_attr._yang_keys)
                             if k not in this_attr:
                                 nobj = this_attr.add(k)
                             else:
-- 
2.43.0


From 30454bf30b351f017e613df618e9561e8985facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 44/97] fix: leave out leaf-lists that were emptied from
 filtered IETF JSON

---
 pyangbind/lib/serialise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 91d0dd6..97e9e4b 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -458,6 +458,9 @@ def make_generate_ietf_tree(yname_ns_func):
                 ]
                 if not len(d[yname]):
                     del d[yname]
+            elif flt and generated_by == "TypedListType" and not len(element):
+                # the members were removed, there is no data
+                continue
             else:
                 if with_defaults is None:
                     if flt and element._changed():
-- 
2.43.0


From b8b9e0af3efd7dbafa711ad239b3d8abf251d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 45/97] fix: write decimals without an exponent in IETF JSON
 and XML

---
 pyangbind/lib/serialise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 97e9e4b..789e8d1 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -257,7 +257,8 @@ class IETFYangDataSerialiser(YangDataSerialiser):
         return str(obj)
 
     def yangt_decimal(self, obj):
-        return str(obj)
+        # a decimal64 is never written with an exponent
+        return format(obj, "f")
 
     def yangt_empty(self, obj):
         return [None] if obj else False
-- 
2.43.0


From 014d52a5fe82799275d6057f70f179862231ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 46/97] fix: encode typedefs of empty as an empty element in
 XML

---
 pyangbind/lib/serialise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 789e8d1..c1a8046 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -146,7 +146,8 @@ class YangDataSerialiser(object):
             return self.yangt_decimal(obj)
         elif orig_yangt in ["bool"]:
             return True if obj else False
-        elif orig_yangt in ["empty"]:
+        elif is_empty(obj):
+            # NOTE: previously with IETF mode the code would fall-through if obj was falsey
             return self.yangt_empty(obj)
         elif orig_yangt in ["container"]:
             return self.preprocess_element(obj.get())
@@ -197,9 +198,6 @@ class YangDataSerialiser(object):
             return str(base64.b64encode(obj), "ascii")
         elif map_val in ["unicode"]:
             return str(obj)
-        elif map_val in ["pyangbind.lib.yangtypes.YANGEmpty"]:
-            # NOTE: previously with IETF mode the code would fall-through if obj was falsey
-            return self.yangt_empty(obj)
         elif map_val in ["pyangbind.lib.yangtypes.YANGBool"]:
             return bool(obj)
         elif map_val in ["pyangbind.lib.yangtypes.TypedList"]:
-- 
2.43.0


From aad567b292d441951d3f002c9387c466d048a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 47/97] fix: write booleans in leaf-lists in lower case in XML

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index c1a8046..f33caea 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -357,7 +357,7 @@ class pybindIETFXMLEncoder(object):
                 if isinstance(v, SerialisedTypedList):
                     # TypedList (e.g. leaf-list or union-list), process each element as a sibling
                     for i in v:
-                        el = E(k, str(i))
+                        el = E(k, str(i).lower() if isinstance(i, bool) else str(i))
                         parent.append(el)
                 elif isinstance(v, list):
                     # a container maps to a list, recursively process each element as a child element
-- 
2.43.0


From f554c4dc514f295aea3d783aedfd6169fe9d6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 48/97] fix: keep the prefixes that identities are written with
 declared in XML

---
 pyangbind/lib/serialise.py | 43 ++++++++++++++------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f33caea..be9282a 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -334,52 +334,41 @@ class pybindIETFXMLEncoder(object):
     The `serialise()` method is a helper around that to return a pretty-printed XML string.
     """
 
-    class EMF(objectify.ElementMaker):
-        """Custome ElementMaker class to ease netconf namespace handling"""
-
-        def __init__(self, namespace=None, nsmap=None):
-            assert namespace or nsmap, "Must set either namespace or nsmap"
-            if namespace:
-                nsmap = {None: namespace}
-            elif nsmap:
-                namespace = nsmap[None]
-            super(pybindIETFXMLEncoder.EMF, self).__init__(annotate=False, namespace=namespace, nsmap=nsmap)
-
     @classmethod
     def generate_xml_tree(cls, module_name, module_namespace, tree):
         """Map the IETF structured, and value-processed, object tree into an lxml objectify object"""
-        doc = pybindIETFXMLEncoder.EMF(namespace=module_namespace)(module_name)
+        doc = etree.Element("{%s}%s" % (module_namespace, module_name), nsmap={None: module_namespace})
+
+        def add(parent, k, nsmap, text=None):
+            # elements are created in place, lxml removes the declaration of a prefix that the text of an
+            # element uses when it is moved below one that has the same namespace as its default
+            el = etree.SubElement(parent, "{%s}%s" % (nsmap[None], k), nsmap=nsmap)
+            el.text = text
+            return el
 
         def aux(parent, root):
             for k, v in root.items():
                 k, nsmap = k
-                E = pybindIETFXMLEncoder.EMF(nsmap=dict(nsmap))
+                nsmap = dict(nsmap)
                 if isinstance(v, SerialisedTypedList):
                     # TypedList (e.g. leaf-list or union-list), process each element as a sibling
                     for i in v:
-                        el = E(k, str(i).lower() if isinstance(i, bool) else str(i))
-                        parent.append(el)
+                        add(parent, k, nsmap, str(i).lower() if isinstance(i, bool) else str(i))
                 elif isinstance(v, list):
                     # a container maps to a list, recursively process each element as a child element
                     for i in v:
-                        el = E(k)
-                        parent.append(el)
-                        aux(el, i)
+                        aux(add(parent, k, nsmap), i)
                 elif isinstance(v, dict):
-                    el = E(k)
-                    parent.append(el)
-                    aux(el, v)
+                    aux(add(parent, k, nsmap), v)
                 elif v is None:
-                    el = E(k)
-                    parent.append(el)
+                    add(parent, k, nsmap)
                 elif isinstance(v, bool):
-                    _v = str(v).lower()
-                    parent.append(E(k, _v))
+                    add(parent, k, nsmap, str(v).lower())
                 else:
-                    parent.append(E(k, str(v)))
+                    add(parent, k, nsmap, str(v))
 
         aux(doc, tree)
-        return doc
+        return objectify.fromstring(etree.tostring(doc), objectify.makeparser(remove_blank_text=False, huge_tree=True))
 
     @staticmethod
     def yname_ns_func(parent_namespace, element, yname):
-- 
2.43.0


From d08f1d4e6bfa38c8da15867c718aaa1dde73158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 49/97] fix: leave the values of unions as they are when
 decoding IETF JSON and XML

---
 pyangbind/lib/serialise.py | 8 ++++----
 pyangbind/lib/yangtypes.py | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index be9282a..f7b7165 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -552,13 +552,13 @@ class pybindIETFXMLDecoder(object):
                     continue
 
                 val = child.text or ""
-                if is_empty(chobj):
+                if is_empty(chobj) and not chobj._pybind_union:
                     if child.text is None:
                         val = True
                     else:
                         raise ValueError("Invalid value for empty in input XML - key: %s, got: %s" % (ykey, val))
 
-                elif is_identityref(chobj):
+                elif is_identityref(chobj) and not chobj._pybind_union:
                     if ":" in val:
                         _, val = val.split(":", 1)
 
@@ -851,7 +851,7 @@ class pybindJSONDecoder(object):
                     pass
                 else:
                     val = d[key]
-                    if is_empty(chk):
+                    if is_empty(chk) and not chk._pybind_union:
                         # A 'none' value in the JSON means that an empty value is set,
                         # since this is serialised as [null] in the input JSON.
                         if val == [None]:
@@ -859,7 +859,7 @@ class pybindJSONDecoder(object):
                         else:
                             raise ValueError("Invalid value for empty in input JSON " "key: %s, got: %s" % (ykey, val))
 
-                    if is_identityref(chk):
+                    if is_identityref(chk) and not chk._pybind_union:
                         # identityref values in IETF JSON may contain their module name, as a prefix,
                         # but we don't build identities with these as valid values. If this is the
                         # case then re-write the value to just be the name of the identity that we
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 48451a5..93027c0 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1007,7 +1007,8 @@ def YANGDynClass(*args, **kwargs):
     if not base_type:
         raise TypeError("must have a base type")
 
-    if isinstance(base_type, list):
+    is_union = isinstance(base_type, list)
+    if is_union:
         # this is a union, we must infer type
         if not len(args):
             # there is no argument to infer the type from
@@ -1076,6 +1077,7 @@ def YANGDynClass(*args, **kwargs):
             __slots__ = tuple(clsslots)
 
         _pybind_base_class = regex.sub("<(type|class) '(?P<class>.*)'>", r"\g<class>", str(base_type))
+        _pybind_union = is_union
 
         def __new__(self, *args, **kwargs):
             try:
-- 
2.43.0


From b17430b5fa189328dfba16a9a9ad6dc40bf563ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 50/97] fix: skip subtrees of IETF JSON and of list entries,
 and select below prefixed names

---
 pyangbind/lib/pybindJSON.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index cf0bfd8..bd413b9 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -28,19 +28,18 @@ from pyangbind.lib.serialise import pybindIETFJSONEncoder, pybindJSONDecoder, py
 
 
 def remove_path(tree, path):
-    this_part = path.pop(0)
-    if len(path) == 0:
-        try:
-            del tree[this_part]
-            return tree
-        except KeyError:
-            # ignore missing dictionary key
-            pass
-    else:
-        try:
-            tree[this_part] = remove_path(tree[this_part], path)
-        except KeyError:
-            pass
+    if isinstance(tree, (list, OrderedDict)):
+        # the entries of a list, paths do not have the keys of an entry
+        for entry in tree.values() if isinstance(tree, OrderedDict) else tree:
+            remove_path(entry, path)
+    elif isinstance(tree, dict):
+        for name in list(tree):
+            # the name may be preceded by that of its module
+            if name.split(":")[-1] == path[0]:
+                if len(path) == 1:
+                    del tree[name]
+                else:
+                    remove_path(tree[name], path[1:])
     return tree
 
 
@@ -98,7 +97,7 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
         if len(key) == 1:
             return unresolved_dict[key[0]]
         current = key.pop(0)
-        return lookup_subdict(dictionary[current], key)
+        return lookup_subdict(unresolved_dict[current], key)
 
     if not isinstance(skip_subtrees, list):
         raise AttributeError("the subtrees to be skipped should be a list")
-- 
2.43.0


From 08a041cb533dc78fe7865e7cf8f177a23e1c75de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 51/97] fix: encode the values of a list that is dumped as IETF
 JSON itself by their types

---
 pyangbind/lib/serialise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f7b7165..67d2b66 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -103,6 +103,9 @@ class YangDataSerialiser(object):
                 # some elements that do not really exist - there is a need to
                 # exclude all elements that begin with "@"
                 index += 1
+        elif isinstance(d, list):
+            # the entries of a list
+            nd = [self.preprocess_element(i) for i in d]
         else:
             nd = d
         return nd
-- 
2.43.0


From 211842fff1c8cbbf28281661e96a35a25ab8d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 52/97] fix: leave emptied leaf-lists out of IETF output of
 data that is set

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 67d2b66..61c5686 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -449,7 +449,7 @@ def make_generate_ietf_tree(yname_ns_func):
                 ]
                 if not len(d[yname]):
                     del d[yname]
-            elif flt and generated_by == "TypedListType" and not len(element):
+            elif (flt or with_defaults is not None) and generated_by == "TypedListType" and not len(element):
                 # the members were removed, there is no data
                 continue
             else:
-- 
2.43.0


From bfb94a53c8987309b7f1e2fd7ab266604ba116a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 53/97] fix: have defaults of leaves that are not set in
 unfiltered IETF JSON and XML

---
 pyangbind/lib/serialise.py | 22 ++++++++++++++++++++--
 pyangbind/lib/yangtypes.py |  6 +++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 61c5686..8dacda0 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -285,6 +285,23 @@ class XmlYangDataSerialiser(IETFYangDataSerialiser):
         return None
 
 
+def unfiltered_value(element):
+    """The value of a leaf in unfiltered output, which is its default where it is not set"""
+    if element._changed() or getattr(element, "_default", False) is False:
+        return element
+    # the default does not need to be of the type of the leaf
+    for value_type in element._pybind_union or [element._base_type]:
+        try:
+            value = value_type(element._default)
+        except Exception:
+            continue
+        if is_identityref(value):
+            # whether this has a prefix depends on the module of the leaf
+            value._defining_module = element._defining_module
+        return value
+    return element._default
+
+
 class _pybindJSONEncoderBase(json.JSONEncoder):
     """
     Pybind JSON encoder base class. Implements default `encode()` and `default()` methods
@@ -378,7 +395,8 @@ class pybindIETFXMLEncoder(object):
         # to keeps things simple, we augment every key with a complete namespace map
         ns_map = [(None, element._namespace)]
         # the namespaces of the identities that are the value of the element, or of its members
-        for value in element if getattr(element, "_pybind_generated_by", None) == "TypedListType" else [element]:
+        is_list = getattr(element, "_pybind_generated_by", None) == "TypedListType"
+        for value in element if is_list else [unfiltered_value(element)]:
             identity = value._enumeration_dict.get(value) if is_identityref(value) else None
             if identity is not None:
                 ns_map.append((identity["@module"], identity["@namespace"]))
@@ -457,7 +475,7 @@ def make_generate_ietf_tree(yname_ns_func):
                     if flt and element._changed():
                         d[yname] = element
                     elif not flt:
-                        d[yname] = element
+                        d[yname] = unfiltered_value(element)
                 elif with_defaults == WithDefaults.IF_SET:
                     if element._changed():
                         d[yname] = element
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 93027c0..1eab47c 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1007,8 +1007,8 @@ def YANGDynClass(*args, **kwargs):
     if not base_type:
         raise TypeError("must have a base type")
 
-    is_union = isinstance(base_type, list)
-    if is_union:
+    union_types = base_type if isinstance(base_type, list) else None
+    if union_types:
         # this is a union, we must infer type
         if not len(args):
             # there is no argument to infer the type from
@@ -1077,7 +1077,7 @@ def YANGDynClass(*args, **kwargs):
             __slots__ = tuple(clsslots)
 
         _pybind_base_class = regex.sub("<(type|class) '(?P<class>.*)'>", r"\g<class>", str(base_type))
-        _pybind_union = is_union
+        _pybind_union = union_types
 
         def __new__(self, *args, **kwargs):
             try:
-- 
2.43.0


From 44f84894d460414dd1a66c2e44ad2c64e19be1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 54/97] fix: replace leaf-lists, empty lists and refuse unknown
 names with [] when loading IETF JSON

---
 pyangbind/lib/serialise.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 8dacda0..7ec2f2c 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -810,18 +810,20 @@ class pybindJSONDecoder(object):
                     skip_unknown=skip_unknown,
                 )
             elif isinstance(d[key], list):
-                for index, elem in enumerate(d[key]):
-                    # if this is a list, then this is a YANG list
-                    this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
-                    if this_attr is None and skip_unknown is not False:
-                        continue
-                    elif this_attr is None:
-                        raise AttributeError("List specified that did not exist")
-                    this_attr = this_attr()
-                    if hasattr(this_attr, "_keyval"):
-                        if overwrite and index == 0:
-                            for existing_key in list(this_attr.keys()):
-                                this_attr.delete(existing_key)
+                this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
+                if this_attr is None and skip_unknown is not False:
+                    continue
+                elif this_attr is None:
+                    raise AttributeError("List specified that did not exist")
+                this_attr = this_attr()
+                # if this is a list, then this is a YANG list, or otherwise a leaf-list
+                if not hasattr(this_attr, "_keyval"):
+                    std_method_set = True
+                else:
+                    if overwrite:
+                        for existing_key in list(this_attr.keys()):
+                            this_attr.delete(existing_key)
+                    for elem in d[key]:
                         #  this handles YANGLists
                         if this_attr._keyval is False:
                             # Keyless list, generate a key
@@ -855,9 +857,6 @@ class pybindJSONDecoder(object):
                             skip_unknown=skip_unknown,
                         )
                         pybindJSONDecoder.check_metadata_add(key, d, nobj)
-                    else:
-                        # this is a leaf-list
-                        std_method_set = True
             else:
                 std_method_set = True
 
-- 
2.43.0


From 4270b83a66788e03423a12e67c28f2a578bc3002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 55/97] fix: load empty lists from default JSON

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 7ec2f2c..f4525f0 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -692,7 +692,7 @@ class pybindJSONDecoder(object):
                         path_helper=path_helper,
                         skip_unknown=skip_unknown,
                     )
-                    set_via_stdmethod = False
+                set_via_stdmethod = False
             elif pybind_attr in [
                 "TypedListType",
                 "RestrictedClassType",
-- 
2.43.0


From 9632c0c38120bd66c56b4c8dd33a3610f1a81201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 56/97] fix: merge list entries whose numeric key was added as
 a number when loading

---
 pyangbind/lib/serialise.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f4525f0..84f6193 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -66,6 +66,20 @@ class SerialisedTypedList(list):
     pass
 
 
+def existing_entry(list_obj, key):
+    """The entry of a list with a key, which may have been added by a number or by the text of it"""
+    keys = [key, str(key)]
+    try:
+        if str(int(key)) == str(key):
+            keys.append(int(key))
+    except ValueError:
+        pass
+    for k in keys:
+        if k in list_obj:
+            return list_obj[k]
+    return None
+
+
 def is_empty(obj):
     """Whether obj is of type empty, which may be that of a typedef"""
     return isinstance(obj, YANGEmpty) or getattr(obj, "_yang_type", None) == "empty"
@@ -552,10 +566,9 @@ class pybindIETFXMLDecoder(object):
                     add_kwargs[pkv] = key_text
                     key_parts.append(key_text)
                 key_str = " ".join(map(str, key_parts))
-                if key_str not in chobj:
+                nobj = existing_entry(chobj, key_str)
+                if nobj is None:
                     nobj = chobj.add(**add_kwargs)
-                else:
-                    nobj = chobj[key_str]
 
                 # now we have created the nested object element, we add other members
                 pybindIETFXMLDecoder.load_xml(
@@ -681,9 +694,10 @@ class pybindJSONDecoder(object):
                     for existing_key in list(chobj.keys()):
                         chobj.delete(existing_key)
                 for child_key in key_order:
-                    if child_key not in chobj:
+                    parent = existing_entry(chobj, child_key)
+                    if parent is None:
                         chobj.add(child_key)
-                    parent = chobj[child_key]
+                        parent = chobj[child_key]
                     pybindJSONDecoder.load_json(
                         d[key][child_key],
                         parent,
@@ -836,16 +850,14 @@ class pybindJSONDecoder(object):
                                 kwargs[pkv] = pybindJSONDecoder.ietf_key_value(elem, ykv)
                                 keystr += "%s " % kwargs[pkv]
                             keystr = keystr.rstrip(" ")
-                            if keystr not in this_attr:
+                            nobj = existing_entry(this_attr, keystr)
+                            if nobj is None:
                                 nobj = this_attr.add(**kwargs)
-                            else:
-                                nobj = this_attr[keystr]
                         else:
                             k = pybindJSONDecoder.ietf_key_value(elem, this_attr._yang_keys)
-                            if k not in this_attr:
+                            nobj = existing_entry(this_attr, k)
+                            if nobj is None:
                                 nobj = this_attr.add(k)
-                            else:
-                                nobj = this_attr[k]
                         pybindJSONDecoder.load_ietf_json(
                             elem,
                             None,
-- 
2.43.0


From bfe00dc97b56ec6451c763030985ff621ced12ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 57/97] fix: the data nodes of a choice that is config false
 are read-only

---
 pyangbind/plugin/pybind.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 726de64..3f39302 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -679,6 +679,9 @@ def get_children_elements(
 
     for ch in i_children:
         if ch.keyword == "choice":
+            # a choice that is config false hands this down to all its cases
+            choice_config = ch.search_one("config")
+            choice_cfg = parent_cfg and (choice_config is None or class_bool_map[choice_config.arg])
             # These are cases
             for sub_choice_ch in ch.i_children:
                 sub_choice = (ch.arg, sub_choice_ch.arg)
@@ -694,7 +697,7 @@ def get_children_elements(
                     elements,
                     imports,
                     path=path,
-                    parent_cfg=parent_cfg,
+                    parent_cfg=choice_cfg,
                     choice=sub_choice,
                     register_paths=register_paths,
                 )
@@ -1572,7 +1575,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             )
 
             elemconfigdef = element.search_one("config")
-            elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+            elemconfig = parent_cfg and (class_bool_map[elemconfigdef.arg] if elemconfigdef else True)
 
             elemdict = {
                 "name": safe_name(element.arg),
@@ -1740,7 +1743,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             default_type = default_type["native_type"]
 
         elemconfigdef = element.search_one("config")
-        elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+        elemconfig = parent_cfg and (class_bool_map[elemconfigdef.arg] if elemconfigdef else True)
 
         elemname = safe_name(element.arg)
 
-- 
2.43.0


From 5d45b4933c4a1bb8ef1195553b77c9a7336cc81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 58/97] fix: operations and notifications refuse unknown
 attributes as containers do

---
 pyangbind/plugin/pybind.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 3f39302..90609ae 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -998,7 +998,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                     class_str["arg"] = "base=%s" % i["type"]
                 if "default" in i and not i["default"] is None:
                     class_str["arg"] += ", default=%s(%s)" % (i["defaulttype"], default_arg)
-            if i["class"] == "container":
+            if i["class"] in ["container", "rpc", "input", "output", "notification"]:
+                # operations, their input and output, and notifications act as containers
                 class_str["arg"] += ", is_container='container'"
                 if ctx.opts.generate_presence:
                     class_str["arg"] += ", presence=%s" % i["presence"]
-- 
2.43.0


From 84b290ca3e3b3f390716bd6c7091d5821b89df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 59/97] fix: entries of keyless lists refuse unknown attributes

---
 pyangbind/lib/yangtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 1eab47c..3c1335c 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -772,8 +772,9 @@ def YANGListType(*args, **kwargs):
                     base=self._contained_class,
                     parent=parent,
                     yang_name=yang_name,
-                    is_container=is_container,
+                    is_container="container",
                     path_helper=path_helper,
+                    register_paths=False,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
                     choice=self._choice,
-- 
2.43.0


From 571fb2a8fbf8e71d5f04eb5daacd15a81fe1de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 60/97] fix: names of nested directories of split classes agree
 for all names

---
 pyangbind/plugin/pybind.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 90609ae..bee590c 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -741,16 +741,11 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             pparts = path.split("/")
             npath = "/"
 
-            # Check that we don't have the problem of containers that are nested
-            # with the same name
+            # The class of the module has the elements at the top of the tree, or those
+            # in the directory of the operations or notifications (which do not register).
+            top = 1 if register_paths else 2
             for i in range(1, len(pparts)):
-                if i > 0 and pparts[i] == pparts[i - 1]:
-                    pname = safe_name(pparts[i]) + "_"
-                elif i == 1 and pparts[i] == module.arg:
-                    pname = safe_name(pparts[i]) + "_"
-                else:
-                    pname = safe_name(pparts[i])
-                npath += pname + "/"
+                npath += split_class_dir_name(pparts[i], module.arg if i == top else pparts[i - 1]) + "/"
 
             bpath = ctx.pybind_split_basepath + npath
             if not os.path.exists(bpath):
@@ -808,10 +803,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     if ctx.opts.split_class_dir:
         if len(import_req):
             for im in import_req:
-                if im == parent.arg:
-                    im += "_"
                 # Relative import in PY2/PY3 compatible style
-                nfd.write("from . import {}\n".format(safe_name(im)))
+                nfd.write("from . import {}\n".format(split_class_dir_name(im, parent.arg)))
 
     # 'container', 'module', 'list' and 'submodule' all have their own classes
     # generated.
@@ -1247,6 +1240,13 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def split_class_dir_name(name, parent_name):
+    # The name of the directory for an element when classes are split. It is imported
+    # where the class of its parent is defined, and must not have the name of that class.
+    name = safe_name(name)
+    return name + "_" if name == safe_name(parent_name) else name
+
+
 def generated_class_name(ctx, element, module, path):
     # The name of the class for an element where all classes are in one file. Paths
     # that only differ in characters that are not allowed in names are told apart.
@@ -1600,10 +1600,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 # If we were dealing with split classes, then rather than naming the
                 # class based on a unique intra-file name - and rather we must import
                 # the relative path to the module.class
-                if element.arg == parent.arg:
-                    modname = safe_name(element.arg) + "_"
-                else:
-                    modname = safe_name(element.arg)
+                modname = split_class_dir_name(element.arg, parent.arg)
                 elemdict["type"] = "%s.%s" % (modname, safe_name(element.arg))
 
             else:
-- 
2.43.0


From fca1f732723bcfc10cc5f87815be57bcaa6a94cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 61/97] fix: directories of split classes can have the names of
 variables of the generated code

---
 pyangbind/plugin/pybind.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index bee590c..5be6ee0 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -803,8 +803,9 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     if ctx.opts.split_class_dir:
         if len(import_req):
             for im in import_req:
-                # Relative import in PY2/PY3 compatible style
-                nfd.write("from . import {}\n".format(split_class_dir_name(im, parent.arg)))
+                # Relative import in PY2/PY3 compatible style, by a name that the variables
+                # of the generated code do not have.
+                nfd.write("from . import {0} as _yc_{0}\n".format(split_class_dir_name(im, parent.arg)))
 
     # 'container', 'module', 'list' and 'submodule' all have their own classes
     # generated.
@@ -1601,7 +1602,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 # class based on a unique intra-file name - and rather we must import
                 # the relative path to the module.class
                 modname = split_class_dir_name(element.arg, parent.arg)
-                elemdict["type"] = "%s.%s" % (modname, safe_name(element.arg))
+                elemdict["type"] = "_yc_%s.%s" % (modname, safe_name(element.arg))
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-- 
2.43.0


From 95635bd5df82cae7b5e7d0470c8bd1e24367cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 62/97] fix: split classes of modules with top-level nodes of
 the same name are kept apart

---
 pyangbind/plugin/pybind.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 5be6ee0..2f4a5f4 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -427,6 +427,7 @@ long = int
     # kept, such that references to it can be found.
     ctx.pybind_typedef_names = {}
     ctx.pybind_class_paths = {}
+    ctx.pybind_split_dirs = {}
     build_identities(ctx, defn["identity"])
     build_typedefs(ctx, defn["typedef"])
 
@@ -745,7 +746,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             # in the directory of the operations or notifications (which do not register).
             top = 1 if register_paths else 2
             for i in range(1, len(pparts)):
-                npath += split_class_dir_name(pparts[i], module.arg if i == top else pparts[i - 1]) + "/"
+                parent_name = module.arg if i == top else pparts[i - 1]
+                npath += split_class_dir_name(ctx, pparts[i], parent_name, module if i == 1 else None) + "/"
 
             bpath = ctx.pybind_split_basepath + npath
             if not os.path.exists(bpath):
@@ -805,7 +807,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             for im in import_req:
                 # Relative import in PY2/PY3 compatible style, by a name that the variables
                 # of the generated code do not have.
-                nfd.write("from . import {0} as _yc_{0}\n".format(split_class_dir_name(im, parent.arg)))
+                dir_name = split_class_dir_name(ctx, im, parent.arg, module if path == "" else None)
+                nfd.write("from . import {0} as _yc_{0}\n".format(dir_name))
 
     # 'container', 'module', 'list' and 'submodule' all have their own classes
     # generated.
@@ -1241,11 +1244,22 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
-def split_class_dir_name(name, parent_name):
+def split_class_dir_name(ctx, name, parent_name, module=None):
     # The name of the directory for an element when classes are split. It is imported
     # where the class of its parent is defined, and must not have the name of that class.
+    # For elements at the top of a module, that is given, the directory is shared between
+    # all modules: elements of the same name in different modules are told apart.
     name = safe_name(name)
-    return name + "_" if name == safe_name(parent_name) else name
+    if name == safe_name(parent_name):
+        name += "_"
+    if module is not None:
+        owner = module.i_modulename if module.keyword == "submodule" else module.arg
+        candidate, index = name, 0
+        while ctx.pybind_split_dirs.setdefault(candidate, owner) != owner:
+            index += 1
+            candidate = "%s__%d" % (name, index)
+        name = candidate
+    return name
 
 
 def generated_class_name(ctx, element, module, path):
@@ -1601,7 +1615,9 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 # If we were dealing with split classes, then rather than naming the
                 # class based on a unique intra-file name - and rather we must import
                 # the relative path to the module.class
-                modname = split_class_dir_name(element.arg, parent.arg)
+                modname = split_class_dir_name(
+                    ctx, element.arg, parent.arg, module if path.count("/") == 1 else None
+                )
                 elemdict["type"] = "_yc_%s.%s" % (modname, safe_name(element.arg))
 
             else:
-- 
2.43.0


From 960c64566776d4db2b2ae910f902e2a8fcbb6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 63/97] fix: typedefs below an augment of a uses statement are
 found

---
 pyangbind/helpers/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/helpers/misc.py b/pyangbind/helpers/misc.py
index 9193d62..ed77862 100644
--- a/pyangbind/helpers/misc.py
+++ b/pyangbind/helpers/misc.py
@@ -44,6 +44,7 @@ def find_child_definitions(obj, defn, prefix, definitions):
         "list",
         "choice",
         "case",
+        "uses",
         "augment",
         "rpc",
         "input",
@@ -53,7 +54,7 @@ def find_child_definitions(obj, defn, prefix, definitions):
 
     for parent_type in possible_parents:
         for ch in obj.search(parent_type):
-            if ch.i_children:
+            if parent_type == "uses" or ch.i_children:
                 find_child_definitions(ch, defn, prefix, definitions)
 
     return definitions
-- 
2.43.0


From 191136812608972c49b6c66d40d921d31eb1e08d Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 64/97] fix: nodes below entries of keyless lists, and in lists
 of operations, can be used with a path helper

---
 pyangbind/lib/yangtypes.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 3c1335c..fa9224a 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -869,7 +869,7 @@ def YANGListType(*args, **kwargs):
 
             try:
                 obj = self._members.pop(k)
-                if self._path_helper and self._keyval:
+                if self._path_helper and self._keyval and self._registers():
                     self._path_helper.unregister(obj._path())
             except KeyError as m:
                 raise KeyError("key %s was not in list (%s)" % (k, m))
@@ -1147,20 +1147,26 @@ def YANGDynClass(*args, **kwargs):
                 self._set()
 
         def _register(self):
+            if not self._path_helper or not self._registers():
+                return
             # lists themselves do not register, only elements within them
             # are actually created in the tree.
-            if self._is_container == "list" and self._path_helper:
+            if self._is_container == "list":
                 # entries of a list that this replaces are no longer in the tree
                 if self._path_helper.get(self._register_path()):
                     self._path_helper.unregister(self._register_path())
-            if not self._is_container == "list":
-                if self._path_helper:
-                    if self._supplied_register_path is None:
-                        if self._register_paths:
-                            self._path_helper.register(self._register_path(), self)
-                    else:
-                        if self._register_paths:
-                            self._path_helper.register(self._supplied_register_path, self)
+            else:
+                self._path_helper.register(self._register_path(), self)
+
+        def _registers(self):
+            # entries of lists without keys, and operations, are not in the tree
+            # that the path helper has, and neither is anything below them.
+            node = self
+            while node is not None and hasattr(node, "_register_paths"):
+                if not node._register_paths:
+                    return False
+                node = node._parent
+            return True
 
         def _changed(self):
             return self._mchanged
-- 
2.43.0


From b9a36dd800bfb2a21787b1ae1a91111588c1364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 65/97] fix: keep the leaf-lists of a container that is
 assigned

---
 pyangbind/lib/yangtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index fa9224a..72a6c63 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -434,7 +434,8 @@ def TypedListType(*args, **kwargs):
             self._allowed_type = allowed_type
             self._list = list()
             if len(args):
-                if isinstance(args[0], list):
+                # the leaf-lists of a container that is assigned are copied
+                if isinstance(args[0], list) or getattr(args[0], "_pybind_generated_by", None) == "TypedListType":
                     tmp = []
                     for i in args[0]:
                         i = self._convert(i)
-- 
2.43.0


From 2eb644905c4db466f996846593ef9b4c8662e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 66/97] fix: keep what a path helper finds when a container or
 list refuses a value

---
 pyangbind/lib/yangtypes.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 72a6c63..654e1fe 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -958,6 +958,24 @@ def unset_other_cases(obj, choice):
         choice = choice[2] if len(choice) > 2 else False
 
 
+def restore_paths(path_helper, path, objs):
+    """
+    Register objs, and everything below them, in place of what is registered at path
+    with the path_helper: for a value that has been refused after it was registered.
+    """
+    if path_helper.get(path):
+        path_helper.unregister(path)
+    todo = list(objs)
+    while todo:
+        obj = todo.pop(0)
+        if obj._is_container == "list":
+            todo.extend(obj.values())
+        else:
+            obj._register()
+            for elem in getattr(obj, "_pyangbind_elements", {}):
+                todo.append(getattr(obj, "_get_%s" % elem)())
+
+
 def YANGDynClass(*args, **kwargs):
     """
     Wrap an type - specified in the base_type arugment - with
@@ -1127,7 +1145,10 @@ def YANGDynClass(*args, **kwargs):
                 self._default = default
 
             is_data_node = self._is_container in ("list", "container")
+            replaced = []
             if is_data_node:
+                if self._path_helper and len(args):
+                    replaced = self._path_helper.get(self._register_path())
                 self._register()
                 kwargs["path_helper"] = self._path_helper
                 if load is not None:
@@ -1138,6 +1159,8 @@ def YANGDynClass(*args, **kwargs):
             except TypeError:
                 super(YANGBaseClass, self).__init__()
             except Exception:
+                if self._path_helper and is_data_node and len(args):
+                    restore_paths(self._path_helper, self._register_path(), replaced)
                 raise
 
             # a value that is refused must not affect anything else, such
-- 
2.43.0


From f5818506028ab611c4a93bc1533553a10d307760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 67/97] fix: keep the lists of a container that is assigned

---
 pyangbind/plugin/pybind.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 2f4a5f4..c47b2cd 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1102,7 +1102,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         raise ValueError("Supplied object did not have the correct attributes")
       for e in self._pyangbind_elements:
         nobj = getattr(args[0], e)
-        if nobj._changed() is False:
+        # a list does not track whether there are changes to its entries
+        if nobj._changed() is False and not (nobj._is_container == "list" and len(nobj)):
           continue
         setmethod = getattr(self, "_set_%s" % e)
         if load is None:
-- 
2.43.0


From 7f7cdcf571f641a0ab71cdac4f4167f14e455962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 68/97] fix: the root of a path helper has lists at the top of
 modules as lists

---
 pyangbind/lib/xpathhelper.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index e0d2ff2..f44f06b 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -103,6 +103,13 @@ class FakeRoot(PybindBase):
     def __init__(self):
         self._pyangbind_elements = OrderedDict()
 
+    def __getattr__(self, name):
+        # lists are looked up where they are, since they can be replaced
+        getfn = self.__dict__.get("_get_%s" % name)
+        if getfn is None:
+            raise AttributeError("the root has no element named %s" % name)
+        return getfn()
+
 
 class YANGPathHelper(PybindXpathHelper):
     _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>\[.+\])$", regex.DOTALL)
@@ -241,9 +248,16 @@ class YANGPathHelper(PybindXpathHelper):
         # it allows modules to register themselves against the FakeRoot
         # class which acts as per other PyangBind objects.
         if len(object_path) == 1:
-            setattr(self._library["root"], object_path[0], object_ptr)
-            setattr(self._library["root"], "_get_%s" % safe_name(object_path[0]), lambda: object_ptr)
-            self._library["root"]._pyangbind_elements[object_path[0]] = None
+            root = self._library["root"]
+            (tagname, attributes) = self._tagname_attributes(object_path[0])
+            name = safe_name(tagname)
+            if attributes is None:
+                setattr(root, name, object_ptr)
+                setattr(root, "_get_%s" % name, lambda: object_ptr)
+            else:
+                # it is the list that this is an entry of that is an element of the root
+                setattr(root, "_get_%s" % name, lambda: getattr(object_ptr._parent, "_get_%s" % name)())
+            root._pyangbind_elements[name] = None
 
         # check whether we're updating
         this_obj_existing = self._get_etree(object_path)
-- 
2.43.0


From 205296fb145c8e85d56dd61e445cd6d2ba5e9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 69/97] fix: keep entries whose keys are references that are
 refused out of the path helper

---
 pyangbind/lib/yangtypes.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 654e1fe..d378419 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -725,6 +725,10 @@ def YANGListType(*args, **kwargs):
                         for kn in keydict:
                             getattr(tmp, "_set_%s" % safe_name(kn))(keydict[kn], load=True)
 
+                    register_path = self._parent._path() + [self._yang_name + path_keystring]
+                    replaced = []
+                    if path_helper and self._registers():
+                        replaced = path_helper.get(register_path)
                     if not update:
                         tmp = YANGDynClass(
                             base=self._contained_class,
@@ -732,7 +736,7 @@ def YANGListType(*args, **kwargs):
                             yang_name=yang_name,
                             is_container="container",
                             path_helper=path_helper,
-                            register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_path=register_path,
                             extmethods=self._parent._extmethods,
                             extensions=extensions,
                             choice=self._choice,
@@ -747,7 +751,7 @@ def YANGListType(*args, **kwargs):
                             yang_name=yang_name,
                             is_container="container",
                             path_helper=path_helper,
-                            register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_path=register_path,
                             extmethods=self._parent._extmethods,
                             load=True,
                             extensions=extensions,
@@ -755,9 +759,15 @@ def YANGListType(*args, **kwargs):
                         )
 
                     if keydict is not None:
-                        for kn in keydict:
-                            key = getattr(tmp, "_set_%s" % safe_name(kn))
-                            key(keydict[kn], load=True)
+                        try:
+                            for kn in keydict:
+                                key = getattr(tmp, "_set_%s" % safe_name(kn))
+                                key(keydict[kn], load=True)
+                        except Exception:
+                            # keys that are references are only known to be valid here
+                            if path_helper and self._registers():
+                                restore_paths(path_helper, register_path, replaced)
+                            raise
 
                     if hasattr(k, "_referenced_object") and k._referenced_object is not None:
                         k = k._referenced_object
-- 
2.43.0


From 2621831d5edee04ab8de64e7aa655d851531e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 70/97] fix: compare references by what they refer to

---
 pyangbind/lib/yangtypes.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d378419..5de96cd 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1446,6 +1446,21 @@ def ReferenceType(*args, **kwargs):
                 return str(self._referenced_object)
             return str(self._get_ptr())
 
+        def __eq__(self, other):
+            # references are compared by the values that they refer to
+            value = self._get()
+            if getattr(other, "_pybind_generated_by", None) == "ReferencePathType":
+                other = other._get()
+            if value is False or value is None or other is False or other is None:
+                return value is other
+            return str(value) == str(other)
+
+        def __ne__(self, other):
+            return not self == other
+
+        def __hash__(self):
+            return hash(str(self))
+
     return type(ReferencePathType(*args, **kwargs))
 
 
-- 
2.43.0


From 14cd2346834749c126ead9e8ea6e3fb834121910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 71/97] fix: leaf-lists of references hold each value once

---
 pyangbind/plugin/pybind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index c47b2cd..ea0d0c1 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -974,7 +974,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 # class to properly initialise.
                 class_str["name"] = "__%s" % (i["name"])
                 class_str["type"] = "YANGDynClass"
-                class_str["arg"] = "base=%s" % i["type"]["native_type"][0]
+                class_str["arg"] = "unique=True, base=%s" % i["type"]["native_type"][0]
                 class_str["arg"] += "(allowed_type=%s(referenced_path='%s'," % (
                     i["type"]["native_type"][1]["native_type"],
                     i["type"]["native_type"][1]["referenced_path"],
-- 
2.43.0


From c42bb8c28629a410832b474d7b46827a570203d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 72/97] fix: references take the values of unset leaves for no
 values, and look in all leaf-lists

---
 pyangbind/lib/yangtypes.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 5de96cd..2476681 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1397,20 +1397,18 @@ def ReferenceType(*args, **kwargs):
                         found = False
                         path_chk = self._path_helper.get(self._referenced_path, caller=self._caller)
 
-                        if len(path_chk) == 1 and is_yang_leaflist(path_chk[0]):
-                            index = 0
-                            for i in path_chk[0]:
-                                if str(i) == str(value):
-                                    found = True
-                                    self._referenced_object = path_chk[0][index]
-                                    break
-                                index += 1
-                        else:
-                            found = False
-                            for i in path_chk:
-                                if str(i) == str(value):
-                                    found = True
-                                    self._referenced_object = i
+                        candidates = []
+                        for node in path_chk:
+                            if is_yang_leaflist(node):
+                                candidates.extend(node)
+                            elif node._changed() or node._default is not False:
+                                # leaves that have no value are not instances
+                                candidates.append(node)
+                        for i in candidates:
+                            if str(i) == str(value):
+                                found = True
+                                self._referenced_object = i
+                                break
 
                         if not found:
                             raise ValueError(
-- 
2.43.0


From 752e30bc8717f819b6d0912f3dd02f66c95399a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 73/97] fix: a predicate with current() on a leaf that is unset
 selects nothing

---
 pyangbind/lib/xpathhelper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index f44f06b..beb04a8 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -198,6 +198,10 @@ class YANGPathHelper(PybindXpathHelper):
                                 "XPATH specified a current() expression that " + "returned a non-unique list"
                             )
                         v = resolved_current_attr[0]
+                        if not v._changed() and v._default is False:
+                            # a leaf that has no value is not equal to anything
+                            epath += "false() and "
+                            continue
                     epath += "@%s=%s " % (k, quote_value(v))
                     if mode == "search":
                         epath += "and "
-- 
2.43.0


From e5f7f1a7ac8ff513e49f94d48809e4ea727116bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 74/97] fix: a reference to the key of a deleted entry keeps
 its value

---
 pyangbind/lib/yangtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 2476681..92e1bda 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1407,6 +1407,9 @@ def ReferenceType(*args, **kwargs):
                         for i in candidates:
                             if str(i) == str(value):
                                 found = True
+                                # what a pointer points to outlives the pointer
+                                while getattr(i, "_ptr", False):
+                                    i = i._get()
                                 self._referenced_object = i
                                 break
 
-- 
2.43.0


From cfc1aa4eb6ccababcf8d2e235fdede7160acba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 75/97] fix: record extensions that are used within submodules
 of their module

---
 pyangbind/plugin/pybind.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index ea0d0c1..7bfc474 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1552,10 +1552,17 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
     if element.substmts is not None and ctx.opts.pybind_interested_exts is not None:
         extensions = {}
         for ext in element.substmts:
-            if ext.keyword[0] in ctx.opts.pybind_interested_exts:
-                if not ext.keyword[0] in extensions:
-                    extensions[ext.keyword[0]] = {}
-                extensions[ext.keyword[0]][ext.keyword[1]] = ext.arg
+            ext_module = ext.keyword[0]
+            if ext_module not in ctx.opts.pybind_interested_exts:
+                # within a submodule, extensions of the module that it belongs to
+                # have the name of the submodule
+                submodule = ctx.get_module(ext_module)
+                if submodule is not None and submodule.keyword == "submodule":
+                    ext_module = submodule.search_one("belongs-to").arg
+            if ext_module in ctx.opts.pybind_interested_exts:
+                if ext_module not in extensions:
+                    extensions[ext_module] = {}
+                extensions[ext_module][ext.keyword[1]] = ext.arg
 
     # If the element has an i_children attribute then this is a container, list
     # leaf-list or choice. Alternatively, it can be the 'input' or 'output'
-- 
2.43.0


From c941150742bd1a803f822263d629af37c3f6f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 76/97] fix: statements that are not extensions are not
 recorded as such

---
 pyangbind/plugin/pybind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 7bfc474..52c5273 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1552,6 +1552,9 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
     if element.substmts is not None and ctx.opts.pybind_interested_exts is not None:
         extensions = {}
         for ext in element.substmts:
+            if not isinstance(ext.keyword, tuple):
+                # not an extension
+                continue
             ext_module = ext.keyword[0]
             if ext_module not in ctx.opts.pybind_interested_exts:
                 # within a submodule, extensions of the module that it belongs to
-- 
2.43.0


From 58c85b1843e6552e5fb71ddbff4a32313b0d5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 77/97] fix: an extension method named method does not hide
 others

---
 pyangbind/lib/yangtypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 92e1bda..6659022 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1148,8 +1148,7 @@ def YANGDynClass(*args, **kwargs):
                             continue
                         member = getattr(self._extmethods[chk_path], method)
                         if hasattr(member, "__call__"):
-                            if not hasattr(self, "_method"):
-                                setattr(self, "_" + method, self.__generate_extmethod(member))
+                            setattr(self, "_" + method, self.__generate_extmethod(member))
 
             if default is not False:
                 self._default = default
-- 
2.43.0


From 33169038f925c9cfe3b494c33cd521ebae25f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 78/97] fix: changes to the bits of a leaf are checked, and
 have the effects of setting it

The methods of a set other than add, clear, discard, pop and remove took any
name and did not mark the leaf as changed; none of them returned other cases
of a choice to their defaults or marked presence containers.
---
 pyangbind/lib/yangtypes.py | 65 +++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 6659022..8ae6df6 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1522,38 +1522,79 @@ def YANGBitsType(allowed_bits):
 
             if args:
                 value = args[0]
-                for bit in value.split() if isinstance(value, str) else value:
-                    self.add(bit)
+                super().update(self._check_bits(value.split() if isinstance(value, str) else value))
 
         def _add_bit_definition(self, bit, position):
             self._allowed_bits[bit] = position
 
+        def _check_bits(self, bits):
+            bits = list(bits)
+            for bit in bits:
+                if bit not in self._allowed_bits:
+                    raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+            return bits
+
+        def _bits_changed(self):
+            # within a data tree, changing the bits has the same effects as setting the leaf
+            self._mchanged = True
+            if hasattr(self, "_set"):
+                self._set()
+
         # overwrite set methods to 1/ check for legal values and 2/ set the
         # changed flag
         def add(self, bit):
-            if bit not in self._allowed_bits:
-                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
-            super().add(bit)
-            self._mchanged = True
+            super().update(self._check_bits([bit]))
+            self._bits_changed()
 
         def clear(self):
             super().clear()
-            self._mchanged = True
+            self._bits_changed()
 
         def discard(self, bit):
-            if bit not in self._allowed_bits:
-                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+            self._check_bits([bit])
             super().discard(bit)
-            self._mchanged = True
+            self._bits_changed()
 
         def pop(self):
             bit = super().pop()
-            self._mchanged = True
+            self._bits_changed()
             return bit
 
         def remove(self, bit):
             super().remove(bit)
-            self._mchanged = True
+            self._bits_changed()
+
+        def update(self, *others):
+            super().update(*[self._check_bits(i) for i in others])
+            self._bits_changed()
+
+        def intersection_update(self, *others):
+            super().intersection_update(*others)
+            self._bits_changed()
+
+        def difference_update(self, *others):
+            super().difference_update(*others)
+            self._bits_changed()
+
+        def symmetric_difference_update(self, other):
+            super().symmetric_difference_update(self._check_bits(other))
+            self._bits_changed()
+
+        def __ior__(self, other):
+            self.update(other)
+            return self
+
+        def __iand__(self, other):
+            self.intersection_update(other)
+            return self
+
+        def __isub__(self, other):
+            self.difference_update(other)
+            return self
+
+        def __ixor__(self, other):
+            self.symmetric_difference_update(other)
+            return self
 
         def __str__(self, encoding="ascii", errors="replace"):
             """Return bits as shown in JSON."""
-- 
2.43.0


From edff2a20943ff161cbeadb6494ee998feddd73ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 79/97] fix: bits can be removed from a leaf that has a path
 helper

---
 pyangbind/lib/yangtypes.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 8ae6df6..7a81c4f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1263,9 +1263,6 @@ def YANGDynClass(*args, **kwargs):
         def remove(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "remove"):
                 raise AttributeError("%s object has no attribute remove" % base_type)
-            if self._path_helper:
-                elem_index = super(YANGBaseClass, self).index(*args, **kwargs)
-                super(YANGBaseClass, self).__getitem__(elem_index)
             super(YANGBaseClass, self).remove(*args, **kwargs)
             self._set()
 
-- 
2.43.0


From 0324ac54d7be32dba0fabf24346e42d691b1d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 80/97] fix: choices of the same name that different modules
 add to a node are distinct

---
 pyangbind/plugin/pybind.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 52c5273..16bf556 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -683,9 +683,13 @@ def get_children_elements(
             # a choice that is config false hands this down to all its cases
             choice_config = ch.search_one("config")
             choice_cfg = parent_cfg and (choice_config is None or class_bool_map[choice_config.arg])
-            # These are cases
+            # These are cases. The names are qualified, since different modules may add
+            # choices (or cases) with the same name to a node.
             for sub_choice_ch in ch.i_children:
-                sub_choice = (ch.arg, sub_choice_ch.arg)
+                sub_choice = (
+                    "%s:%s" % (ch.main_module().arg, ch.arg),
+                    "%s:%s" % (sub_choice_ch.main_module().arg, sub_choice_ch.arg),
+                )
                 if choice:
                     # a choice within a case is also subject to the choice of that case
                     sub_choice += (choice,)
-- 
2.43.0


From c9f47ae62ca5f96342df372f89ce44270904afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:07 +0000
Subject: [PATCH 81/97] fix: the document of an augmented container is in the
 namespace of its module

---
 pyangbind/plugin/pybind.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 16bf556..050d2c3 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -893,8 +893,11 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         # creating instance documents (e.g., peer-group is not valid due to '-').
         nfd.write("  _yang_name = '%s'\n" % (parent.arg))
 
-        # Store the namespace URI for easier access during XML serialisation
-        if module.keyword == "submodule":
+        # Store the namespace URI for easier access during XML serialisation. A node
+        # that was augmented into the tree of another module is in that of its own module.
+        if parent.keyword not in ("module", "submodule"):
+            mod_location = parent.main_module()
+        elif module.keyword == "submodule":
             mod_location = next(v for k, v in ctx.modules.items() if k[0] == module.i_modulename)
         else:
             mod_location = module
-- 
2.43.0


From eb9509e0182252094ebce448ab4e2b4613a84446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 82/97] fix: nodes with the names of attributes of the bindings
 can be used

---
 pyangbind/lib/yangtypes.py | 45 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 7a81c4f..f93dbca 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -93,6 +93,51 @@ reserved_name = [
     "False",
     "append",
     "extend",
+    # attributes of the classes of the bindings, and names that these refer to
+    "_add_metadata",
+    "_base_type",
+    "_changed",
+    "_choice",
+    "_cpresent",
+    "_default",
+    "_defining_module",
+    "_extensions",
+    "_extensionsd",
+    "_extmethods",
+    "_is_config",
+    "_is_container",
+    "_is_keyval",
+    "_is_leaf",
+    "_mchanged",
+    "_metadata",
+    "_namespace",
+    "_parent",
+    "_path",
+    "_path_helper",
+    "_presence",
+    "_present",
+    "_pyangbind_elements",
+    "_pybind_base_class",
+    "_pybind_generated_by",
+    "_pybind_union",
+    "_register",
+    "_register_path",
+    "_register_paths",
+    "_registers",
+    "_set",
+    "_set_present",
+    "_supplied_register_path",
+    "_yang_name",
+    "_yang_namespace",
+    "_yang_path",
+    "_yang_type",
+    "OrderedDict",
+    "__builtin__",
+    "__doc__",
+    "__init__",
+    "__module__",
+    "__new__",
+    "__slots__",
 ]
 
 
-- 
2.43.0


From 31d7c3d9484af070764bad6d41226104a39a8d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 83/97] fix: containers with names that generated code refers
 to can be used in split classes

---
 pyangbind/plugin/pybind.py | 45 +++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 050d2c3..9d57eb7 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -46,6 +46,37 @@ from pyangbind.lib.yangtypes import (
 
 long = int
 
+# The names that generated code refers to. When classes are split, neither a class nor
+# the directory that it is in can have one of them.
+generated_code_names = (
+    "AttributeError",
+    "Decimal",
+    "OrderedDict",
+    "PybindBase",
+    "ReferenceType",
+    "RestrictedClassType",
+    "RestrictedPrecisionDecimalType",
+    "TypeError",
+    "TypedListType",
+    "ValueError",
+    "YANGBinary",
+    "YANGBitsType",
+    "YANGBool",
+    "YANGDynClass",
+    "YANGEmpty",
+    "YANGListType",
+    "attrgetter",
+    "dict",
+    "getattr",
+    "hasattr",
+    "int",
+    "isinstance",
+    "len",
+    "long",
+    "str",
+    "xpathhelper",
+)
+
 # The names that the native types of the class_map are built from, used where a
 # type must be instantiated in order to determine whether a value is valid for it.
 native_type_namespace = {
@@ -818,7 +849,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     # generated.
     if parent.keyword in ["container", "module", "list", "submodule", "input", "output", "rpc", "notification"]:
         if ctx.opts.split_class_dir:
-            nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
+            nfd.write("class %s(PybindBase):\n" % split_class_name(parent))
         else:
             if not path == "":
                 nfd.write("class %s(PybindBase):\n" % generated_class_name(ctx, parent, module, path))
@@ -1252,13 +1283,21 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def split_class_name(element):
+    # The name of the class for an element when classes are split.
+    name = safe_name(element.arg)
+    if name in generated_code_names and element.keyword not in ("module", "submodule"):
+        name += "_"
+    return name
+
+
 def split_class_dir_name(ctx, name, parent_name, module=None):
     # The name of the directory for an element when classes are split. It is imported
     # where the class of its parent is defined, and must not have the name of that class.
     # For elements at the top of a module, that is given, the directory is shared between
     # all modules: elements of the same name in different modules are told apart.
     name = safe_name(name)
-    if name == safe_name(parent_name):
+    if name == safe_name(parent_name) or name in generated_code_names:
         name += "_"
     if module is not None:
         owner = module.i_modulename if module.keyword == "submodule" else module.arg
@@ -1636,7 +1675,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 modname = split_class_dir_name(
                     ctx, element.arg, parent.arg, module if path.count("/") == 1 else None
                 )
-                elemdict["type"] = "_yc_%s.%s" % (modname, safe_name(element.arg))
+                elemdict["type"] = "_yc_%s.%s" % (modname, split_class_name(element))
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-- 
2.43.0


From 18a4c45329f26453062bfcc88e824cc336c5855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 84/97] fix: values of binary that are not in base64 are
 refused

---
 pyangbind/lib/yangtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index f93dbca..d329700 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1516,7 +1516,8 @@ class YANGBinary(bytes):
         if args:
             value = args[0]
             if isinstance(value, str):
-                value = base64.b64decode(value)
+                # whitespace is allowed between the characters of the encoding only
+                value = base64.b64decode("".join(value.split()), validate=True)
             elif isinstance(value, bytes):
                 value = value
             else:
-- 
2.43.0


From dbeec86db2fcc442ddfca16eac7f9546491e404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 85/97] fix: paths of leafrefs can have any whitespace between
 their parts

---
 pyangbind/plugin/pybind.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 9d57eb7..e7ad646 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1461,7 +1461,8 @@ def build_elemtype(ctx, et, prefix=False):
             if ctx.opts.use_xpathhelper:
                 elemtype = {
                     "native_type": "ReferenceType",
-                    "referenced_path": path_stmt.arg,
+                    # whitespace has no meaning in the path of a leafref
+                    "referenced_path": "".join(path_stmt.arg.split()),
                     "parent_type": "string",
                     "base_type": False,
                     "require_instance": require_instance,
-- 
2.43.0


From 4c999248afe2bb7b5a01bd8df5b90bda855b23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 86/97] fix: namespaces can have quotes

---
 pyangbind/plugin/pybind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index e7ad646..bd722e7 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -932,7 +932,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             mod_location = next(v for k, v in ctx.modules.items() if k[0] == module.i_modulename)
         else:
             mod_location = module
-        nfd.write("  _yang_namespace = '%s'\n" % (mod_location.search("namespace")[0].arg))
+        nfd.write("  _yang_namespace = %s\n" % repr(mod_location.search("namespace")[0].arg))
 
         choices = {}
         choice_attrs = []
@@ -1062,7 +1062,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                     class_str["arg"] += ", extensions=%s" % i["extensions"]
                 if keyval and i["yang_name"] in keyval:
                     class_str["arg"] += ", is_keyval=True"
-                class_str["arg"] += ", namespace='%s'" % i["namespace"]
+                class_str["arg"] += ", namespace=%s" % repr(i["namespace"])
                 class_str["arg"] += ", defining_module='%s'" % i["defining_module"]
                 class_str["arg"] += ", yang_type='%s'" % i["origtype"]
                 class_str["arg"] += ", is_config=%s" % (i["config"] and parent_cfg)
-- 
2.43.0


From dc8f140291bc0a153608fd25ff3efb52130a7551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 87/97] fix: keys that hold the text of a current() expression
 are found

---
 pyangbind/lib/xpathhelper.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index beb04a8..e9ccf93 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -111,6 +111,11 @@ class FakeRoot(PybindBase):
         return getfn()
 
 
+# What a key is compared to in a predicate, where that is not quoted
+class PredicateExpression(str):
+    pass
+
+
 class YANGPathHelper(PybindXpathHelper):
     _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>\[.+\])$", regex.DOTALL)
     _arg_re = regex.compile(
@@ -184,8 +189,8 @@ class YANGPathHelper(PybindXpathHelper):
                 epath += tagname + "["
                 for k, v in attributes.items():
                     # handling for rfc6020 current() specification
-                    if "current()" in v:
-                        remaining_path = regex.sub("current\(\)(?P<remaining>.*)", r"\g<remaining>", v).split("/")
+                    if isinstance(v, PredicateExpression) and "current()" in v:
+                        remaining_path = regex.sub(r"current\(\)(?P<remaining>.*)", r"\g<remaining>", v).split("/")
                         # since the calling leaf may not exist, we need to do a
                         # lookup on a path that will do, which is the parent
                         if remaining_path[1] == "..":
@@ -229,6 +234,8 @@ class YANGPathHelper(PybindXpathHelper):
                     matched = self._arg_re.match(tmp_arg)
                     if matched:
                         c, a, r = matched.group("cmd", "arg", "remainder")
+                        if tmp_arg[matched.start("arg") - 1] not in ("'", '"'):
+                            a = PredicateExpression(a)
                         if ":" in c and normalise_namespace:
                             c = c.split(":")[1]
                         attributes[c] = a
-- 
2.43.0


From 516b4f2e6736ae271ccff68a8fb441aa5bc2610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:50 +0000
Subject: [PATCH 88/97] fix: IETF JSON with metadata of the elements of
 leaf-lists can be loaded

---
 pyangbind/lib/serialise.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 84f6193..c551674 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -732,7 +732,11 @@ class pybindJSONDecoder(object):
     def check_metadata_add(key, data, obj):
         keys = [str(k) for k in data]
         if ("@" + key) in keys:
-            for k, v in data["@" + key].items():
+            metadata = data["@" + key]
+            if isinstance(metadata, list):
+                # that of the elements of a leaf-list, which do not store any
+                return
+            for k, v in metadata.items():
                 obj._add_metadata(k, v)
 
     @staticmethod
-- 
2.43.0


From ea8e7c9e744db167534a9d67223be448fd25dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 89/97] fix: metadata of the key of a list entry is not taken
 for the key

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index c551674..4f4fb6f 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -743,7 +743,7 @@ class pybindJSONDecoder(object):
     def ietf_key_value(entry, name):
         """The value that an entry of a list has for a key, whose name may be preceded by the name of its module"""
         for member in entry:
-            if member.split(":")[-1] == name:
+            if member.split(":")[-1] == name and not member.startswith("@"):
                 value = entry[member]
                 # entries are found by the text of a boolean
                 return str(value).lower() if isinstance(value, bool) else value
-- 
2.43.0


From bfe371d6ed00ed84862b2b7d01286107f6d330ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 90/97] fix: XML with processing instructions can be decoded

---
 pyangbind/lib/serialise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 4f4fb6f..c62a81e 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -506,8 +506,8 @@ class pybindIETFXMLDecoder(object):
 
     @classmethod
     def decode(cls, xml, bindings, module_name):
-        # using a custom parser to strip comments (so we don't handle them later)
-        parser = objectify.makeparser(remove_comments=True, remove_blank_text=True)
+        # using a custom parser to strip comments and processing instructions (so we don't handle them later)
+        parser = objectify.makeparser(remove_comments=True, remove_pis=True, remove_blank_text=True)
         doc = objectify.fromstring(xml, parser=parser)
         return cls.load_xml(doc, bindings, module_name)
 
-- 
2.43.0


From 202c28269a96e0aa90a309d958121ee9a99f15b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 91/97] fix: range and length statements can contain any
 whitespace

---
 pyangbind/plugin/pybind.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index bd722e7..a698e89 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1362,18 +1362,13 @@ def build_elemtype(ctx, et, prefix=False):
     elif pattern_stmts:
         restrictions["pattern"] = [i.arg for i in pattern_stmts]
 
+    # Complex lengths and ranges are separated by pipes, and can be spread over
+    # multiple lines
     if length_stmt:
-        if "|" in length_stmt.arg:
-            restrictions["length"] = [i.replace(" ", "") for i in length_stmt.arg.split("|")]
-        else:
-            restrictions["length"] = [length_stmt.arg]
+        restrictions["length"] = ["".join(i.split()) for i in length_stmt.arg.split("|")]
 
     if range_stmt:
-        # Complex ranges are separated by pipes
-        if "|" in range_stmt.arg:
-            restrictions["range"] = [i.replace(" ", "") for i in range_stmt.arg.split("|")]
-        else:
-            restrictions["range"] = [range_stmt.arg]
+        restrictions["range"] = ["".join(i.split()) for i in range_stmt.arg.split("|")]
 
     # Build RestrictedClassTypes based on the compiled dictionary and the
     # underlying base type.
-- 
2.43.0


From df27b7c16840a83c12ea3e035bf6f9cd2c317596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 92/97] fix: fraction-digits of a decimal64 with a range are
 not ignored

---
 pyangbind/lib/yangtypes.py | 8 ++++++--
 pyangbind/plugin/pybind.py | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d329700..4878439 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -194,9 +194,11 @@ def safe_name(arg):
 def RestrictedPrecisionDecimalType(*args, **kwargs):
     """
     Function to return a new type that is based on decimal.Decimal with
-    an arbitrary restricted precision.
+    an arbitrary restricted precision. Where pad is set to False, values with less
+    digits than the precision are stored as they are, rather than being extended to it.
     """
     precision = kwargs.pop("precision", False)
+    pad = kwargs.pop("pad", True)
 
     class RestrictedPrecisionDecimal(Decimal):
         """
@@ -216,7 +218,9 @@ def RestrictedPrecisionDecimalType(*args, **kwargs):
             try:
                 if self._precision is not None:
                     if len(args):
-                        value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+                        value = Decimal(args[0])
+                        if pad or not value.is_finite() or value.as_tuple().exponent < -int(precision):
+                            value = value.quantize(Decimal(str(self._precision)))
                     else:
                         value = Decimal(0)
                 elif len(args):
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index a698e89..4eb4ec3 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1384,9 +1384,13 @@ def build_elemtype(ctx, et, prefix=False):
             }
         elif "range" in restrictions:
             cls = "restricted-%s" % et.arg
+            native_type = class_map[type_name]["native_type"]
+            fd_stmt = et.search_one("fraction-digits")
+            if et.arg == "decimal64" and fd_stmt is not None:
+                native_type = "RestrictedPrecisionDecimalType(precision=%s, pad=False)" % fd_stmt.arg
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[type_name]["native_type"], repr(restrictions)),
+                % (native_type, repr(restrictions)),
                 "restriction_dict": restrictions,
                 "parent_type": type_name,
                 "base_type": False,
-- 
2.43.0


From 86e6dcb063f80daffcc2494bc383108cb3f5135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:40 +0000
Subject: [PATCH 93/97] fix: single min and max in range and length statements

---
 pyangbind/lib/yangtypes.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 4878439..46fe687 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -261,6 +261,27 @@ def RestrictedClassType(*args, **kwargs):
     else:
         restricted_class_hint = [current_restricted_class_type]
 
+    own_restrictions = {restriction_type: restriction_arg} if restriction_dict is None else restriction_dict
+
+    def base_bound(bound, rtype):
+        """
+        Return the lowest ("min") or highest ("max") value that the base_type allows.
+        """
+        for cls in base_type.__mro__:
+            restriction = cls.__dict__.get("_own_restrictions", {}).get(rtype)
+            if restriction:
+                index = 0 if bound == "min" else -1
+                value = restriction[index].split("..")[index].strip()
+                if value not in ("min", "max"):
+                    return value
+                bound = value
+        if rtype == "length":
+            return 0 if bound == "min" else 2**64 - 1
+        if hasattr(base_type, "_precision"):
+            digits = -(2**63) if bound == "min" else 2**63 - 1
+            return Decimal(digits) * Decimal(str(base_type._precision))
+        raise ValueError("The type that is restricted has no %s" % bound)
+
     class RestrictedClass(base_type):
         """
         A class that restricts the base_type class with a new function that the
@@ -272,6 +293,7 @@ def RestrictedClassType(*args, **kwargs):
 
         _restricted_class_base = restricted_class_hint
         _restricted_int_size = int_size
+        _own_restrictions = own_restrictions
 
         def __init__(self, *args, **kwargs):
             """
@@ -312,7 +334,10 @@ def RestrictedClassType(*args, **kwargs):
                 return regex.sub(r"(\\.)|\$", lambda m: m.group(1) or r"\$", pattern)
 
             def build_length_range_tuples(range, length=False, multiplier=1):
-                if range_regex.match(range_spec):
+                if range_spec in ("min", "max"):
+                    bound = base_bound(range_spec, "length" if length else "range")
+                    return (int(bound) * multiplier if length else base_type(bound),)
+                elif range_regex.match(range_spec):
                     low, high = range_regex.sub(r"\g<low>,\g<high>", range_spec).split(",")
                     if not length:
                         high = base_type(high) if not high == "max" else None
@@ -324,7 +349,7 @@ def RestrictedClassType(*args, **kwargs):
                 elif range_single_value_regex.match(range_spec):
                     eqval = range_single_value_regex.sub(r"\g<value>", range_spec)
                     if not length:
-                        eqval = base_type(eqval) if eqval not in ["max", "min"] else None
+                        eqval = base_type(eqval)
                     else:
                         eqval = int(eqval) * multiplier
                     return (eqval,)
-- 
2.43.0


From 5223f68d5f980b7ff0ca61d7e4f73130fc150b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 94/97] fix: values of a leaf-list that is extended are
 converted only once

---
 pyangbind/lib/yangtypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 46fe687..6d2b6e5 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -589,14 +589,16 @@ def TypedListType(*args, **kwargs):
             self._list.insert(i, val)
 
         def append(self, v):
-            val = self._convert(v)
+            self._append_converted(self._convert(v))
+
+        def _append_converted(self, val):
             if not self._unique or val not in self._list:
                 self._list.append(val)
 
         def extend(self, values):
             # check all of the values before any of them is added
             for val in [self._convert(v) for v in values]:
-                self.append(val)
+                self._append_converted(val)
 
         def __str__(self):
             return str(self._list)
-- 
2.43.0


From c482449eb6a13303942cdc67eabd9c465f29e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:17 +0000
Subject: [PATCH 95/97] fix: keys of several parts that end in a space in IETF
 JSON

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index c62a81e..29c2ef2 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -853,7 +853,7 @@ class pybindJSONDecoder(object):
                             for pkv, ykv in zip(this_attr._keyval.split(" "), this_attr._yang_keys.split(" ")):
                                 kwargs[pkv] = pybindJSONDecoder.ietf_key_value(elem, ykv)
                                 keystr += "%s " % kwargs[pkv]
-                            keystr = keystr.rstrip(" ")
+                            keystr = keystr[:-1]
                             nobj = existing_entry(this_attr, keystr)
                             if nobj is None:
                                 nobj = this_attr.add(**kwargs)
-- 
2.43.0


From d23afc7574ab7dac341c0dd029353afda6c7cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:17 +0000
Subject: [PATCH 96/97] fix: parts of list keys that contain spaces when
 entries are copied or loaded from JSON

---
 pyangbind/lib/serialise.py | 16 +++++++++++++---
 pyangbind/lib/yangtypes.py | 15 ++++++++++++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 29c2ef2..b17a868 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -34,7 +34,7 @@ import base64
 from enum import IntEnum
 from lxml import objectify, etree
 
-from pyangbind.lib.yangtypes import YANGBool, YANGEmpty, safe_name
+from pyangbind.lib.yangtypes import YANGBool, YANGEmpty, safe_name, split_key
 
 
 long = int
@@ -80,6 +80,17 @@ def existing_entry(list_obj, key):
     return None
 
 
+def add_entry(list_obj, key, data):
+    """Add an entry to a list, by a key whose parts may contain spaces where the data of the entry has them"""
+    names = list_obj._keyval.split(" ") if list_obj._keyval else []
+    if len(names) > 1 and len(key.split(" ")) != len(names):
+        parts = split_key(key, [data.get(yang_name) for yang_name in list_obj._yang_keys.split(" ")])
+        if parts is not None:
+            return list_obj.add(**dict(zip(names, parts)))
+    list_obj.add(key)
+    return list_obj[key]
+
+
 def is_empty(obj):
     """Whether obj is of type empty, which may be that of a typedef"""
     return isinstance(obj, YANGEmpty) or getattr(obj, "_yang_type", None) == "empty"
@@ -696,8 +707,7 @@ class pybindJSONDecoder(object):
                 for child_key in key_order:
                     parent = existing_entry(chobj, child_key)
                     if parent is None:
-                        chobj.add(child_key)
-                        parent = chobj[child_key]
+                        parent = add_entry(chobj, child_key, d[key][child_key])
                     pybindJSONDecoder.load_json(
                         d[key][child_key],
                         parent,
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 6d2b6e5..f56a017 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -617,6 +617,15 @@ def TypedListType(*args, **kwargs):
     return type(TypedList(*args, **kwargs))
 
 
+def split_key(key, values):
+    """
+    Return the parts of the key of an entry of a list, which may contain spaces where
+    they are the same as the values that the entry has for the keys.
+    """
+    parts = regex.fullmatch(" ".join("(%s|[^ ]*)" % regex.escape(str(v)) for v in values), key)
+    return parts.groups() if parts else None
+
+
 def YANGListType(*args, **kwargs):
     """
     Return a type representing a YANG list, with a contained class.
@@ -771,6 +780,10 @@ def YANGListType(*args, **kwargs):
                     if " " in self._keyval and not named_set:
                         keys = self._keyval.split(" ")
                         keyparts = k.split(" ")
+                        for entry in (v, self._members.get(k)):
+                            if entry is not None and len(keyparts) != len(keys):
+                                values = [getattr(entry, "_get_%s" % kn)() for kn in keys]
+                                keyparts = split_key(k, values) or keyparts
                         keydict = {}
                         for kp, kv in zip(keys, keyparts):
                             keydict[kp] = kv
@@ -912,7 +925,7 @@ def YANGListType(*args, **kwargs):
                     if kv is None:
                         raise KeyError("Invalid key attribute specified for object")
                     ks += "%s " % str(kv())
-                return ks.rstrip(" ")
+                return ks[:-1]
             else:
                 kv = getattr(obj, "_get_%s" % safe_name(self._keyval), None)
                 if kv is None:
-- 
2.43.0


From 3e0db75cd046d14a3f6ee84ceb6af60a7921fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 97/97] fix: containers without children know their namespace,
 so XML encoding does not fail on them

---
 pyangbind/plugin/pybind.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 4eb4ec3..d1f79da 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -887,6 +887,9 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
 
     elements_str = ""
     if len(elements) == 0:
+        # A submodule does not have a namespace of its own.
+        mod_location = module if parent.keyword in ("module", "submodule") else parent.main_module()
+        namespace = mod_location.search_one("namespace")
         nfd.write(
             """
   __slots__ = ('_path_helper', '_extmethods')
@@ -895,6 +898,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
 
   _yang_name = '%s'
 
+  _yang_namespace = %s
+
   _pyangbind_elements = {}
 
   def __init__(self, *args, **kwargs):
@@ -902,7 +907,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     self._extmethods = kwargs.pop("extmethods", False)
     if args and not hasattr(args[0], "_pyangbind_elements"):
       raise ValueError("Supplied object did not have the correct attributes")\n"""
-            % parent.arg
+            % (parent.arg, repr(namespace.arg) if namespace is not None else None)
         )
     else:
         # We want to prevent a user from creating new attributes on a class that
-- 
2.43.0

