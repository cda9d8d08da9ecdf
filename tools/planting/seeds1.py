import sys; sys.path.insert(0,'/tmp')
from mkseed import *
mk('c10-default-leaf', 'C10', [(P, """            "yang_name": element.arg,
            "choice": choice,
            "register_paths": register_paths,
            "namespace": namespace,
            "defining_module": defining_module,
        }
""", """            "yang_name": element.arg,
            "choice": choice if elemdefault is None else False,
            "register_paths": register_paths,
            "namespace": namespace,
            "defining_module": defining_module,
        }
""")], '''
b = bindings(mod("""choice c { case one { leaf a { type string; } leaf t { type uint8; default 5; } }
  case two { leaf y { type string; } } }"""))
x = b.m()
x.a = "1"
x.t = 7
x.y = "a"
assert not x.a._changed()
assert not x.t._changed(), "both cases hold data"
''', 'a leaf with a default within a case', 'a leaf with a default is not a member of its case, so that it stays set with another case')
mk('c13-insert-negative', 'C13', [(Y, """            self._list.insert(i, val)
""", """            self._list.insert(max(i, 0), val)
""")], '''
b = bindings(mod('leaf-list l { type uint8; }'))
x = b.m()
x.l = [1, 2, 3]
x.l.insert(-1, 9)
assert list(x.l) == [1, 2, 9, 3], list(x.l)
''', 'an insertion at an index counted from the end', 'insert() with a negative index puts the value first')
