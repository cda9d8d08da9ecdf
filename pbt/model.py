"""Reference model of a data tree, generated histories of operations on it, and the
comparison of the model with real bindings.

A container-like instance (module, container, list entry) is a ``Cont``; a leaf is a
canonical value (see ytypes.judge), a leaf-list a list of them, a list an
OrderedDict of key tuples (lexical strings) to Cont.  Nothing here looks at how the
code under test stores anything.
"""
from collections import OrderedDict

from . import ytypes as yt
from .engine import HarnessError, check, cut
from .typecheck import read


class Cont(object):
    __slots__ = ("n", "present", "v", "keys")

    def __init__(self, n, keys=None):
        self.n = n
        self.present = False
        self.v = {}
        self.keys = keys
        for name, k in n.kids.items():
            if k.kind == "container":
                self.v[name] = Cont(k)
            elif k.kind == "list":
                self.v[name] = OrderedDict()

    def empty(self):
        """Holds no data at all."""
        for name, k in self.n.kids.items():
            x = self.v.get(name)
            if k.kind in ("leaf",):
                if x is not None:
                    return False
            elif k.kind == "leaf-list":
                if x:
                    return False
            elif k.kind == "list":
                if x:
                    return False
            elif x.present or not x.empty():
                return False
        return True

    def clear(self, name):
        k = self.n.kids[name]
        if k.kind == "container":
            self.v[name] = Cont(k)
        elif k.kind == "list":
            self.v[name] = OrderedDict()
        else:
            self.v.pop(name, None)


def conflicts(a, b):
    """Are nodes a and b (siblings) in different cases of one choice?"""
    for (c1, k1), (c2, k2) in zip(a.choice or [], b.choice or []):
        if c1 != c2:
            return False
        if k1 != k2:
            return True
    return False


class Model(object):
    def __init__(self, c):
        self.c = c
        self.roots = {m: Cont(r) for m, r in c.tree.items()}

    # -- navigation: path = [mod, step, ...]; step = name or [name, [key...]]
    def chain(self, path):
        """The Cont instances from the module down to the parent of the last step."""
        x = self.roots[path[0]]
        out = [x]
        for s in path[1:-1]:
            x = x.v[s] if isinstance(s, str) else x.v[s[0]][tuple(s[1])]
            out.append(x)
        return out

    def cont(self, path):
        x = self.roots[path[0]]
        for s in path[1:]:
            x = x.v[s] if isinstance(s, str) else x.v[s[0]][tuple(s[1])]
        return x

    def parent(self, path):
        return self.cont(path[:-1])

    def node(self, path):
        n = self.c.tree.get(path[0])
        for s in path[1:]:
            n = n and n.kids.get(s if isinstance(s, str) else s[0])
        if n is None:
            raise HarnessError("no such node: %s" % path)
        return n

    # -- what setting something at a path does to everything above it
    def touch(self, path):
        lost = []
        x = self.roots[path[0]]
        for s in path[1:]:
            name = s if isinstance(s, str) else s[0]
            n = x.n.kids[name]
            if n.choice:
                for oname, o in x.n.kids.items():
                    if conflicts(n, o):
                        if not self.is_unset(x, oname):
                            lost.append(oname)
                        x.clear(oname)
            if n.kind == "container":
                x = x.v[name]
                if n.presence:
                    x.present = True
            elif n.kind == "list":
                x = x.v[name].get(tuple(s[1])) if not isinstance(s, str) else None
            else:
                x = None
        return lost

    @staticmethod
    def is_unset(x, name):
        k = x.n.kids[name]
        v = x.v.get(name)
        if k.kind == "container":
            return not v.present and v.empty()
        return not v

    def apply(self, op):
        k, path = op[0], op[1]
        n = self.node(path)
        lost = []
        if k == "set":
            canon = self.canon(n, op[2])
            lost = self.touch(path)
            self.parent(path).v[path[-1]] = canon
        elif k == "unset":
            self.parent(path).clear(path[-1])
        elif k == "add":
            lost = self.touch(path)
            self.parent(path).v[path[-1]][tuple(op[2])] = self.entry(n, op[2])
        elif k == "del":
            del self.parent(path).v[path[-1]][tuple(op[2])]
        elif k == "pres":
            x = self.cont(path)
            if op[2]:
                lost = self.touch(path)
                x.present = True
            else:
                x.present = False
        elif k in ("app", "ins", "lset", "ext"):
            p = self.parent(path)
            lost = self.touch(path)
            ll = p.v.get(path[-1])
            ll = [] if ll is None or k == "lset" else list(ll)
            if k == "app":
                cv = self.canon(n, op[2])
                if not has(ll, cv):
                    ll.append(cv)
            elif k == "ins":
                ll.insert(op[2], self.canon(n, op[3]))
            else:
                for w in op[2]:
                    cv = self.canon(n, w)
                    if not has(ll, cv):
                        ll.append(cv)
            p.v[path[-1]] = ll
        elif k == "rm":
            p = self.parent(path)
            cv = self.canon(n, op[2])
            i = [j for j, x in enumerate(p.v[path[-1]]) if same(x, cv)][0]
            p.v[path[-1]] = p.v[path[-1]][:i] + p.v[path[-1]][i + 1:]
        elif k in ("pop", "ldel"):
            p = self.parent(path)
            ll = list(p.v[path[-1]])
            del ll[op[2]]
            p.v[path[-1]] = ll
        elif k == "bit":
            p = self.parent(path)
            v = p.v.get(path[-1])
            new = ("bits", bits_after(v[1] if v else frozenset(), op[2], op[3]))
            lost = self.touch(path)
            p.v[path[-1]] = new
        else:
            raise HarnessError("operation %r" % (k,))
        return lost

    def entry(self, n, keys):
        e = Cont(n, tuple(keys))
        for kn, kv in zip(n.keys, keys):
            e.v[kn] = self.canon(n.kids[kn], kv)
        return e

    def canon(self, n, w):
        r = yt.judge(n.rt, yt.to_py(w), self.c.env)
        if r[0] != "ok":
            raise HarnessError("value %r is not known to be valid for %s" % (w, n.name))
        return r[1]


BIT_METHODS = {"add": "add", "discard": "discard", "remove": "remove", "clear": "clear", "pop": "pop", "update": "update",
               "|=": "__ior__", "&=": "__iand__", "-=": "__isub__", "^=": "__ixor__", "keep": "intersection_update",
               "less": "difference_update", "flip": "symmetric_difference_update"}


def bits_after(cur, how, names):
    """The bits that a method of set leaves."""
    s = frozenset(names)
    if how in ("add", "update", "|="):
        return cur | s
    if how in ("discard", "remove", "-=", "less"):
        return cur - s
    if how in ("clear", "pop"):
        return frozenset()
    if how in ("&=", "keep"):
        return cur & s
    return cur ^ s


def change_bits(o, how, names):
    fn = getattr(o, BIT_METHODS[how])
    if how in ("clear", "pop"):
        return fn()
    if how in ("add", "discard", "remove"):
        return fn(names[0])
    return fn(set(names))


def same(a, b):
    if a[0] == "id" and b[0] == "id":
        return a[1] == b[1]
    return a == b


def has(ll, cv):
    return any(same(x, cv) for x in ll)


# ---------------------------------------------------------------- real bindings
class Live(object):
    """The same operations on real bindings."""

    def __init__(self, c, path_helper=None, **kw):
        self.c = c
        self.helpers = {}
        self.roots = OrderedDict()
        for m in c.names:
            k = dict(kw)
            if path_helper is not None:
                k["path_helper"] = self.helpers[m] = path_helper()
            self.roots[m] = cut("constructing the bindings", c.new, m, **k)

    def node(self, path):
        n = self.c.tree.get(path[0])
        for s in path[1:]:
            n = n and n.kids.get(s if isinstance(s, str) else s[0])
        if n is None:
            raise HarnessError("no such node: %s" % path)
        return n

    def obj(self, path):
        self.node(path)
        o = self.roots[path[0]]
        n = self.c.tree[path[0]]
        for s in path[1:]:
            if isinstance(s, str):
                n = n.kids[s]
                o = getattr(o, n.py)
            else:
                n = n.kids[s[0]]
                o = entry_of(getattr(o, n.py), s[1])
        return o

    def parent(self, path):
        return self.obj(path[:-1])

    def apply(self, op):
        k, path = op[0], op[1]
        n = self.node(path)
        how = op[-1]
        if k == "set":
            p = self.parent(path)
            v = yt.to_py(op[2])
            if how == "attr" and n.config:
                setattr(p, n.py, v)
            elif how == "load":
                getattr(p, "_set_" + n.py)(v, load=True)
            else:
                getattr(p, "_set_" + n.py)(v)
        elif k == "unset":
            getattr(self.parent(path), "_unset_" + n.py)()
        elif k == "add":
            lst = self.obj(path)
            if how == "kw" or spaced(op[2]):
                # (in another order than that of the keys)
                return lst.add(**{n.kids[a].py: b for a, b in list(zip(n.keys, op[2]))[::-1]})
            if how == "num":
                return lst.add(int(op[2][0]))
            return lst.add(" ".join(op[2]))
        elif k == "del":
            lst = self.obj(path)
            if how == "kw":
                lst.delete(**{n.kids[a].py: b for a, b in list(zip(n.keys, op[2]))[::-1]})
            else:
                lst.delete(live_key(lst, op[2]))
        elif k == "pres":
            o = self.obj(path)
            if op[2]:
                o._set_present()
            else:
                o._set_present(present=False)
        elif k == "app":
            self.obj(path).append(yt.to_py(op[2]))
        elif k == "ext":
            self.given = [yt.to_py(w) for w in op[2]]
            self.obj(path).extend(self.given)
        elif k == "ins":
            self.obj(path).insert(op[2], yt.to_py(op[3]))
        elif k == "lset":
            p = self.parent(path)
            vs = self.given = [yt.to_py(w) for w in op[2]]
            if how == "attr" and n.config:
                setattr(p, n.py, vs)
            else:
                getattr(p, "_set_" + n.py)(vs)
        elif k == "rm":
            self.obj(path).remove(live_element(n, self.c, self.obj(path), op[2]))
        elif k == "pop":
            return self.obj(path).pop(op[2])
        elif k == "ldel":
            del self.obj(path)[op[2]]
        elif k == "bit":
            change_bits(self.obj(path), op[2], op[3])
        else:
            raise HarnessError("operation %r" % (k,))


def spaced(keys):
    """Do the parts of a key contain spaces, such that these cannot be given as one text?"""
    return len(keys) > 1 and any(" " in k for k in keys)


def live_element(n, c, ll, w):
    cv = yt.judge(n.rt, yt.to_py(w), c.env)[1]
    for x in ll:
        if read(n, cv, x, c.env):
            return x
    return yt.to_py(w)


def live_key(lst, keys):
    """The key under which the list has the entry (a number or its text)."""
    s = " ".join(keys)
    if s in lst:
        return s
    for k in lst:
        if str(k) == s:
            return k
    return s


def entry_of(lst, keys):
    return lst[live_key(lst, keys)]


# ---------------------------------------------------------------- comparison
def show(path):
    out = []
    for s in path:
        out.append(s if isinstance(s, str) else "%s[%s]" % (s[0], " ".join(s[1])))
    return "/" + "/".join(out)


def compare(c, live, x, path, when, quiet_changed=False):
    """Everything below the live object must be as the model instance says."""
    for name, n in x.n.kids.items():
        lv = getattr(live, n.py)
        mv = x.v.get(name)
        here = path + [name]
        if n.kind == "leaf":
            if mv is None:
                if not quiet_changed:
                    check(not lv._changed(), "%s: %s was not set but reports being changed (%r)", when, show(here), lv)
            else:
                check(lv._changed(), "%s: %s was set but does not report being changed", when, show(here))
                check(read(n, mv, lv, c.env), "%s: %s reads back as %r instead of %r", when, show(here), lv, mv)
        elif n.kind == "leaf-list":
            got = list(lv)
            want = mv or []
            check(len(got) == len(want), "%s: %s holds %r instead of %r", when, show(here), got, want)
            for g, w in zip(got, want):
                check(read(n, w, g, c.env), "%s: %s holds %r instead of %r", when, show(here), got, want)
            check(len(lv) == len(want), "%s: %s has length %r", when, show(here), len(lv))
            if mv is None:
                if not quiet_changed:
                    check(not lv._changed(), "%s: %s was not set but reports being changed", when, show(here))
            elif mv:
                check(lv._changed(), "%s: %s was set but does not report being changed", when, show(here))
        elif n.kind == "list":
            got = [str(k) for k in lv.keys()]
            want = [" ".join(k) for k in mv]
            check(got == want, "%s: %s has the keys %r instead of %r", when, show(here), got, want)
            check(len(lv) == len(want), "%s: %s has length %r", when, show(here), len(lv))
            for k, e in mv.items():
                compare(c, entry_of(lv, k), e, path + [[name, list(k)]], when, quiet_changed)
        else:
            if n.presence:
                check(bool(lv._present()) == mv.present, "%s: presence of %s is %r instead of %r", when, show(here),
                      lv._present(), mv.present)
            else:
                check(not lv._present(), "%s: %s reports presence", when, show(here))
            compare(c, lv, mv, here, when, quiet_changed)


def expected(x):
    """The set data of an instance as {name: value}; containers only where they exist."""
    out = OrderedDict()
    for name, n in x.n.kids.items():
        v = x.v.get(name)
        if n.kind == "leaf":
            if v is not None:
                out[name] = v
        elif n.kind == "leaf-list":
            if v:
                out[name] = v
        elif n.kind == "list":
            if v:
                out[name] = v
        elif v.present or not all_gone(v):
            out[name] = v
    return out


def all_gone(x):
    """Nothing that output would show: empty plain containers do not count."""
    return not expected(x)


def check_get(c, got, x, path, when):
    """A filtered get() is exactly the data that was set."""
    want = expected(x)
    check(isinstance(got, dict), "%s: get() of %s is %r", when, show(path), got)
    check(set(got) == set(want), "%s: filtered get() of %s has %s instead of %s", when, show(path), sorted(got), sorted(want))
    for name, v in want.items():
        n = x.n.kids[name]
        g = got[name]
        here = path + [name]
        if n.kind == "leaf":
            check(read(n, v, g, c.env), "%s: get() has %r for %s instead of %r", when, g, show(here), v)
        elif n.kind == "leaf-list":
            check(len(g) == len(v) and all(read(n, a, b, c.env) for a, b in zip(v, g)),
                  "%s: get() has %r for %s instead of %r", when, g, show(here), v)
        elif n.kind == "list":
            check([str(k) for k in g] == [" ".join(k) for k in v], "%s: get() of %s has the keys %r instead of %r", when,
                  show(here), list(g), list(v))
            for k, e in v.items():
                gk = [kk for kk in g if str(kk) == " ".join(k)][0]
                check_get(c, g[gk], e, path + [[name, list(k)]], when)
        else:
            check_get(c, g, v, here, when)


def check_get_all(c, got, x, path, when):
    """An unfiltered get() has every node of the schema, with data, default or neither."""
    check(set(got) == set(x.n.kids), "%s: unfiltered get() of %s has %s instead of %s", when, show(path), sorted(got),
          sorted(x.n.kids))
    for name, n in x.n.kids.items():
        v, g, here = x.v.get(name), got[name], path + [name]
        if n.kind == "leaf":
            if v is not None:
                check(read(n, v, g, c.env), "%s: get() has %r for %s instead of %r", when, g, show(here), v)
            elif n.default is not None:
                check(is_default(c, n, g), "%s: get() has %r for the unset %s instead of its default %r", when, g, show(here),
                      n.default)
        elif n.kind == "leaf-list":
            v = v or []
            check(len(g) == len(v) and all(read(n, a, b, c.env) for a, b in zip(v, g)),
                  "%s: get() has %r for %s instead of %r", when, g, show(here), v)
        elif n.kind == "list":
            check([str(k) for k in g] == [" ".join(k) for k in v], "%s: get() of %s has the keys %r instead of %r", when,
                  show(here), list(g), list(v))
            for k, e in v.items():
                gk = [kk for kk in g if str(kk) == " ".join(k)][0]
                check_get_all(c, g[gk], e, path + [[name, list(k)]], when)
        else:
            check_get_all(c, g, v, here, when)


def default_canon(c, n):
    """Canonical form of the schema's default."""
    s = n.default
    return yt.judge(n.rt, s, c.env)[1]


def default_member(c, n):
    return yt.find_member(n.rt, n.default, c.env)


def is_default(c, n, live):
    s = n.default
    m = yt.find_member(n.rt, s, c.env)
    if m is None or m["b"] == "idref":
        # a prefix of the module is as good as the name of the module
        return isinstance(live, str) and str(live).split(":")[-1] == s.split(":")[-1]
    return read(n, yt.judge(n.rt, s, c.env)[1], live, c.env)


# ---------------------------------------------------------------- generation
KEYCHARS = list("abcXYZ019-_.")
KEYWS = list("  \t\nab'")
KEYODD = list(" /:'\"@#=[]&<\u00e9\u4e2d")


def gen_key(d, n, env, many, odd=0.15, ws=False):
    """A lexical key value for a key leaf, or None. With ws, this may contain any white space, and be empty where there
    are several keys."""
    for _ in range(8):
        rt = n.rt
        if rt["b"] == "str" and not rt["pats"] and d.bool(odd):
            chars = [x for x in KEYODD if not (many and not ws and x == " ")] + KEYCHARS
            if ws and d.bool(0.3):
                chars = KEYWS
            w = d.text(chars, 1, 6) if d.int(0, 15) else d.pick(["current()/../k", "current()", "../x", "a]/b[c='1"])
        else:
            w = yt.gen_probe(d, rt, env)
        s = key_text(w)
        if s is None or s == "" and not (ws and many):
            continue
        if not ws and ((many and " " in s) or s != s.strip() or any(ch in s for ch in "\n\t\r")):
            continue
        r = yt.judge(rt, s, env)
        if r[0] != "ok":
            continue
        if many and r[1][0] == "bits" and " " in s:
            continue   # (bits are written in another order than that of the key)
        return s
    s = key_text(yt.fallback(n.rt, env))
    return s if s and not (many and " " in s) else None


def key_text(w):
    if isinstance(w, bool):
        return "true" if w else "false"
    if isinstance(w, int):
        return str(w)
    return w if isinstance(w, str) else None


class OpGen(object):
    """Draws operations that the schema allows in the state they are applied to."""

    def __init__(self, d, c, W=None, val=None, keyodd=0.15, keyhow=("add", "add", "kw"), helper=False):
        self.d, self.c = d, c
        self.m = Model(c)
        self.W = dict({"set": 10, "unset": 2, "add": 5, "del": 2, "pres": 3, "app": 5, "ins": 1, "lset": 3, "ext": 0,
                       "rm": 2, "pop": 1, "ldel": 1, "unset_c": 1, "bit": 0}, **(W or {}))
        self.val = val
        self.keyodd = keyodd
        self.keyhow = keyhow
        self.helper = helper
        self.muts = 0
        self.burst = None

    def value(self, n):
        for _ in range(6):
            w = yt.gen_valid(self.d, n.rt, self.c.env)
            if w is None:
                return None
            r = yt.judge(n.rt, yt.to_py(w), self.c.env)
            if r[0] != "ok":
                return None
            if n.rt["b"] == "empty" and w not in (True, "true"):
                w = True
            if n.kind == "leaf-list":
                if r[1][0] == "str" and not isinstance(w, str):
                    continue
                if n.rt["b"] == "union" and r[1][0] == "bool":
                    continue
            if self.val is not None and not self.val(n, w, r[1]):
                continue
            return w
        return None

    def place(self):
        """A random existing container-like instance and its path."""
        d = self.d
        mod = d.pick(self.c.names)
        path, x = [mod], self.m.roots[mod]
        while True:
            subs = []
            for name, n in x.n.kids.items():
                if n.kind == "container":
                    subs.append([name])
                elif n.kind == "list" and x.v[name]:
                    for k in x.v[name]:
                        subs.append([[name, list(k)]])
            if not subs or not d.bool(0.72):
                return path, x
            s = d.pick(subs)[0]
            path = path + [s]
            x = x.v[s] if isinstance(s, str) else x.v[s[0]][tuple(s[1])]

    def one(self):
        d = self.d
        for _ in range(6):
            if self.burst and self.lives(*self.burst[:2]):
                # one list or leaf-list gets many entries
                path, x, only, left = self.burst
                self.burst = (path, x, only, left - 1) if left else None
            else:
                self.burst = None
                (path, x), only = self.place(), None
            op = self.at(path, x, only)
            if op is not None:
                self.m.apply(op)
                if op[0] in ("add", "app") and not self.burst and d.bool(0.04):
                    self.burst = (path, x, (op[0], op[1]), d.int(5, 14))
                return op
        return None

    def lives(self, path, x):
        try:
            return self.m.cont(path) is x
        except KeyError:
            return False

    def at(self, path, x, only=None):
        d, W = self.d, self.W
        cands = []
        for name, n in x.n.kids.items():
            h = path + [name]
            if n.kind == "leaf":
                if n.iskey:
                    continue
                cands.append((W["set"], ("set", h, n)))
                if W["unset"]:
                    cands.append((W["unset"], ("unset", h, n)))
                if W["bit"] and n.rt["b"] == "bits":
                    cands.append((W["bit"], ("bit", h, n)))
            elif n.kind == "leaf-list":
                for k in ("app", "lset", "ext"):
                    if W[k]:
                        cands.append((W[k], (k, h, n)))
                if x.v.get(name):
                    for k in ("ins", "rm", "pop", "ldel"):
                        if W[k]:
                            cands.append((W[k], (k, h, n)))
                if W["unset"]:
                    cands.append((max(1, W["unset"] // 2), ("unset", h, n)))
            elif n.kind == "list":
                if n.keys:
                    cands.append((W["add"], ("add", h, n)))
                    if x.v[name] and W["del"]:
                        cands.append((W["del"], ("del", h, n)))
                if W["unset_c"]:
                    cands.append((W["unset_c"], ("unset", h, n)))
            else:
                if n.presence and W["pres"]:
                    cands.append((W["pres"], ("pres", h, n)))
                if W["unset_c"]:
                    cands.append((W["unset_c"], ("unset", h, n)))
        if only:
            cands = [i for i in cands if i[1][:2] == only]
        if not cands:
            return None
        k, h, n = d.weighted(cands)
        name = h[-1]
        if k == "set":
            w = self.value(n)
            return None if w is None else ["set", h, w, d.pick(["attr", "attr", "meth", "load"])]
        if k == "unset":
            return ["unset", h]
        if k == "bit":
            return self.bit(h, n, x)
        if k == "add":
            ks = [gen_key(d, n.kids[kn], self.c.env, len(n.keys) > 1, self.keyodd, True) for kn in n.keys]
            if None in ks or " ".join(ks) in [" ".join(e) for e in x.v[name]]:
                return None
            if self.val is not None and not all(self.val(n.kids[kn], kv, yt.judge(n.kids[kn].rt, kv, self.c.env)[1])
                                                for kn, kv in zip(n.keys, ks)):
                return None
            if self.helper and any("'" in k and '"' in k for k in ks):
                return None   # no path can name such an entry
            # the same value in another spelling is another key to the code; leave that out
            if any(all(self.eqkey(n.kids[kn], a, b) for kn, a, b in zip(n.keys, ks, e)) for e in x.v[name]):
                return None
            how = d.pick(self.keyhow)
            return ["add", h, ks, "kw" if how == "item" and spaced(ks) else how]
        if k == "del":
            return ["del", h, list(d.pick(list(x.v[name]))), d.pick(self.keyhow)]
        if k == "pres":
            if d.bool(0.7):
                return ["pres", h, True]
            if x.v[name].present and x.v[name].empty():
                return ["pres", h, False]
            return None
        ll = x.v.get(name) or []
        if k == "app":
            w = self.value(n)
            if ll and d.bool(0.15):
                w = self.again(n, d.pick(ll))
            return None if w is None or not self.fits(n, ll, [w], True) else ["app", h, w]
        if k in ("lset", "ext"):
            ws = [self.value(n) for _ in range(d.int(1, 4))]
            ws = [w for w in ws if w is not None]
            if not ws or not self.fits(n, ll if k == "ext" else [], ws, True):
                return None
            return [k, h, ws, d.pick(["attr", "meth"])]
        if k == "ins":
            w = self.value(n)
            if w is None or not self.fits(n, ll, [w], False):
                return None
            return ["ins", h, d.int(0, len(ll)), w]
        if k == "rm":
            w = self.again(n, d.pick(ll))
            return None if w is None else ["rm", h, w]
        if k == "pop":
            return ["pop", h, d.pick([-1, 0, d.idx(len(ll))])]
        if k == "ldel":
            return ["ldel", h, d.idx(len(ll))]
        raise HarnessError(k)

    def bit(self, h, n, x):
        d = self.d
        names = [b for b, _ in n.rt["bits"]]
        cur = sorted((x.v.get(h[-1]) or (0, ()))[1])
        how = d.pick(["add", "add", "discard", "remove", "clear", "pop", "update", "|=", "&=", "-=", "^=", "keep", "less", "flip"])
        if how == "remove" and not cur or how == "pop" and len(cur) != 1:
            how = "add"
        if how in ("clear", "pop"):
            bs = []
        elif how in ("add", "discard", "remove"):
            bs = [d.pick(cur if how == "remove" else names)]
        else:
            bs = [b for b in names if d.bool(0.5)]
        return ["bit", h, how, bs]

    def eqkey(self, n, a, b):
        ca, cb = yt.judge(n.rt, a, self.c.env)[1], yt.judge(n.rt, b, self.c.env)[1]
        if ca[0] == "id" and cb[0] == "id":
            return ca[1].split(":")[-1] == cb[1].split(":")[-1]
        return ca == cb

    def again(self, n, cv):
        """A spelling of an element that is in the leaf-list."""
        kind, v = cv
        if kind == "bits":
            return " ".join(sorted(v))
        if kind == "id":
            return v
        w = yt.to_wire(v)
        r = yt.judge(n.rt, yt.to_py(w), self.c.env)
        return w if r[0] == "ok" and r[1] == cv else None

    def fits(self, n, ll, ws, dup_ok):
        """Avoid spellings of equal values whose identity the properties leave open."""
        cur = list(ll)
        for w in ws:
            r = yt.judge(n.rt, yt.to_py(w), self.c.env)
            if r[0] != "ok":
                return False
            cv = r[1]
            for x in cur:
                if same(x, cv):
                    if not dup_ok:
                        return False
                elif loosely_same(n, x, cv):
                    return False
            if n.rt["b"] == "union" and cv[0] in ("dec", "bool"):
                return False
            cur.append(cv)
        return True


def loosely_same(n, a, b):
    """Values that differ as drawn but may be one value to the type."""
    if a[0] == "id" and b[0] == "id":
        return a[1].split(":")[-1] == b[1].split(":")[-1]
    if a[0] == "dec" and b[0] == "dec":
        return abs(a[1] - b[1]) < 1
    if a[0] != b[0]:
        return str(a[1]) == str(b[1])
    return False
