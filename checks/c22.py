"""C22: separate instances of bindings share no state."""
from pbt import hist, schema as sc, ytypes as yt
from pbt.engine import Part, check, cut, HarnessError
from pbt.live import reduce_case as reduce  # noqa: F401
from pbt.model import Cont, Live, Model, OpGen, check_get, check_get_all, compare, entry_of, live_key, show, gen_key
from checks.c07 import defaults
from checks.c12 import stable, spelled

RULE = ("a case applies a history of operations to several instances of the same bindings and to list entries made apart "
        "from them, in turn, with data assigned from one to another, and compares all of them with their models after each; "
        "it is non-trivial when data was assigned or stored and both sides were changed afterwards")

ASSUMPTIONS = ["objects that were replaced in, unset in or deleted from a tree are not used any more",
               "presence containers that are assigned are present", "values of unions that are held as another type are left out"]

F = {"depth": 3, "maxnodes": 18, "width": (2, 4), "p_cfalse": 0.08, "p_multikey": 0.4, "p_reserved": 0.15, "td": (0, 3),
     "p_presence": 0.3, "p_default": 0.4, "gr": (0, 2),
     "types": {"int": 6, "string": 5, "dec": 2, "bool": 2, "empty": 1, "enum": 2, "idref": 2, "bits": 3, "bin": 1, "union": 2, "ref": 2},
     "key_types": {"int": 4, "string": 6, "enum": 2, "bool": 1, "dec": 1, "idref": 1, "union": 1, "ref": 2, "bits": 0},
     "w": {"leaf": 6, "container": 5, "list": 6, "leaf-list": 5, "choice": 3, "uses": 2}}

W = {"set": 9, "unset": 1, "add": 7, "del": 1, "pres": 3, "app": 5, "ins": 1, "lset": 3, "ext": 3, "rm": 1, "pop": 1, "ldel": 1,
     "unset_c": 1, "bit": 4}


class View(object):
    """Several modules, or objects made apart from them, as one forest."""

    def __init__(self, c, tree, names):
        self.S, self.env, self.tree, self.names = c.S, c.env, tree, names


class World(object):
    """The models of all instances; the last one is that of the objects made apart."""

    def __init__(self, c, n):
        self.c = c
        self.n = n
        self.views = [View(c, c.tree, c.names) for _ in range(n)] + [View(c, {}, [])]
        self.ms = [Model(v) for v in self.views]

    def park(self, i, path):
        n = self.ms[i].node(path)
        name = "$%d" % len(self.views[-1].names)
        self.views[-1].names.append(name)
        self.views[-1].tree[name] = n
        self.ms[-1].roots[name] = Cont(n)
        return name, n

    def copy(self, op):
        """assign ["copy", i, path, j, path2, how]"""
        _, i, path, j, src = op[:5]
        a, b = self.ms[i], self.ms[j]
        last = path[-1]
        if isinstance(last, str):
            n = a.node(path)
            if n.kind in ("leaf", "leaf-list"):
                new = b.parent(src).v.get(src[-1])
                if new is None:
                    raise HarnessError("nothing to copy at %s" % src)
                new = list(new) if n.kind == "leaf-list" else new
            elif n.kind == "list":
                new = type(b.parent(src).v[src[-1]])((k, dup(e)) for k, e in b.parent(src).v[src[-1]].items())
            else:
                new = dup(b.cont(src))
            a.touch(path)
            a.parent(path).v[last] = new
            if n.kind == "container" and n.presence:
                new.present = True
        else:
            n = a.node(path)
            new = dup(b.cont(src))
            new.keys = tuple(last[1])
            for kn, kv in zip(n.keys, last[1]):
                new.v[kn] = a.canon(n.kids[kn], kv)
            a.touch(path[:-1] + [last[0]])
            a.parent(path).v[last[0]][tuple(last[1])] = new
        return n


def dup(x):
    y = Cont(x.n, x.keys)
    y.present = x.present
    for name, v in x.v.items():
        k = x.n.kids[name].kind
        if k == "container":
            y.v[name] = dup(v)
        elif k == "list":
            y.v[name] = type(v)((kk, dup(e)) for kk, e in v.items())
        elif k == "leaf-list":
            y.v[name] = list(v)
        else:
            y.v[name] = v
    return y


def parts(tier):
    k = 1 if tier == "quick" else 8
    return [Part("history", gen, 24, outer=sc.gen_schema(F), n_outer=28 * k)]


# ---------------------------------------------------------------- generation
def spots(m, want):
    """Paths of all existing nodes of the kinds asked for."""
    out = []

    def walk(x, path):
        for name, n in x.n.kids.items():
            h = path + [name]
            if n.kind in want and not n.iskey:
                out.append((h, n, x))
            if n.kind == "container":
                walk(x.v[name], h)
            elif n.kind == "list":
                for k, e in x.v[name].items():
                    p = path + [[name, list(k)]]
                    if "entry" in want:
                        out.append((p, n, e))
                    walk(e, p)
    for r, x in m.roots.items():
        walk(x, [r])
    return out


def gen(d, S):
    c = hist.ctx(S)
    n = d.int(2, 3)
    w = World(c, n)
    gs = []
    for v, m in zip(w.views, w.ms):
        g = OpGen(d, v, W, val=lambda k, x, cv: stable(k, x, c.env), keyhow=("add", "add", "kw"))
        g.m = m
        gs.append(g)

    def one():
        k = d.int(0, 19)
        if k < 2:
            return park()
        if k < 8:
            return copy()
        if k == 8:
            op = ["ctor", d.idx(n), d.pick(c.names), d.idx(n)]
            w.ms[op[1]].roots[op[2]] = dup(w.ms[op[3]].roots[op[2]])
            return op
        if k == 9:
            i = d.idx(n)
            ss = spots(w.ms[i], ("container", "leaf", "leaf-list", "list", "entry"))
            return ["meta", i, d.pick(ss)[0]]
        i = d.idx(n + 1)
        if i == n and not w.views[-1].names:
            i = 0
        if i == n and d.bool(0.3):
            name = d.pick(w.views[-1].names)
            node = w.views[-1].tree[name]
            kn = d.pick(node.keys)
            kv = gen_key(d, node.kids[kn], c.env, len(node.keys) > 1)
            if kv is None:
                return None
            op = ["set", [name, kn], kv, "attr"]
            w.ms[-1].apply(op)
            return [i, op]
        op = gs[i].one()
        return None if op is None else [i, op]

    def park():
        if len(w.views[-1].names) >= 3:
            return None
        i = d.idx(n)
        ss = [(p, k) for p, k, x in spots(w.ms[i], ("list",)) if k.keys]
        if not ss:
            return None
        p, _ = d.pick(ss)
        w.park(i, p)
        return ["park", i, p]

    def copy():
        for _ in range(6):
            i, j = d.idx(n + 1), d.idx(n + 1)
            kind = d.pick(["container", "container", "list", "entry", "entry", "leaf", "leaf-list"])
            src = []
            for p, k, x in spots(w.ms[j], (kind,)):
                if kind == "leaf" and x.v.get(k.name) is None or kind == "leaf-list" and x.v.get(k.name) is None:
                    continue
                if kind == "container" and k.presence and not x.v[k.name].present or not k.config:
                    continue
                if kind == "list" and not k.keys:
                    continue
                src.append((p, k))
            if j == n and kind == "entry":
                src += [([r], w.views[-1].tree[r]) for r in w.views[-1].names]
            if not src:
                continue
            p, k = d.pick(src)
            if kind == "entry":
                dst = [(q, y) for q, m, y in spots(w.ms[i], ("list",)) if m is k]
                if not dst:
                    continue
                q, y = d.pick(dst)
                e = w.ms[j].cont(p)
                have = list(y.v[k.name])
                how = d.pick(["item", "item", "append"])
                if how == "append":
                    ks = list(e.keys) if e.keys else own_keys(k, e)
                    if ks is None or e.keys and not spelled(k, ks, c.env):
                        continue
                elif have and d.bool(0.4):
                    ks = list(d.pick(have))
                else:
                    ks = [gen_key(d, k.kids[kn], c.env, len(k.keys) > 1) for kn in k.keys]
                if None in ks or ks == [""] or any(" ".join(ks) == " ".join(h) and tuple(ks) != h for h in have):
                    continue
                if tuple(ks) not in y.v[k.name] and any(all(gs[0].eqkey(k.kids[kn], a, b) for kn, a, b in zip(k.keys, ks, h))
                                                          for h in have):
                    continue
                op = ["copy", i, q[:-1] + [[k.name, ks]], j, p, how]
            else:
                dst = [q for q, m, y in spots(w.ms[i], (kind,)) if m is k]
                if not dst:
                    continue
                op = ["copy", i, d.pick(dst), j, p, d.pick(["attr", "attr", "meth", "load"])]
            w.copy(op)
            return op
        return None

    def own_keys(k, e):
        """The key an object made apart has, as text."""
        out = []
        for kn in k.keys:
            cv = e.v.get(kn)
            if cv is None or cv[0] not in ("str", "enum") or k.kids[kn].rt["b"] == "union":
                return None
            s = str(cv[1])
            if s == "" and len(k.keys) == 1:
                return None
            out.append(s)
        return out
    return {"n": n, "ops": [x for x in d.repeat(16, one) if x is not None]}


# ---------------------------------------------------------------- running
def blank(c, live, when, st):
    """A new instance, with nothing but the defaults."""
    empty = Model(c)
    for mod in c.names:
        o = cut("%s: a new instance" % when, c.new, mod)
        compare(c, o, empty.roots[mod], [mod], when + ", in a new instance")
        defaults(c, o, empty.roots[mod], [mod], when + ", in a new instance", st)
        check(cut("get()", o.get, filter=True) == {}, "%s: a new instance holds data", when)
        check_get_all(c, cut("get()", o.get), empty.roots[mod], [mod], when + ", in a new instance")
        check(not metadata(c, o, c.tree[mod]), "%s: a new instance has metadata", when)


def metadata(c, o, n, skip=None):
    """Metadata of all nodes below o."""
    out = {}
    for k in n.kids.values():
        v = getattr(o, k.py)
        if v is not skip:
            out.update(getattr(v, "_metadata", {}))
        if k.kind == "container":
            out.update(metadata(c, v, k, skip))
        elif k.kind == "list":
            for e in v.values():
                if e is not skip:
                    out.update(e._metadata)
                out.update(metadata(c, e, k, skip))
    return out


def run(case, st):
    c = hist.comp(case)
    h = case["h"]
    n = h["n"]
    w = World(c, n)
    lives = []
    for v in w.views:
        L = Live.__new__(Live)
        L.c, L.helpers = v, {}
        L.roots = {m: cut("constructing the bindings", c.new, m) for m in v.names}
        lives.append(L)
    stored, after = False, set()
    for t, op in enumerate(h["ops"]):
        when = "step %d, after %s" % (t, op)
        given = None
        if op[0] == "park":
            _, i, path = op
            name, node = w.park(i, path)
            lives[-1].roots[name] = o = cut(when, lives[i].obj(path)._new_item)
            check(not o._metadata if hasattr(o, "_metadata") else True, "%s: a new entry has metadata", when)
            defaults(c, o, w.ms[-1].roots[name], [name], when, st)
            st.cls("made an entry apart")
        elif op[0] == "copy":
            _, i, path, j, src, how = op
            o = lives[j].obj(src)
            node = w.copy(op)
            last = path[-1]
            if isinstance(last, str):
                p = lives[i].parent(path)
                if how == "attr":
                    cut(when, setattr, p, node.py, o)
                elif how == "meth":
                    cut(when, getattr(p, "_set_" + node.py), o)
                else:
                    cut(when, getattr(p, "_set_" + node.py), o, load=True)
            else:
                lst = lives[i].obj(path[:-1] + [last[0]])
                if how == "append":
                    cut(when, lst.append, o)
                else:
                    cut(when, lst.__setitem__, live_key(lst, last[1]), o)
            st.cls("%s %s%s" % (how, "entry" if not isinstance(last, str) else node.kind,
                                " made apart" if j == n and len(src) == 1 else ""))
            if node.kind != "leaf":
                check(lives[i].obj(path) is not o or (i == j and path == src), "%s: the very object was stored", when)
                stored = True
        elif op[0] == "ctor":
            _, i, mod, j = op
            w.ms[i].roots[mod] = dup(w.ms[j].roots[mod])
            lives[i].roots[mod] = cut(when, c.cls(mod), lives[j].roots[mod])
            st.cls("made a module from another")
            stored = True
        elif op[0] == "meta":
            _, i, path = op
            o = lives[i].obj(path)
            cut(when, o._add_metadata, "k%d" % t, path)
            for j, L in enumerate(lives):
                for name, x in w.ms[j].roots.items():
                    check("k%d" % t not in metadata(c, L.roots[name], x.n, o), "%s: another node of instance %d has the metadata",
                          when, j)
            st.cls("metadata")
        else:
            i, o = op
            w.ms[i].apply(o)
            cut(when, lives[i].apply, o)
            if o[0] in ("lset", "ext"):
                lives[i].given.append("junk")
                lives[i].given[:1] = []
            if stored:
                after.add(i)
        st.op()
        for i, L in enumerate(lives):
            for name, x in w.ms[i].roots.items():
                compare(c, L.roots[name], x, [name], when + ", in instance %d" % i)
        if t % 5 == 4:
            blank(c, lives[0], when, st)
    blank(c, lives[0], "at the end", st)
    for i, L in enumerate(lives):
        for name, x in w.ms[i].roots.items():
            check_get(c, cut("get(filter=True)", L.roots[name].get, filter=True), x, [name], "at the end")
    st.nontrivial(stored and len(after) > 1)
