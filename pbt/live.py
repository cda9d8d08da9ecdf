"""Compiled bindings for a schema, kept for the cases that follow."""
import json

from . import build, schema as sc
from .engine import HarnessError

_cache = {}


class Compiled(object):
    def __init__(self, S, flags=(), split=False, keep_text=False, files=None, order=None):
        self.S = S
        self.env = sc.Env(S)
        self.tree = sc.build_tree(S, self.env)
        self.files = files or sc.emit(S)
        self.names = sc.mod_names(S)
        self.ns = build.compile_yang(self.files, order or self.names, flags=flags, split=split, keep_text=keep_text)

    def cls(self, mod):
        return getattr(self.ns, sc.safe(mod))

    def new(self, mod, **k):
        return self.cls(mod)(**k)

    def roots(self, **k):
        return {m: self.new(m, **k) for m in self.names}


def compiled(S, flags=(), split=False, keep_text=False):
    key = json.dumps([S, list(flags), split, keep_text], sort_keys=True)
    got = _cache.get(key)
    if got is None:
        if len(_cache) >= 4:
            _cache.clear()
        got = _cache[key] = Compiled(S, flags, split, keep_text)
    return got


def reduce_schema(S):
    """Smaller variants of a schema: one definition or node removed at a time."""
    import copy

    def paths(x, here):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("body", "kids", "cases", "augments", "typedefs", "identities", "groupings", "rpcs", "notifs",
                         "mods", "pat", "subs", "ext", "input", "output", "refine", "aug"):
                    for i in range(len(v) - 1, -1, -1):
                        yield here + [k, i]
                if isinstance(v, (dict, list)):
                    for p in paths(v, here + [k]):
                        yield p
        elif isinstance(x, list):
            for i, v in enumerate(x):
                for p in paths(v, here + [i]):
                    yield p

    if S.get("noise"):
        yield dict(S, noise=0)
    for p in list(paths(S, [])):
        T = copy.deepcopy(S)
        x = T
        try:
            for s in p[:-1]:
                x = x[s]
            del x[p[-1]]
        except (KeyError, IndexError):
            continue
        if T["mods"] and whole(T) and populated(T):
            yield T


def populated(S):
    try:
        return all(r.kids for r in sc.build_tree(S).values())
    except KeyError:
        return False


def whole(x):
    """No container, list, choice or case without content is left."""
    if isinstance(x, dict):
        if any(k in x and not x[k] for k in ("kids", "cases", "bits", "enums", "keys", "m")):
            return False
        return all(whole(v) for v in x.values())
    if isinstance(x, list):
        return all(whole(v) for v in x)
    return True


def reduce_case(case):
    for T in reduce_schema(case["schema"]):
        yield dict(case, schema=T)


def node_at(c, mod, path):
    n = c.tree.get(mod)
    if n is None:
        raise HarnessError("no module %s" % mod)
    for p in path:
        if p not in n.kids:
            raise HarnessError("no node %s in %s" % (p, path))
        n = n.kids[p]
    return n
