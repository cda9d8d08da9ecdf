"""Schemas and histories shared by the checks about data trees."""
from . import schema as sc
from .live import compiled
from .model import OpGen


class Ctx(object):
    """What OpGen needs of a compiled schema, without compiling it."""

    def __init__(self, S):
        self.S = S
        self.env = sc.Env(S)
        self.tree = sc.build_tree(S, self.env)
        self.names = sc.mod_names(S)


_ctx = {}


def ctx(S):
    k = id(S)
    got = _ctx.get(k)
    if got is None or got[0] is not S:
        if len(_ctx) > 8:
            _ctx.clear()
        got = _ctx[k] = (S, Ctx(S))
    return got[1]


def gen_ops(lo_hi=14, W=None, val=None, **kw):
    def gen(d, S):
        g = OpGen(d, ctx(S), W, val, **kw)
        ops = [x for x in d.repeat(lo_hi, g.one) if x is not None]
        return {"ops": ops}
    return gen


def comp(case, flags=("--presence",), **k):
    return compiled(case["schema"], tuple(flags), **k)
