"""Reference model of YANG types, written from RFC 7950 section 9 and the mapping
table in docs/yang.md.  Nothing here looks at the code under test.

A type statement is a JSON dict (see ``text``); ``resolve`` follows typedefs and
returns a resolved type:

  {"b": "int", "name": "int8", "lim": [lo, hi], "ranges": [[[lo, hi], ...], ...]}
  {"b": "dec", "fd": n, "ranges": [[["1.0", "2.5"]...]...]}
  {"b": "str", "lens": [...], "pats": [...]}       {"b": "bin", "lens": [...]}
  {"b": "bool"}  {"b": "empty"}
  {"b": "enum", "names": [[name, value]...]}
  {"b": "bits", "bits": [[name, pos]...]}
  {"b": "idref", "base": "mod:name"}
  {"b": "union", "m": [...]}
  {"b": "leafref", "path": ..., "ri": bool}
"""
import base64
import re
from decimal import Decimal, InvalidOperation, ROUND_FLOOR, ROUND_HALF_EVEN

INTS = {
    "int8": (-(2 ** 7), 2 ** 7 - 1), "int16": (-(2 ** 15), 2 ** 15 - 1),
    "int32": (-(2 ** 31), 2 ** 31 - 1), "int64": (-(2 ** 63), 2 ** 63 - 1),
    "uint8": (0, 2 ** 8 - 1), "uint16": (0, 2 ** 16 - 1),
    "uint32": (0, 2 ** 32 - 1), "uint64": (0, 2 ** 64 - 1),
}
INT_NAMES = list(INTS)

# pattern -> sampler(D); XSD and Python agree on all of these when fully anchored
LOW = "abcdefghijklmnopqrstuvwxyz"
UP = LOW.upper()
DIG = "0123456789"
PATTERNS = {
    "[a-z]+": lambda d: d.text("abcxyz", 1, 6),
    "[a-z0-9]{2,5}": lambda d: d.text("abz019", 2, 5),
    "[A-Z][0-9]*": lambda d: d.pick("ABZ") + d.text(DIG, 0, 4),
    "(ab|cd)+": lambda d: "".join(d.pick(["ab", "cd"]) for _ in range(d.int(1, 3))),
    "a|b|xyz": lambda d: d.pick(["a", "b", "xyz"]),
    "on|off": lambda d: d.pick(["on", "off"]),
    "\\d+\\.\\d+": lambda d: d.text(DIG, 1, 3) + "." + d.text(DIG, 1, 3),
    ".*x.*": lambda d: d.text("abc -", 0, 3) + "x" + d.text("abc -", 0, 3),
    "[^:]+": lambda d: d.text("ab /-", 1, 5),
    "\\w+@\\w+": lambda d: d.text("ab1", 1, 3) + "@" + d.text("cd2", 1, 3),
    "[0-9a-fA-F]{2}(:[0-9a-fA-F]{2})*": lambda d: ":".join(
        d.text("019afAF", 2, 2) for _ in range(d.int(1, 3))),
    "fi$h": lambda d: "fi$h",
    ".*": lambda d: d.text("ab1 :$", 0, 6),
}
PAT_NAMES = list(PATTERNS)


def pat_ok(pat, s):
    # '$' is an ordinary character in XSD expressions
    return re.fullmatch("(?:%s)" % pat.replace("$", "\\$"), s) is not None


# ---------------------------------------------------------------- text
def q(s):
    """Double-quoted YANG string."""
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


def _ranges(rs):
    return " | ".join(str(a) if a == b else "%s..%s" % (a, b) for a, b in rs)


NOISE = [None]


def text(T, pfx, ind):
    """YANG text of a type statement; pfx(modname) -> prefix string with colon or ''."""
    t = T["t"]
    body = []
    N = NOISE[0]

    def stmt(head, doc=False):
        return head + ";" if N is None else N.braced(head, N.doc(0.15) if doc else N.error() if N.some(0.3) else [])
    if T.get("range"):
        body.append(stmt('range "%s"' % (T.get("range_txt") or _ranges(T["range"]))))
    if T.get("len"):
        body.append(stmt('length "%s"' % (T.get("len_txt") or _ranges(T["len"]))))
    for p in T.get("pat") or []:
        body.append(stmt("pattern '%s'" % p if N is None else "pattern %s" % N.q(p)))
    name = t
    if t == "ref":
        mod, n = T["td"].split(":")
        name = pfx(mod) + n
    elif t == "decimal64":
        body.insert(0, "fraction-digits %d;" % T["fd"])
    elif t == "enumeration":
        for n, v in T["enums"]:
            if N is not None:
                body.append(N.braced("enum %s" % N.q(n), N.doc(0.15) + ([] if v is None else ["value %s;" % N.q(str(v))])))
                continue
            body.append("enum %s;" % q(n) if v is None else "enum %s { value %d; }" % (q(n), v))
    elif t == "bits":
        for n, p in T["bits"]:
            if N is not None:
                body.append(N.braced("bit %s" % N.q(n), N.doc(0.15) + ([] if p is None else ["position %d;" % p])))
                continue
            body.append("bit %s;" % n if p is None else "bit %s { position %d; }" % (n, p))
    elif t == "identityref":
        mod, n = T["base"].split(":")
        body.append("base %s%s;" % (pfx(mod), n))
    elif t == "leafref":
        body.append('path "%s";' % T["path"] if N is None else "path %s;" % N.q(T["path"]))
        if T.get("ri") is not None:
            body.append("require-instance %s;" % ("true" if T["ri"] else "false"))
    elif t == "union":
        for m in T["m"]:
            body.append(text(m, pfx, ind + "  "))
    if not body:
        return "type %s;" % name
    return "type %s {\n%s  %s\n%s}" % (name, ind, ("\n" + ind + "  ").join(body), ind)


# ---------------------------------------------------------------- resolve
def _num(x):
    return Decimal(x) if isinstance(x, str) else x


def _lo(rt):
    if rt["ranges"]:
        return rt["ranges"][-1][0][0]
    return rt["lim"][0]


def _hi(rt):
    if rt["ranges"]:
        return rt["ranges"][-1][-1][1]
    return rt["lim"][1]


def _restrict(rt, T):
    rt = dict(rt)
    if T.get("range"):
        lo, hi = _lo(rt), _hi(rt)
        rs = [[lo if a == "min" else (hi if a == "max" else a), hi if b == "max" else (lo if b == "min" else b)]
              for a, b in T["range"]]
        rt["ranges"] = rt["ranges"] + [rs]
    if T.get("len"):
        cur = rt["lens"]
        lo = cur[-1][0][0] if cur else 0
        hi = cur[-1][-1][1] if cur else None
        rs = [[lo if a == "min" else (hi if a == "max" else a), hi if b == "max" else (lo if b == "min" else b)]
              for a, b in T["len"]]
        rt["lens"] = rt["lens"] + [rs]
    if T.get("pat"):
        rt["pats"] = rt["pats"] + list(T["pat"])
    return rt


def dec_limits(fd):
    sc = Decimal(1).scaleb(-fd)
    return [str(Decimal(-(2 ** 63)) * sc), str(Decimal(2 ** 63 - 1) * sc)]


def resolve(T, typedefs):
    t = T["t"]
    if t == "ref":
        return _restrict(resolve(typedefs[T["td"]]["type"], typedefs), T)
    if t in INTS:
        return _restrict({"b": "int", "name": t, "lim": list(INTS[t]), "ranges": []}, T)
    if t == "decimal64":
        return _restrict({"b": "dec", "fd": T["fd"], "lim": dec_limits(T["fd"]), "ranges": []}, T)
    if t == "string":
        return _restrict({"b": "str", "lens": [], "pats": []}, T)
    if t == "binary":
        return _restrict({"b": "bin", "lens": []}, T)
    if t == "boolean":
        return {"b": "bool"}
    if t == "empty":
        return {"b": "empty"}
    if t == "enumeration":
        out, nxt = [], 0
        for n, v in T["enums"]:
            if v is None:
                v = nxt
            out.append([n, v])
            nxt = max(nxt, v + 1) if len(out) > 1 else v + 1
        return {"b": "enum", "names": out}
    if t == "bits":
        out, nxt = [], 0
        for n, p in T["bits"]:
            if p is None:
                p = nxt
            out.append([n, p])
            nxt = max(nxt, p + 1)
        return {"b": "bits", "bits": out}
    if t == "identityref":
        return {"b": "idref", "base": T["base"]}
    if t == "leafref":
        return {"b": "leafref", "path": T["path"], "ri": T.get("ri") is not False}
    if t == "union":
        ms = []
        for m in T["m"]:
            r = resolve(m, typedefs)
            ms.extend(r["m"] if r["b"] == "union" else [r])
        return {"b": "union", "m": ms}
    raise AssertionError(t)


# ---------------------------------------------------------------- values
def to_py(w):
    """JSON-able wire value -> Python value handed to the API."""
    if isinstance(w, dict):
        if "$d" in w:
            return Decimal(w["$d"])
        if "$b" in w:
            return bytes.fromhex(w["$b"])
        if "$f" in w:
            return float(w["$f"])
        if "$none" in w:
            return None
    return w


def to_wire(v):
    if isinstance(v, Decimal):
        return {"$d": str(v)}
    if isinstance(v, bytes):
        return {"$b": v.hex()}
    return v


def in_ranges(v, rangesets):
    return all(any(_num(a) <= v and (b is None or v <= _num(b)) for a, b in rs) for rs in rangesets)


def derived(base, identities):
    """Identities transitively derived from base, excluding it."""
    out, todo = [], [base]
    while todo:
        b = todo.pop(0)
        for i, bases in identities.items():
            if b in bases and i not in out:
                out.append(i)
                todo.append(i)
    return out


INT_RE = re.compile(r"-?(0|[1-9][0-9]*)\Z")
DEC_RE = re.compile(r"-?[0-9]+(\.[0-9]+)?\Z")
UNK = ("unspecified",)
BAD = ("bad",)


def judge(rt, v, env):
    """('ok', canonical) | BAD | UNK.  canonical = (kind, value)."""
    b = rt["b"]
    if v is None:
        return UNK   # assigning None is not a documented operation
    if b == "int":
        if isinstance(v, bool):
            return UNK
        if isinstance(v, str):
            if INT_RE.match(v) and v != "-0":
                v = int(v)
            elif v == "" or re.match(r"[A-Za-z:]", v) or DEC_RE.match(v) and "." in v:
                return BAD
            else:
                return UNK
        if isinstance(v, int):
            ok = rt["lim"][0] <= v <= rt["lim"][1] and in_ranges(v, rt["ranges"])
            return ("ok", ("int", v)) if ok else BAD
        if v is None or isinstance(v, (list, dict)):
            return BAD
        return UNK
    if b == "dec":
        if isinstance(v, bool):
            return UNK
        if isinstance(v, str):
            if not DEC_RE.match(v):
                if v in ("NaN", "Infinity", "-Infinity", "abc", "", "1.2.3", "1,5", "--1"):
                    return BAD
                return UNK
            v = Decimal(v)
        if isinstance(v, float):
            v = Decimal(v)
        if isinstance(v, int):
            v = Decimal(v)
        if isinstance(v, Decimal):
            if not v.is_finite():
                return BAD
            if abs(v) > Decimal(10) ** 24:
                return BAD
            import decimal
            with decimal.localcontext() as c:
                c.prec = 80
                qv = v.quantize(Decimal(1).scaleb(-rt["fd"]), rounding=ROUND_HALF_EVEN)
            ok = in_ranges(qv, [[rt["lim"]]] + rt["ranges"])
            if v != qv and ok != in_ranges(v, [[rt["lim"]]] + rt["ranges"]):
                return UNK  # rounding moves the value across a bound
            return ("ok", ("dec", v)) if ok else BAD
        if v is None:
            return BAD
        return UNK
    if b == "str":
        if isinstance(v, bool) or v is None or isinstance(v, (bytes, float, Decimal, list, dict)):
            return UNK
        if isinstance(v, int):
            v = str(v)
        ok = in_ranges(len(v), rt["lens"]) and all(pat_ok(p, v) for p in rt["pats"])
        return ("ok", ("str", v)) if ok else BAD
    if b == "bin":
        if isinstance(v, str):
            try:
                raw = base64.b64decode(v, validate=True)
            except Exception:
                return UNK if v != "".join(v.split()) else BAD
            if base64.b64encode(raw).decode() != v:
                return UNK
            v = raw
        if isinstance(v, bytes):
            return ("ok", ("bin", v)) if in_ranges(len(v), rt["lens"]) else BAD
        return BAD if isinstance(v, (int, float, list, dict)) or v is None else UNK
    if b in ("bool", "empty"):
        if isinstance(v, bool):
            return ("ok", ("bool", v))
        if v in ("true", "false"):
            return ("ok", ("bool", v == "true"))
        if v in (0, 1) or v in ("0", "1", "True", "False"):
            return UNK
        return BAD if isinstance(v, (str, int)) or v is None else UNK
    if b == "enum":
        if isinstance(v, str):
            return ("ok", ("enum", v)) if v in [n for n, _ in rt["names"]] else BAD
        if isinstance(v, int) and not isinstance(v, bool):
            return UNK if str(v) in [n for n, _ in rt["names"]] else BAD
        return UNK
    if b == "idref":
        if isinstance(v, str):
            acc = env.id_forms(rt["base"])
            if v in acc:
                return ("ok", ("id", v))
            return UNK if v in env.id_loose(rt["base"]) else BAD
        return BAD if isinstance(v, int) and not isinstance(v, bool) else UNK
    if b == "bits":
        if isinstance(v, str):
            names = [n for n, _ in rt["bits"]]
            got = v.split()
            if v and any(c in v for c in "\x1c\x1d\x1e\x1f\x85\xa0"):
                return UNK
            return ("ok", ("bits", frozenset(got))) if all(x in names for x in got) else BAD
        return UNK
    if b == "union":
        for m in rt["m"]:
            r = judge(m, v, env)
            if r is UNK or r[0] == "ok":
                return r
        return BAD
    if b == "leafref":
        if isinstance(v, str):
            return ("ok", ("str", v))
        return UNK
    raise AssertionError(b)


def bits_text(rt, s):
    return " ".join(n for n, _ in sorted(rt["bits"], key=lambda x: x[1]) if n in s)


def find_member(rt, v, env):
    """For a union: the resolved member type that takes v."""
    if rt["b"] != "union":
        return rt
    for m in rt["m"]:
        r = judge(m, v, env)
        if r[0] == "ok":
            return m
    return None


LOOSE_IDS = [False]


def live_matches(canon, live, fd=None, rt=None):
    """Does a value read back from the API equal the canonical value?"""
    kind, v = canon
    if kind == "int":
        return isinstance(live, int) and int(live) == v and str(live) == str(v)
    if kind == "bool":
        return isinstance(live, int) and int(live) == int(v) and str(live) == str(v)
    if kind == "dec":
        if not isinstance(live, Decimal):
            return False
        x = Decimal(str(live))
        if fd is None:
            return x == v
        import decimal
        with decimal.localcontext() as c:
            c.prec = 90
            ulp = Decimal(1).scaleb(-fd)
            return abs(x - v) * 2 <= ulp and x == x.quantize(ulp)
    if kind == "id" and LOOSE_IDS[0]:
        return isinstance(live, str) and str(live).split(":")[-1] == v.split(":")[-1]
    if kind in ("str", "enum", "id"):
        return isinstance(live, str) and str(live) == v
    if kind == "bin":
        return isinstance(live, bytes) and bytes(live) == v
    if kind == "bits":
        ok = isinstance(live, (set, frozenset)) and set(live) == set(v)
        if ok and rt is not None:
            ok = str(live) == bits_text(rt, v)
        return ok
    raise AssertionError(kind)


# ---------------------------------------------------------------- value generators
def gen_int_probe(d, rt):
    pts = []
    for rs in rt["ranges"] + [[rt["lim"]]]:
        for a, b in rs:
            pts += [a, b]
    k = d.int(0, 9)
    if k < 5:
        v = d.pick(pts) + d.pick([0, 1, -1, 0])
    elif k == 5:
        a, b = d.pick((rt["ranges"] or [[rt["lim"]]])[-1])
        v = d.int(a, b)
    elif k == 6:
        v = d.int(-20, 300)
    elif k == 7:
        v = d.int(rt["lim"][0] - 10, rt["lim"][1] + 10)
    elif k == 8:
        v = d.pick(list(INTS.values()))[d.idx(2)] + d.int(-1, 1)
    else:
        return d.pick(["abc", "", "1.5", {"$none": 1}, "x1", [], "-"])
    return str(v) if d.bool(0.25) else v


def gen_dec_probe(d, rt):
    fd = rt["fd"]
    ulp = Decimal(1).scaleb(-fd)
    pts = []
    for rs in rt["ranges"] + [[rt["lim"]]]:
        for a, b in rs:
            pts += [Decimal(a), Decimal(b)]
    import decimal
    with decimal.localcontext() as c:
        c.prec = 60
        k = d.int(0, 9)
        if k < 4:
            v = d.pick(pts) + ulp * d.pick([0, 1, -1])
        elif k == 4:
            v = d.pick(pts) + ulp * Decimal(d.pick(["0.3", "-0.3", "0.7", "-0.7"]))
        elif k == 5:
            v = Decimal(d.int(-10 ** 6, 10 ** 6)) * ulp
        elif k == 6:
            v = Decimal(d.int(-300, 300))
        elif k == 7:
            a, b = d.pick((rt["ranges"] or [[rt["lim"]]])[-1])
            lo, hi = int(Decimal(a).scaleb(fd)), int(Decimal(b).scaleb(fd))
            v = Decimal(d.int(lo, hi)) * ulp
        elif k == 8:
            return {"$f": repr(d.int(-4000, 4000) / 8.0)}
        else:
            return d.pick(["abc", "", "1.2.3", "NaN", "Infinity", {"$none": 1}, {"$d": "NaN"}, "1,5"])
        m = d.int(0, 3)
        if m == 0:
            return str(v) if "E" not in str(v) else format(v, "f")
        if m == 1 and v == v.to_integral_value():
            return int(v)
        return {"$d": str(v)}


def gen_len(d, lens, hard=40):
    """A length satisfying the last (innermost) restriction, or near its edges."""
    if not lens:
        return d.int(0, 8)
    a, b = d.pick(lens[-1])
    b = min(hard, a + 6) if b is None else b
    k = d.int(0, 4)
    return max(0, {0: a, 1: b, 2: a - 1, 3: b + 1}.get(k, d.int(a, b)))


CHARS = ["a", "b", "x", "Z", "0", "7", " ", "-", ":", ".", "$", "^", "\n", "\t", "\r", "\u00e9", "\u4e2d", "\U0001f600", "/", "'", '"', "\\", "@", "<", "&"]


def gen_str_probe(d, rt):
    n = gen_len(d, rt["lens"])
    if rt["pats"] and d.bool(0.8):
        s = PATTERNS[d.pick(rt["pats"])](d)
        if rt["lens"] and d.bool(0.7):
            # steer towards the wanted length by repeating or trimming the sample
            for _ in range(6):
                if len(s) >= n:
                    break
                s += PATTERNS[d.pick(rt["pats"])](d)
            s = s[:n] if d.bool(0.7) else s
        k = d.int(0, 7)
        if k == 0:
            s = s + d.pick(CHARS)
        elif k == 1:
            s = d.pick(CHARS) + s
        elif k == 2 and s:
            i = d.idx(len(s))
            s = s[:i] + d.pick(CHARS) + s[i + 1:]
        elif k == 3:
            s = s + "\n"
        return s
    return d.text(CHARS, n, n)


def gen_bin_probe(d, rt):
    k = d.int(0, 9)
    if k == 9:
        return d.pick([5, {"$none": 1}, "abc", [], "a", "YWJ:", "a-b:cdef", "YQ==YQ==", "YWJj?YWJj", "YQ=", "=YQ="])
    n = gen_len(d, rt["lens"])
    raw = bytes(d.pick([0, 1, 65, 127, 128, 255, 10, 34]) for _ in range(n))
    if k < 5:
        return {"$b": raw.hex()}
    return base64.b64encode(raw).decode()


def gen_probe(d, rt, env):
    """A value for a type: mostly near or inside its bounds, some outside."""
    b = rt["b"]
    if b == "int":
        return gen_int_probe(d, rt)
    if b == "dec":
        return gen_dec_probe(d, rt)
    if b == "str":
        return gen_str_probe(d, rt)
    if b == "bin":
        return gen_bin_probe(d, rt)
    if b in ("bool", "empty"):
        return d.pick([True, False, "true", "false", "maybe", 2, "", "TRUE", "yes", -1])
    if b == "enum":
        n = d.pick(rt["names"])[0]
        k = d.int(0, 5)
        return n if k < 3 else d.pick([n.upper() + "Q", n + " ", "", n[:-1] + "#", 77, " " + n])
    if b == "idref":
        forms = sorted(env.id_forms(rt["base"]))
        k = d.int(0, 9)
        if k < 6 and forms:
            return d.pick(forms)
        allids = sorted(env.all_id_forms())
        if k < 8 and allids:
            return d.pick(allids)
        return d.pick(["", "no-such", "zz:no-such", 5] + ([forms[0] + "x"] if forms else []))
    if b == "bits":
        names = [n for n, _ in rt["bits"]]
        got = d.shuffle(d.subset(names))
        k = d.int(0, 6)
        if k == 0:
            got.insert(d.idx(len(got) + 1), d.pick(["nope", "BIT", names[0] + "x"]))
        sep = d.pick([" ", " ", "  ", "\n"])
        return sep.join(got)
    if b == "union":
        return gen_probe(d, d.pick(rt["m"]), env)
    if b == "leafref":
        return d.text("abc1", 1, 4)
    raise AssertionError(b)


def gen_valid(d, rt, env, tries=12):
    """A value the type certainly accepts, or None when none was found."""
    for _ in range(tries):
        w = gen_probe(d, rt, env)
        if judge(rt, to_py(w), env)[0] == "ok":
            return w
    return fallback(rt, env)


def fallback(rt, env):
    """A deterministic valid value."""
    b = rt["b"]
    if b == "int":
        return (rt["ranges"] or [[rt["lim"]]])[-1][0][0]
    if b == "dec":
        return {"$d": str((rt["ranges"] or [[["0", "0"]]])[-1][0][0])}
    if b == "bool":
        return False
    if b == "empty":
        return True
    if b == "enum":
        return rt["names"][0][0]
    if b == "idref":
        f = sorted(env.id_forms(rt["base"]))
        return f[0] if f else None
    if b == "bits":
        return rt["bits"][0][0]
    if b == "bin":
        n = max([rs[0][0] for rs in rt["lens"]] or [1])
        return {"$b": "41" * n}
    if b == "str":
        cands = ["a", "ab", "abc", "xyz", "aaaa", "on", "A0", "x", "a@b", "1.1", "aa", "fi$h", "", "aaaaaaaa", "abab", "a" * 12]
        for n in range(0, 41):
            cands.append("a" * n)
        for c in cands:
            if judge(rt, c, env)[0] == "ok":
                return c
        return None
    if b == "union":
        for m in rt["m"]:
            w = fallback(m, env)
            if w is not None and judge(rt, to_py(w), env)[0] == "ok":
                return w
        return None
    if b == "leafref":
        return "a"
    return None
