"""Sharded execution of generated cases, shrinking, replay files, evidence."""
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import boot, build

SHARDS = 8
SHRINK_SECONDS = 25
FAST = bool(os.environ.get("PBT_FAST"))     # stop at the first failure, as found
SOFT_LIMIT = {"quick": 560.0, "thorough": 7200.0}


MODEL_FNS = ("touch", "chain", "canon", "expected", "all_gone", "resolve", "judge")


class Violation(Exception):
    """The property does not hold for the case being run."""


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The case falls outside the property's domain (counted, never silent)."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def cut(what, fn, *a, **k):
    """Call code under test where the property says it must succeed."""
    try:
        return fn(*a, **k)
    except (Violation, HarnessError, Skip):
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        raise Violation("%s: unexpected %s: %s" % (what, type(e).__name__, short(e)))


def outcome(fn, *a, **k):
    """Call code under test where either outcome is possible: (True, value) or (False, exc)."""
    try:
        return True, fn(*a, **k)
    except (MemoryError, KeyboardInterrupt, Violation, HarnessError):
        raise
    except Exception as e:
        return False, e


def short(x, n=300):
    s = str(x)
    return s if len(s) <= n else s[: n - 3] + "..."


class Stats(object):
    def __init__(self):
        self.evals = 0
        self.ops = 0
        self.skipped = 0
        self.classes = {}
        self.nontriv = set()
        self.samples = []
        self.live = True
        self._nt = False

    def begin(self):
        self._nt = False

    def cls(self, name, n=1):
        if self.live:
            self.classes[name] = self.classes.get(name, 0) + n

    def op(self, n=1):
        if self.live:
            self.ops += n

    def nontrivial(self, flag=True):
        if flag:
            self._nt = True

    def end(self, case):
        if not self.live:
            return
        self.evals += 1
        if self._nt:
            txt = json.dumps(case, sort_keys=True, default=str)
            h = hashlib.sha1(txt.encode("utf-8", "surrogatepass")).hexdigest()[:16]
            if h not in self.nontriv:
                self.nontriv.add(h)
                if len(self.samples) < 3 and self.evals % 7 == 0 and len(txt) < 6000:
                    self.samples.append(case)
                elif not self.samples and len(txt) < 20000:
                    self.samples.append(case)


class Part(object):
    """One generator.  With ``outer``, schemas are drawn first and the histories
    for each schema afterwards, so that a compile is shared by many histories."""

    def __init__(self, name, gen, n, outer=None, n_outer=0):
        self.name = name
        self.gen = gen
        self.n = n
        self.outer = outer
        self.n_outer = n_outer


def seed_for(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def _hyp(fn, strat, n, seedv):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    eng.BUFFER_SIZE = 64 * 1024

    def plain(x):
        fn(x)

    test = given(strat)(plain)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    phases=[Phase.generate] + ([] if FAST else [Phase.shrink]), report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                    print_blob=False)(test)
    test = hypothesis.seed(seedv)(test)
    test()


def execute(mod, case, st):
    """Run one case; anything the code under test does wrong comes out as Violation."""
    try:
        mod.run(case, st)
    except (Violation, Skip, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except build.BadYang as e:
        # pyang itself, which is not under test, refuses the module
        if os.environ.get("PBT_BADYANG"):
            raise HarnessError("generated YANG rejected by pyang: %s" % e)
        raise Skip("generated YANG rejected by pyang")
    except build.CompileError as e:
        raise Violation("no usable bindings for a valid schema: %s" % short(e, 1200))
    except OSError as e:
        raise HarnessError("%s: %s" % (type(e).__name__, e))
    except Exception as e:
        # The harness is validated on the unchanged tree; an exception here means the
        # code under test returned or raised something no correct tree produces.
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.endswith("/pbt/schema.py") or f.name in MODEL_FNS for f in tb):
            raise HarnessError("%s: %s" % (type(e).__name__, e))
        where = " <- ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:5])
        raise Violation("unexpected %s: %s (%s)" % (type(e).__name__, short(e), where))


def _shard(modname, tier, seedv, shard, nshards, t0, q):
    res = {"shard": shard}
    st = Stats()
    try:
        mod = __import__("checks." + modname, fromlist=["x"])
        from .gen import D, Gen, Plain
        fail = None
        limit = t0 + SOFT_LIMIT[tier]
        cut_short = [False]
        trace = []
        for part in mod.parts(tier):
            outers = [None]
            pseed = seed_for(seedv, shard, part.name)
            if part.outer is not None:
                # (these are reduced by reduce_case, and drawn without Hypothesis, which would start with the simplest)
                oseed = seed_for(pseed, "outer")
                outers = [part.outer(D(Plain("%s/%d" % (oseed, i)))) for i in range(part.n_outer)]
            for oi, outer in enumerate(outers):
                last = {}

                def body(x, outer=outer, last=last):
                    case = x if outer is None else {"schema": outer, "h": x}
                    case["part"] = part.name
                    if st.live and time.time() > limit:
                        cut_short[0] = True
                        return
                    st.begin()
                    try:
                        execute(mod, case, st)
                        st.end(case)
                    except Skip:
                        if st.live:
                            st.skipped += 1
                    except Violation as e:
                        if st.live:
                            last["trace"], last["first"] = list(trace) + [case], str(e)
                        st.live = False
                        last["case"], last["msg"] = case, str(e)
                        raise
                    if st.live:
                        trace.append(case)
                        del trace[:-400]

                if outer is None:
                    g = part.gen
                else:
                    def g(d, outer=outer, part=part):
                        return part.gen(d, outer)
                try:
                    _hyp(body, Gen(g), part.n, seed_for(pseed, oi))
                except (HarnessError, MemoryError):
                    raise
                except BaseException as e:
                    if "case" not in last:
                        raise
                    if not isinstance(e, Violation):
                        last["note"] = "%s: %s" % (type(e).__name__, short(e))
                    fail = last
                if fail:
                    break
            if fail:
                break
        res["cut_short"] = cut_short[0]
        if fail:
            again = fail["msg"] if FAST else None
            for _ in range(0 if FAST else 2):
                try:
                    execute(mod, fail["case"], Stats())
                except Violation as e:
                    again = str(e)
                    break
            if again is None:
                # it takes what earlier cases left behind (see confirm)
                res["fail"] = dict(fail, case=None)
            else:
                fail["msg"] = again
                res["fail"] = fail if FAST else dict(fail, **reduce_case(mod, fail))
    except BaseException as e:
        res["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        build.cleanup()
    res.update(evals=st.evals, ops=st.ops, skipped=st.skipped, classes=st.classes,
               nontriv=list(st.nontriv), samples=st.samples)
    q.put(res)


def reduce_case(mod, fail, seconds=20):
    """Greedy deletion over the lists of the schema part of a case (Hypothesis has
    already shrunk what it drew)."""
    t0 = time.time()
    case, msg = fail["case"], fail["msg"]
    redu = getattr(mod, "reduce", None)
    if redu is None or "schema" not in case:
        return fail
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        for cand in redu(case):
            if time.time() - t0 > seconds:
                break
            try:
                execute(mod, cand, Stats())
            except Violation as e:
                case, msg, changed = cand, str(e), True
                break
            except BaseException:
                continue
    return {"case": case, "msg": msg}


def replay(mod, case):
    """Runs a case, or several in turn in one process; the first Violation comes out."""
    for c in case.get("cases") or [case]:
        try:
            execute(mod, c, Stats())
        except Skip:
            if "cases" not in case:
                raise


def fails_afresh(prop, case, msg, rdir):
    """Does the case fail in a new process?"""
    import subprocess
    path = os.path.join(rdir, ".%s-%d.json" % (prop, os.getpid()))
    with open(path, "w", encoding="utf-8") as fh:
        json.dump({"property": prop, "message": msg, "case": case}, fh, default=str)
    try:
        p = subprocess.run([sys.executable, os.path.join(boot.VERIF, "run.py"), prop, "--replay", path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        return p.returncode == 1
    except subprocess.TimeoutExpired:
        return False
    finally:
        os.unlink(path)


def confirm(prop, f, rdir, seconds=90):
    """A failure that stands in a new process: of one case, or of the cases that ran in
    the process that found it, as few of them as time allows.  State that outlives a
    case (in a class or a module) needs the latter."""
    if f["case"] is not None and fails_afresh(prop, f["case"], f["msg"], rdir):
        return f
    t0 = time.time()
    cases = f.get("trace") or [f["case"]]
    f = {"case": {"cases": cases}, "msg": f.get("first", f["msg"])}
    if not fails_afresh(prop, f["case"], f["msg"], rdir):
        f["msg"] += " (seen in one run; not reproduced by running the same cases again)"
        return f
    n = 2
    while len(cases) > 1 and time.time() - t0 < seconds:
        size = max(1, len(cases) // n)
        for i in range(0, len(cases) - 1, size):
            rest = cases[:i] + cases[i + size:]
            if not rest or rest[-1] is not cases[-1] or time.time() - t0 > seconds:
                continue
            if fails_afresh(prop, {"cases": rest}, f["msg"], rdir):
                cases, n = rest, max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n *= 2
    f["case"] = {"cases": cases} if len(cases) > 1 else cases[0]
    return f


def load_known(prop):
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main(prop, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=SHARDS)
    ap.add_argument("--show-classes", action="store_true")
    ns = ap.parse_args(argv)
    modname = prop.lower()
    mod = __import__("checks." + modname, fromlist=["x"])
    try:
        seedv = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seedv = seed_for(os.environ["VERIF_SEED"]) % 2**31
    t0 = time.time()

    if ns.replay:
        with open(ns.replay, encoding="utf-8") as f:
            case = json.load(f)
        case = case.get("case", case)
        try:
            replay(mod, case)
        except Violation as e:
            print("VIOLATION property=%s replay=%s" % (prop, ns.replay))
            print("  " + str(e))
            return 1
        except Skip as e:
            print("case outside the domain: %s" % e)
        finally:
            build.cleanup()
        print("replay of %s: property held" % ns.replay)
        return 0

    base = build.make_base()

    # known findings first: each has its own committed reproduction
    known_lines, fixed_fail = [], None
    for k in load_known(prop):
        case = k.get("case")
        if case is None:
            continue
        try:
            execute(mod, case, Stats())
            hit = None
        except Violation as e:
            hit = str(e)
        except (Skip, HarnessError) as e:
            print("harness error: reproduction %s: %s" % (k["id"], e))
            build.cleanup()
            build.drop_base(base)
            return 2
        if k["status"] == "known":
            if hit is not None:
                known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
        elif hit is not None and fixed_fail is None:
            fixed_fail = {"case": case, "msg": "%s is back: %s" % (k["id"], hit)}

    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    nsh = ns.shards
    pending = list(range(nsh))
    running, results = {}, []
    ncpu = max(1, min(nsh, len(os.sched_getaffinity(0))))
    stop = False
    while pending or running:
        while pending and len(running) < ncpu and not stop:
            s = pending.pop(0)
            p = ctx.Process(target=_shard, args=(modname, ns.tier, seedv, s, nsh, t0, q))
            p.start()
            running[s] = p
        if stop:
            pending = []
            if not running:
                break
        try:
            r = q.get(timeout=1.0)
        except Exception:
            dead = [s for s, p in running.items() if not p.is_alive()]
            if dead:
                try:
                    r = q.get(timeout=1.0)
                except Exception:
                    for s in dead:
                        results.append({"shard": s, "error": "worker %d died (exit %s)" % (s, running[s].exitcode),
                                        "evals": 0, "ops": 0, "skipped": 0, "classes": {}, "nontriv": [],
                                        "samples": []})
                        del running[s]
                    continue
            else:
                continue
        results.append(r)
        p = running.pop(r["shard"], None)
        if p is not None:
            p.join(10)
        if r.get("fail"):
            stop = True
            # give the others a moment, then end them
            for p in running.values():
                p.terminate()
            for p in running.values():
                p.join(10)
            running = {}
    build.cleanup()
    build.drop_base(base)

    results.sort(key=lambda r: r["shard"])
    fails = [r["fail"] for r in results if r.get("fail")]
    if fixed_fail:
        fails.insert(0, fixed_fail)
    errors = [r["error"] for r in results if r.get("error")]
    classes = {}
    nontriv = set()
    samples = []
    for r in results:
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        nontriv.update(r["nontriv"])
        if len(samples) < 4:
            samples += r["samples"][:1]
    evals = sum(r["evals"] for r in results)
    ops = sum(r["ops"] for r in results)
    ev = {
        "property": prop,
        "tier": ns.tier,
        "seed": seedv,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": [short(json.dumps(s, sort_keys=True, default=str), 1800) for s in samples[:4]],
            "operations": ops,
            "classes": dict(sorted(classes.items())),
            "skipped": sum(r["skipped"] for r in results),
            "shards": len(results),
            "cut_short_by_time": any(r.get("cut_short") for r in results),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": 0,
        "wall_s": round(time.time() - t0, 2),
    }
    if known_lines:
        ev["coverage"]["known_findings"] = known_lines
    code = 0
    if fails:
        rdir = os.path.join(boot.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        f = fails[0] if FAST else confirm(prop, fails[0], rdir)
        txt = json.dumps(f["case"], sort_keys=True, indent=1, default=str)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(txt.encode("utf-8", "surrogatepass")).hexdigest()[:10]))
        with open(path, "w", encoding="utf-8") as fh:
            json.dump({"property": prop, "message": f["msg"], "case": f["case"]}, fh, indent=1, default=str)
        ev["violations"] = len(fails)
        ev["coverage"]["violation"] = {"replay": path, "message": short(f["msg"], 1500)}
        code = 1
    elif errors:
        code = 2
    edir = os.path.join(boot.VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    for line in known_lines:
        print(line)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d operations, %d skipped, %.1fs" % (
        prop, ns.tier, seedv, evals, len(nontriv), ops, ev["coverage"]["skipped"], time.time() - t0))
    if ns.show_classes:
        for k, v in sorted(classes.items()):
            print("   %-50s %d" % (k, v))
    if code == 1:
        print("VIOLATION property=%s replay=%s" % (prop, ev["coverage"]["violation"]["replay"]))
        print("  " + ev["coverage"]["violation"]["message"])
    elif code == 2:
        print("harness error:")
        for e in errors[:3]:
            print(e)
    sys.stdout.flush()
    return code
