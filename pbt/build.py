"""Compile YANG text to bindings with the repository's pyang plugin.

Every compile runs the real command line entry point of pyang in a forked child,
so that state the plugin keeps at module level never leaks between cases, while
the cost of starting an interpreter is paid once per worker.
"""
import gc
import itertools
import os
import shutil
import sys
import tempfile
import types

from . import boot

_state = {"ready": False, "tmp": None}
_counter = itertools.count()


class CompileError(Exception):
    """The plugin did not produce importable bindings for a valid module."""


class BadYang(Exception):
    """pyang itself rejects the generated module: a fault of the generator."""


def scratch():
    if _state["tmp"] is None or _state.get("pid") != os.getpid():
        _state["tmp"] = tempfile.mkdtemp(prefix="pbt.", dir=os.environ.get("PBT_BASE") or None)
        _state["pid"] = os.getpid()
    return _state["tmp"]


def cleanup():
    if _state["tmp"] and _state.get("pid") == os.getpid():
        shutil.rmtree(_state["tmp"], ignore_errors=True)
        _state["tmp"] = None


def make_base():
    """One scratch directory per run; workers put theirs below it."""
    base = tempfile.mkdtemp(prefix="pbtrun.")
    os.environ["PBT_BASE"] = base
    return base


def drop_base(base):
    os.environ.pop("PBT_BASE", None)
    shutil.rmtree(base, ignore_errors=True)


def _preload():
    if _state["ready"]:
        return
    saved = list(sys.path)
    import pyang.plugin
    import pyang.scripts.pyang_tool  # noqa: F401
    import lxml.objectify  # noqa: F401
    import lxml.etree  # noqa: F401
    pyang.plugin.init([os.path.join(boot.REPO, "pyangbind", "plugin")])
    del pyang.plugin.plugins[:]
    sys.path[:] = saved
    import pyangbind.lib.yangtypes  # noqa: F401
    import pyangbind.lib.serialise  # noqa: F401
    import pyangbind.lib.pybindJSON  # noqa: F401
    import pyangbind.lib.xpathhelper  # noqa: F401
    gc.freeze()
    _state["ready"] = True


def _run_pyang(args, out, err):
    """Run pyang's command line in a forked child; return its exit status."""
    _preload()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 120
        try:
            fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, "w", buffering=1, encoding="utf-8", closefd=False)
            sys.stderr = os.fdopen(2, "w", buffering=1, encoding="utf-8", closefd=False)
            sys.argv = ["pyang"] + args
            import pyang.scripts.pyang_tool as tool
            try:
                tool.run()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 121
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 0xFF)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def compile_yang(files, build, flags=(), split=False, order=None, keep_text=False):
    """files: {name: yang text}; build: names handed to pyang, in order.

    Returns a namespace object with one class per built module; ``._text`` holds
    the generated source (single file output) and ``._log`` what was printed.
    """
    d = os.path.join(scratch(), "c%d" % next(_counter))
    os.mkdir(d)
    try:
        for n, t in files.items():
            with open(os.path.join(d, n + ".yang"), "w", encoding="utf-8") as f:
                f.write(t)
        out = os.path.join(d, "bindings_out.py")
        err = os.path.join(d, "log.txt")
        args = ["--plugindir", os.path.join(boot.REPO, "pyangbind", "plugin"), "-f", "pybind", "-p", d]
        pkg = None
        if split:
            pkg = "pbtsplit_%d_%d" % (os.getpid(), next(_counter))
            args += ["--split-class-dir", os.path.join(d, pkg)]
        else:
            args += ["-o", out]
        args += list(flags)
        args += [os.path.join(d, n + ".yang") for n in build]
        rc = _run_pyang(args, out, err)
        log = open(err, encoding="utf-8", errors="replace").read()
        if rc != 0 or (not split and not os.path.exists(out)):
            rc2 = _run_pyang(["-p", d] + [os.path.join(d, n + ".yang") for n in build], None, err)
            if rc2 != 0:
                raise BadYang(open(err, errors="replace").read()[:3000] + "\n" + "\n".join(files.values())[:6000])
            raise CompileError("pyang plugin exit status %s: %s" % (rc, log[-2500:]))
        ns = types.SimpleNamespace()
        ns._log = log
        try:
            if split:
                sys.path.insert(0, d)
                try:
                    import importlib
                    importlib.invalidate_caches()
                    mod = importlib.import_module(pkg)
                    for k, v in vars(mod).items():
                        if not k.startswith("__"):
                            setattr(ns, k, v)
                    # operations and notifications have packages of their own
                    ns._subs = {}
                    for k in sorted(os.listdir(os.path.join(d, pkg))):
                        if k.endswith(("_rpc", "_notification")) and os.path.isdir(os.path.join(d, pkg, k)):
                            ns._subs[k] = importlib.import_module("%s.%s" % (pkg, k))
                finally:
                    sys.path.remove(d)
                    for k in [k for k in sys.modules if k == pkg or k.startswith(pkg + ".")]:
                        del sys.modules[k]
            else:
                text = open(out, encoding="utf-8").read()
                if keep_text:
                    ns._text = text
                m = types.ModuleType("pbt_bindings")
                exec(compile(text, "<bindings>", "exec"), m.__dict__)
                for k, v in m.__dict__.items():
                    if not k.startswith("__"):
                        setattr(ns, k, v)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            raise CompileError("generated bindings do not import: %s: %s" % (type(e).__name__, e))
        return ns
    finally:
        shutil.rmtree(d, ignore_errors=True)
