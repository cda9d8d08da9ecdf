"""Process set-up: interpreter, environment, import paths.  Imported first."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def ensure():
    """Re-exec with a pinned environment, then make pyangbind and hypothesis importable."""
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8"}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        exe = PYTHON if os.path.exists(PYTHON) else sys.executable
        os.execv(exe, [exe] + sys.argv)
    sys.dont_write_bytecode = True
    # the code under test always comes from the repository's working tree
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if os.path.isdir(HYP_SITE):
            sys.path.append(HYP_SITE)
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            import glob
            for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
                sys.path.extend(sorted(glob.glob("/opt/veriftools/wheels/" + pat)))
            import hypothesis  # noqa: F401
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)
    import pyangbind
    got = os.path.realpath(os.path.dirname(pyangbind.__file__))
    if got != os.path.realpath(os.path.join(REPO, "pyangbind")):
        raise SystemExit("harness error: pyangbind imported from %s" % got)
