"""Nothing to build: confirms that the interpreter, Hypothesis and the repository are usable."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import boot  # noqa: E402

boot.ensure()
from pbt import build  # noqa: E402

build._preload()
print("pyangbind, pyang and hypothesis are importable")
