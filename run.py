#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import boot  # noqa: E402

if __name__ == "__main__":
    boot.ensure()
    from pbt import engine
    sys.exit(engine.main(sys.argv[1], sys.argv[2:]))
