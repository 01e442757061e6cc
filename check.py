#!/opt/venv/bin/python
"""
check.py <PROPERTY> <quick|thorough>   decide a property on /repo's current tree
check.py replay <file>                 run a reported counterexample on the real code
check.py list                          list the cases
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FOXES_REPO", "/repo")
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True


def main(argv):
    from symx import runner

    if argv[:1] == ["replay"]:
        return runner.replay(argv[1])
    if argv[:1] == ["list"]:
        return runner.listing(argv[1:])
    return runner.run(argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"), argv[2:])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
