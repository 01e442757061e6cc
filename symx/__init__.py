"""Symbolic execution of the real foxes code on numpy object arrays, decided by z3."""
import os
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def import_z3():
    try:
        import z3  # noqa: F401
    except ImportError:
        sys.path.append(_VT)
        import z3  # noqa: F401
        # only z3 shall come from the tooling environment
        sys.path.remove(_VT)
    return sys.modules["z3"]


z3 = import_z3()
