"""Deductive verification of DiscSolver: contracts on the real functions.

See DESIGN.md.  The solver libraries live in the tooling venv; they are
appended to the *end* of sys.path so that numpy, attrs, h5py... stay those of
the interpreter DiscSolver itself is installed in.
"""
import sys as _sys

_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _TOOLS not in _sys.path:
    _sys.path.append(_TOOLS)
_sys.setrecursionlimit(20000)
