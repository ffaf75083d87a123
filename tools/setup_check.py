"""Offline setup: nothing to build, only check that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symtt import core  # noqa: E402,F401
import Cython, numpy, scipy, z3  # noqa: E402,F401
s = z3.Solver(); x = z3.Real("x"); s.add(x * x < 0)
assert s.check() == z3.unsat
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ok", z3.get_version_string(), numpy.__version__, scipy.__version__, Cython.__version__)
