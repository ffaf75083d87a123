#!/opt/venv/bin/python
"""python run.py C01 [--tier quick|thorough] [-v] [--only substring] | --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from symtt.engine import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
