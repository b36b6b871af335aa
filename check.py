#!/usr/bin/env python3
"""Driver of the property checks.

  check.py C01                 run the check of property C01 (tier from VERIF_TIER)
  check.py C01 --replay F      re-run one saved case, without Hypothesis
  check.py C01 --scale X       multiply the case counts
  check.py --list

Exit status: 0 held on everything explored, 1 violated (VIOLATION line), 2 error of the check.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
VENV = "/opt/venv/bin/python"
if os.environ.get("VERIF_INNER") != "1":
    env = dict(os.environ, VERIF_INNER="1", PYTHONHASHSEED="0")
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from harness import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
