#!/usr/bin/env python
"""Entry point: ``run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--facet NAME] [--replay FILE]``.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line),
2 error of the check itself.
"""
import os
import sys

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "NUMEXPR_MAX_THREADS": "1",
    "OPENBLAS_CORETYPE": "Haswell",
    "MPLBACKEND": "agg",
    "PYTHONPYCACHEPREFIX": "/nonexistent-verif-pycache",
    "VERIF_REEXEC": "1",
}
PYTHON = "/opt/venv/bin/python"

if os.environ.get("VERIF_REEXEC") != "1" or os.path.realpath(sys.executable) != os.path.realpath(PYTHON):
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__), *sys.argv[1:]], env)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from vlib import core  # noqa: E402

if __name__ == "__main__":
    try:
        sys.exit(core.main(sys.argv[1:], here=HERE, repo=REPO))
    except SystemExit:
        raise
    except BaseException:  # harness error
        import traceback
        traceback.print_exc()
        sys.exit(2)
