#!/usr/bin/env python3
"""Run the check of one property:  run.py <ID> [--tier quick|thorough]
                                   run.py <ID> --replay FILE
See DESIGN.md.  Exit status: 0 held, 1 violation, 2 error of the check."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NAIMA_VERIF_CHILD": "1",
}
PY = "/opt/venv/bin/python"

if os.environ.get("NAIMA_VERIF_CHILD") != "1":
    os.environ.update(ENV)
    py = PY if os.path.exists(PY) else sys.executable
    os.execv(py, [py, "-W", "ignore", os.path.join(HERE, "run.py")] + sys.argv[1:])

sys.path.insert(0, HERE)
from vlib import harness  # noqa: E402

sys.exit(harness.main(sys.argv[1:]))
