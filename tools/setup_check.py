"""setup_cmd: verify that the interpreter, hypothesis and naima are usable."""
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import bootstrap  # noqa: E402

tmp = tempfile.mkdtemp(prefix="naima-verif-setup-")
try:
    bootstrap.setup(tmp)
    import hypothesis

    import naima

    print("hypothesis", hypothesis.__version__, "naima", os.path.dirname(naima.__file__))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
