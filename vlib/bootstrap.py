"""Make hypothesis and the naima of the tree under test importable."""
import glob
import os
import subprocess
import sys
import types

PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
REPO = os.environ.get("VERIF_REPO", "/repo")  # the override is for mutation tests


def setup(scratch):
    hyp = os.path.join(scratch, "hyp")
    os.makedirs(hyp)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        found = False
        for pat in ("hypothesis", "_hypothesis*", "sortedcontainers"):
            for path in glob.glob(os.path.join(PYVENV, pat)):
                os.symlink(path, os.path.join(hyp, os.path.basename(path)))
                found = True
        if not found:
            subprocess.run(
                [sys.executable, "-m", "pip", "install", "-q", "--no-index",
                 "--find-links", WHEELS, "--target", hyp, "hypothesis"],
                check=True,
            )
        sys.path.insert(1, hyp)
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    if not os.path.exists(os.path.join(src, "naima", "version.py")):
        # written by the build, not tracked by git
        mod = types.ModuleType("naima.version")
        mod.version = mod.__version__ = "0.0.0"
        mod.version_tuple = mod.__version_tuple__ = (0, 0, 0)
        sys.modules["naima.version"] = mod
