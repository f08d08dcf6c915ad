"""Process set-up shared by every entry point: threads, byte-code, import path of the code under test."""
import os, sys, warnings

sys.dont_write_bytecode = True
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("RV_REPO", "/repo")       # RV_REPO is only for development against scratch copies
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
np.seterr(all="ignore")


def check_import():
    import PyNite
    p = os.path.realpath(os.path.dirname(PyNite.__file__))
    want = os.path.realpath(os.path.join(REPO, "PyNite"))
    if p != want:
        raise SystemExit(f"harness error: PyNite imported from {p}, expected {want}")
    return p
