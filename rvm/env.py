"""Process set-up: one BLAS thread, no byte code in or from /repo, utide taken
from /repo's working tree.  Import this before numpy."""
import os
import sys

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("RVM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
# A prefix that does not exist: no stale .pyc of the repository can be used.
sys.pycache_prefix = os.path.join(VERIF, ".no-pycache")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)

import warnings  # noqa: E402

warnings.simplefilter("ignore")


def import_utide():
    import utide

    f = os.path.realpath(utide.__file__)
    want = os.path.realpath(os.path.join(REPO, "utide", "__init__.py"))
    if f != want:
        raise SystemExit(f"utide was imported from {f}, not {want}")
    return utide
