"""Fresh process of C30: the recorded calls in another environment."""
import os
import pickle
import sys

sys.path.insert(0, sys.argv[3])
os.environ.setdefault("OMP_NUM_THREADS", "1")
from rvm import env  # noqa: E402

u = env.import_utide()
from rvm.props.c30 import perform  # noqa: E402
import pandas  # noqa: E402, F401

with open(sys.argv[1], "rb") as f:
    jobs = pickle.load(f)
if os.environ.get("RVM30_WARN"):
    import warnings

    warnings.simplefilter("error")
res = perform(u.solve, u.reconstruct, jobs)
with open(sys.argv[2], "wb") as f:
    pickle.dump(res, f)
