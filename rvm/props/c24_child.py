"""Fresh process of C24: predictions of pickled solutions, nothing else known."""
import pickle
import sys

from rvm import env

env.import_utide()
import utide  # noqa: E402

with open(sys.argv[1], "rb") as f:
    jobs = pickle.load(f)
res = []
for blob, calls in jobs:
    c = pickle.loads(blob)
    res.append([{k: v for k, v in utide.reconstruct(t, c, verbose=False, **kw).items() if k in ("h", "u", "v")} for t, kw in calls])
with open(sys.argv[2], "wb") as f:
    pickle.dump(res, f)
