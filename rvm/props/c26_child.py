"""Fresh process of C26: the tables as seen after an unusual way of importing."""
import importlib
import pickle
import sys

how = sys.argv[2]
import numpy as np  # noqa: E402

if "raise" in how:
    np.seterr(all="raise")
for m in how.split(",")[0].split("+"):
    importlib.import_module(m)
import utide  # noqa: E402

c = utide.ut_constants
out = {
    "file": utide.__file__,
    "name": list(c["const"]["name"]),
    "freq": np.array(c["const"]["freq"]),
    "df": np.array(c["const"]["df"]),
    "index": dict(utide.constit_index_dict),
    "cph": dict(utide.cycles_per_hour),
    "hpc": dict(utide.hours_per_cycle),
    "err": np.geterr(),
}
with open(sys.argv[1], "wb") as f:
    pickle.dump(out, f)
