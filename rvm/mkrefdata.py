"""Write rvm/data/tables.json from the Matlab original of the constituent tables.

Run once, when the reference was pinned; the checks read only tables.json, so
that a change in /repo's data files cannot change the reference."""
import json
import sys

import numpy as np
from scipy.io import loadmat

m = loadmat(sys.argv[1], squeeze_me=True, struct_as_record=False)
c, s, h = m["const"], m["sat"], m["shallow"]


def lst(a):
    return [None if isinstance(x, float) and np.isnan(x) else x for x in np.asarray(a).ravel().tolist()]


out = {
    "name": [str(x).strip() for x in c.name],
    "freq": lst(c.freq),
    "df": lst(c.df),
    "semi": lst(c.semi),
    "doodson": [lst(r) for r in c.doodson],
    "ishallow": lst(c.ishallow.astype(float)),
    "nshallow": lst(c.nshallow.astype(float)),
    "sat": {k: (lst(getattr(s, k)) if k != "deldood" else [lst(r) for r in s.deldood])
            for k in ("iconst", "deldood", "phcorr", "amprat", "ilatfac")},
    "shallow": {k: lst(getattr(h, k)) for k in ("iconst", "iname", "coef")},
}
json.dump(out, open(sys.argv[2], "w"))
