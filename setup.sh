#!/bin/bash
# Nothing has to be built: the package is pure Python and is imported from
# /repo's working tree by every check.  This verifies that the pieces exist.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence replays
OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -B - <<'P'
import sys
sys.path.insert(0, ".")
from rvm import env
u = env.import_utide()
import numpy, scipy, pandas
from rvm import ref
print("utide from", u.__file__, "numpy", numpy.__version__, "scipy", scipy.__version__, "constituents", len(ref.NAMES))
P
