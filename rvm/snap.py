"""Deep snapshots of values and of process-wide state."""
import os
import random
import sys
import warnings

import numpy as np

try:
    import pandas as pd
except ImportError:  # pragma: no cover
    pd = None


def freeze(x, seen=()):
    """An immutable value equal for equal contents (bitwise)."""
    if id(x) in seen:
        return "<cycle>"
    seen = seen + (id(x),)
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", freeze(np.asarray(x.data), seen), freeze(np.array(np.ma.getmaskarray(x)), seen), x.mask is np.ma.nomask, repr(x.fill_value))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarr", x.shape, tuple(freeze(i, seen) for i in x.ravel()))
        return (type(x).__name__, x.dtype.str, x.shape, x.flags.writeable, x.tobytes())
    if pd is not None and isinstance(x, (pd.Series, pd.Index)):
        return (type(x).__name__, str(x.dtype), x.name, np.asarray(x).tobytes() if np.asarray(x).dtype != object else repr(list(x)))
    if isinstance(x, np.generic):
        return (type(x).__name__, x.tobytes())
    if isinstance(x, dict):
        return (type(x).__name__, tuple((freeze(k, seen), freeze(v, seen)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v, seen) for v in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted(map(repr, x))))
    if isinstance(x, float):
        return ("float", x.hex())
    if hasattr(x, "__dict__") and not callable(x):
        return (type(x).__name__, freeze(vars(x), seen))
    return (type(x).__name__, repr(x))


def diff(a, b, path=""):
    """where two snapshots differ (first place)"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            if p != q:
                lab = a[0] if isinstance(a[0], str) and i else ""
                return diff(p, q, f"{path}/{lab}{i}")
    return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"


def tables():
    """the package's public tables"""
    import utide
    from utide.harmonics import linearized_freqs  # noqa: F401
    import utide._ut_constants as m

    return {
        "ut_constants": freeze(utide.ut_constants),
        "constit_index_dict": freeze(utide.constit_index_dict),
        "cycles_per_hour": freeze(utide.cycles_per_hour),
        "hours_per_cycle": freeze(utide.hours_per_cycle),
        "constit_names": freeze(list(m.constit_names)),
    }


def process(rng=True):
    """process-wide state a library must leave alone"""
    d = {
        "np.geterr": freeze(np.geterr()),
        "np.geterrcall": repr(np.geterrcall()),
        "printoptions": repr(np.get_printoptions()),
        "warning filters": repr(warnings.filters),
        "environment": tuple(sorted(os.environ.items())),
        "cwd": os.getcwd(),
        "stdout": id(sys.stdout),
        "stderr": id(sys.stderr),
        "stdin": id(sys.stdin),
        "showwarning": id(warnings.showwarning),
        "sys.path": tuple(sys.path),
        "recursionlimit": sys.getrecursionlimit(),
        "python random": repr(random.getstate()),
        "open files": len(os.listdir("/proc/self/fd")),
        "excepthook": id(sys.excepthook),
        "trace": repr(sys.gettrace()),
    }
    if rng:
        s = np.random.get_state()
        d["numpy random state"] = (s[0], s[1].tobytes(), *s[2:])
    return d


def scribble(x, rng, skip=(), depth=0, done=None):
    """Modify every array and container reachable from a returned value in place.
    Returns the number of objects modified."""
    done = set() if done is None else done
    if id(x) in done or depth > 8:
        return 0
    done.add(id(x))
    n = 0
    if isinstance(x, np.ndarray):
        if not x.flags.writeable or x.size == 0:
            return 0
        if x.dtype.kind in "fc":
            x[...] = np.nan if rng.random() < 0.5 else -12345.0
        elif x.dtype.kind in "iu":
            x[...] = 7
        elif x.dtype.kind == "b":
            x[...] = ~x
        elif x.dtype.kind == "O":
            x[...] = "junk"
        elif x.dtype.kind == "U":
            x[...] = "x"
        return 1
    if isinstance(x, dict):
        for k, v in list(x.items()):
            if k in skip:
                continue
            if isinstance(v, (dict, list, np.ndarray)):
                n += scribble(v, rng, skip, depth + 1, done)
            elif isinstance(v, (bool, int, float, str)) or v is None:
                x[k] = "junk"
                n += 1
        if rng.random() < 0.3:
            x["_added"] = 1
        return n
    if isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list, np.ndarray)):
                n += scribble(v, rng, skip, depth + 1, done)
        x.append("junk")
        return n + 1
    return 0
