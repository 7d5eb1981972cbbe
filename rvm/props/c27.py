"""C27 loading data files."""
import os
import tempfile

import numpy as np
from scipy import sparse
from scipy.io import loadmat, savemat

from rvm import snap, work

CASES = {"quick": 1600, "thorough": 20000}
TECHNIQUE = "round-trip monitor: random nested data written by scipy.io.savemat and numpy.savez are loaded through the package and compared with what was written, leaf by leaf"
RULE = "Random nested structures to depth 4 (scalars, strings, real, complex and integer arrays of 0-5 dimensions with singleton dimensions and NaNs, cell arrays, character arrays, arrays of structures, sparse matrices) in Matlab 4/5 files, compressed or not, and in npz files (plain arrays, and structures as converted from Matlab), masked or not; unsupported names."
REQUIRED = ("variables", "structure", "scalar", "string", "array", "NaN masked", "NaN kept", "cell", "array of structures", "sparse", "unsupported", "mat", "npz", "npz structures", "unicode converted", "listing", "file unchanged")
ASSUMPTIONS = ["infinite values, empty strings, masking of complex arrays and of single values are not claimed"]


def leaf(rng, depth=0, sparse_too=False):
    k = int(rng.integers(12))
    if depth == 0 and rng.random() < 0.12:
        q = rng.random()
        if q < 0.2 and sparse_too:
            return sparse.csc_matrix(np.round(rng.normal(size=tuple(rng.integers(1, 6, 2))), 1) * (rng.random() < 0.9))
        return records(rng) if q < 0.6 else rng.random(int(rng.integers(2, 6))) < 0.5
    if k <= 1:
        return float(np.round(rng.normal() * 10.0 ** rng.integers(-5, 6), 9)) if k else int(rng.integers(-5000, 5000))
    if k <= 3:
        return "".join(rng.choice(list("abcXYZ019_-. é"[:13]), int(rng.integers(1, 30)))).strip() or "s"
    shape = tuple(int(q) for q in rng.integers(1, 6, int(work.pick(rng, [1, 1, 2, 2, 2, 3, 3, 4, 5]))))
    if rng.random() < 0.5:
        shape = tuple(1 if rng.random() < 0.3 else q for q in shape)
    if rng.random() < 0.05:
        shape = shape[:-1] + (0,)
    if k <= 7:
        a = rng.normal(size=shape) * 10.0 ** rng.integers(-200, 200)
        a[rng.random(shape) < rng.choice([0, 0.1, 0.5, 1.0])] = np.nan
        if k == 4:
            a = np.where(np.isnan(a), np.nan, rng.normal(size=shape)).astype(np.float32)
        return a
    if k == 8:
        return rng.integers(-100, 100, shape).astype(rng.choice(["int8", "int16", "int32", "int64", "float64"]))
    if k == 9:
        return rng.normal(size=shape) + 1j * rng.normal(size=shape)
    if k == 10:
        n = int(rng.integers(2, 6))
        c = np.empty(n, dtype=object)
        for i in range(n):
            c[i] = ["M2", "K1  x", "long name", "q"][int(rng.integers(4))] if rng.random() < 0.6 else rng.normal(size=int(rng.integers(2, 4)))
        return c
    return np.array(["".join(rng.choice(list("KMNO12"), int(rng.integers(1, 5)))) for _ in range(int(rng.integers(2, 7)))])


def records(rng):
    """an array of structures"""
    n = int(rng.integers(2, 5))
    a = np.zeros(n, dtype=[(q, "O") for q in "pqr"[: int(rng.integers(1, 4))]])
    for i in range(n):
        for q in a.dtype.names:
            a[i][q] = work.pick(rng, ["word", 1.5, rng.normal(size=3), rng.normal(size=(2, 3))])
    return a


def tree(rng, depth=0, sparse_too=False):
    d = {}
    for i in range(int(rng.integers(1, 6))):
        name = "".join(rng.choice(list("abcdefgh"), int(rng.integers(1, 6)))) + str(i)
        d[name] = tree(rng, depth + 1, sparse_too) if depth < 3 and rng.random() < 0.3 else leaf(rng, sparse_too=sparse_too)
    return d


def unwrap(x):
    while isinstance(x, np.ndarray) and x.size == 1:
        x = x.item() if not isinstance(x, np.ma.MaskedArray) else x.data.item()
    return x


def run_case(ctx):
    k = ctx.idx % 8
    if k == 6:
        return unsupported(ctx)
    if k == 7:
        return unicode(ctx)
    rng = ctx.rng
    from utide.utilities import loadbunch

    data = tree(rng, sparse_too=k <= 2)
    masked = [True, False, None][int(rng.integers(3))]
    with tempfile.TemporaryDirectory(prefix="rvm27-") as d:
        stem = work_name(rng)
        if k <= 2:
            f = os.path.join(d, stem + ".mat")
            savemat(f, data, do_compression=bool(rng.random() < 0.5), oned_as=str(rng.choice(["row", "column"])), long_field_names=True)
            kind = "mat"
        elif k <= 4:
            f = os.path.join(d, stem + ".npz")
            g = os.path.join(d, "tmp")
            savemat(g, data, appendmat=False)
            x = {q: v for q, v in loadmat(g, appendmat=False).items() if rng.random() < 1.1}
            if rng.random() < 0.5:
                x = {q: v for q, v in x.items() if not q.startswith("__")}
            (np.savez if rng.random() < 0.5 else np.savez_compressed)(f, **x)
            kind = "npz structures"
        else:
            data = {q: v for q, v in data.items() if not isinstance(v, dict)} or {"a": 1.0}
            if rng.random() < 0.4:  # names Matlab does not know
                data = {work.pick(rng, ["_", "_x", "é", "a b", "9", "T-"]) + q if rng.random() < 0.5 else q: v for q, v in data.items()}
            f = os.path.join(d, stem + ".npz")
            np.savez(f, **data)
            kind = "npz"
        ctx.note(kind, f"masked={masked}")
        ctx.describe(kind=kind, variables=str(list(data)), masked=masked)
        ctx.event("loadbunch", data=(kind, masked, str(snap.freeze(data))))
        raw = open(f, "rb").read()
        b = loadbunch(f) if masked is None else loadbunch(f, masked=masked)
        ctx.check(open(f, "rb").read() == raw, "file unchanged")
        ctx.check(True, kind)
        compare(ctx, data, b, masked is not False, "")
        if kind == "npz" or ctx.fail:
            return
        from utide.utilities import showmatbunch

        s = showmatbunch(b)
        lines = [ln.split(" : ")[0].strip() for ln in s.splitlines() if " : " in ln]
        want = sorted(leaves(data))
        ctx.check(set(want) <= set(lines), "listing", f"{sorted(set(want) - set(lines))[:5]}")
        ctx.check(showmatbunch(f) == s or masked is False, "listing", "by file name")


def leaves(d, pre=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, pre + k + ".")
        else:
            yield pre + k


def work_name(rng):
    return str(rng.choice(["data", "a.b", "x y", "data.mat", "data.npz", "UPPER", "données"]))


def compare(ctx, want, got, masked, path):
    from utide.utilities import Bunch

    if path:
        ctx.check(isinstance(got, Bunch), "structure", f"{path}: {type(got)}")
    if not isinstance(got, dict):
        return
    if not ctx.check(sorted(got) == sorted(want), "variables" if not path else "structure", f"{path}: {sorted(got)} {sorted(want)}"):
        return
    for k, w in want.items():
        g = got[k]
        q = f"{path}.{k}"
        if isinstance(w, dict):
            compare(ctx, w, g, masked, q)
        elif sparse.issparse(w):
            g = g.toarray() if sparse.issparse(g) else np.asarray(g)
            ctx.check(g.size == w.shape[0] * w.shape[1] and np.array_equal(np.ravel(g), w.toarray().ravel()), "sparse", f"{q}: {g!r} {w.toarray()!r}")
        elif isinstance(w, str):
            ctx.check(isinstance(g, str) and g == w, "string", f"{q}: {g!r} {w!r}")
        elif isinstance(w, (int, float)):
            ctx.check(not isinstance(g, np.ndarray) and g == w, "scalar", f"{q}: {g!r} {w!r}")
        elif w.dtype == object:
            cell(ctx, q, w, g)
        elif w.dtype.names:
            g = list(np.ravel(g)) if isinstance(g, np.ndarray) else [g]
            if not ctx.check(len(g) == len(w), "array of structures", f"{q}: {len(g)} of {len(w)}"):
                continue
            for x, y in zip(w, g):
                for m in w.dtype.names:
                    ctx.check(np.array_equal(np.squeeze(unwrap(y[m])), np.squeeze(x[m])), "array of structures", f"{q}: {y[m]!r} {x[m]!r}")
        elif w.dtype.kind == "U":
            ctx.check([str(s).rstrip() for s in np.ravel(g)] == w.tolist(), "string", f"{q}: {g!r} {w!r}")
        elif w.size == 1:
            z = w.ravel()[0]
            ctx.check(not isinstance(g, np.ndarray) and (g == z or (np.isnan(g) and np.isnan(z))), "scalar", f"{q}: {g!r} {z!r}")
        else:
            array(ctx, q, w, g, masked)


def array(ctx, q, w, g, masked):
    w2 = np.squeeze(w)
    if not ctx.check(isinstance(g, np.ndarray) and g.shape == w2.shape or (w.size == 0 and np.size(g) == 0), "array", f"{q}: shape {np.shape(g)} {w2.shape}"):
        return
    if w.size == 0:
        return
    nan = np.isnan(w2) if w2.dtype.kind in "fc" else np.zeros(w2.shape, dtype=bool)
    real = w.dtype.kind == "f"
    if masked and real:
        m = np.ma.getmaskarray(g)
        ctx.check((m == nan).all(), "NaN masked", q)
        ctx.same(np.ma.getdata(g)[~nan], w2[~nan].astype(g.dtype), "array")
        ctx.check(g.dtype == w.dtype, "array", f"{q}: {g.dtype}")
    else:
        ctx.check(not np.ma.isMaskedArray(g), "NaN kept", q)
        ctx.check(np.array_equal(np.asarray(g), w2, equal_nan=real), "array", f"{q}: {g!r} {w2!r}")
        ctx.check(g.dtype.kind == w.dtype.kind or w.dtype.kind in "iub", "array", f"{q}: {g.dtype}")


def cell(ctx, q, w, g):
    g = np.ravel(g)
    if not ctx.check(len(g) == len(w), "cell", f"{q}: {len(g)} {len(w)}"):
        return
    for a, b in zip(w, g):
        if isinstance(a, str):
            ctx.check(unwrap(b) == a, "cell", f"{q}: {b!r} {a!r}")
        else:
            ctx.check(np.array_equal(np.ravel(b), a, equal_nan=True), "cell", f"{q}: {b!r} {a!r}")


def unsupported(ctx):
    from utide.utilities import loadbunch

    rng = ctx.rng
    name = str(rng.choice(["data.txt", "data.MAT", "data.npy", "data", "data.mat.csv", "mat", "npz", "data.npz.gz", "data.nc"]))
    ctx.event("loadbunch", data=(name, ctx.idx))
    with tempfile.TemporaryDirectory(prefix="rvm27-") as d:
        f = os.path.join(d, name)
        if rng.random() < 0.7:
            if rng.random() < 0.5:
                with open(f, "wb") as h:
                    savemat(h, {"a": 1.0})
            else:
                open(f, "w").write("1 2 3\n")
        before = sorted(os.listdir(d))
        ctx.raises(ValueError, "unsupported", lambda: loadbunch(f, masked=bool(rng.random() < 0.5)))
        ctx.check(sorted(os.listdir(d)) == before, "file unchanged")
        ctx.raises(OSError, "absent file", lambda: loadbunch(os.path.join(d, "absent.mat")))
    ctx.describe(kind="unsupported", name=name)


def unicode(ctx):
    """convert_unicode_arrays: strings in arrays become Python strings"""
    from utide.utilities import Bunch, convert_unicode_arrays

    rng = ctx.rng

    def make(depth=0):
        d, w = {}, {}
        for i in range(int(rng.integers(1, 6))):
            k = f"k{i}"
            q = int(rng.integers(6))
            words = ["".join(rng.choice(list("abM2 "), int(rng.integers(1, 6)))).strip() + "a" for _ in range(int(rng.integers(1, 5)))]
            if q == 0:
                d[k] = np.array([s + " " * int(rng.integers(3)) for s in words])
                w[k] = words
            elif q == 1:
                a = np.empty(len(words), dtype=object)
                for j, s in enumerate(words):
                    a[j] = np.array([s])
                d[k], w[k] = a, words
            elif q == 2 and depth < 3:
                d[k], w[k] = make(depth + 1)
                if rng.random() < 0.5:
                    d[k] = Bunch(d[k])
            elif q == 3:
                d[k] = w[k] = rng.normal(size=3)
            elif q == 4:
                d[k] = w[k] = "plain"
            else:
                d[k] = w[k] = int(rng.integers(9))
        return d, w

    d, w = make()
    ctx.event("convert_unicode_arrays", data=str(w))
    ctx.describe(kind="unicode", keys=str(list(d)))
    held = snap.freeze(d)
    got = convert_unicode_arrays(d)

    def cmp(g, w, path=""):
        if not ctx.check(isinstance(g, Bunch) and sorted(g) == sorted(w), "unicode converted", path):
            return
        for k, v in w.items():
            if isinstance(v, dict):
                cmp(g[k], v, path + "." + k)
            elif isinstance(v, list):
                r = [g[k]] if isinstance(g[k], str) else list(g[k])
                ctx.check(r == v and all(type(s) is str for s in r), "unicode converted", f"{path}.{k}: {g[k]!r} {v!r}")
            elif isinstance(v, np.ndarray):
                ctx.same(g[k], v, "unicode converted")
            else:
                ctx.check(g[k] == v and type(g[k]) is type(v), "unicode converted", f"{path}.{k}")

    cmp(got, w)
    ctx.check(snap.freeze(d) == held, "file unchanged", "argument modified")
