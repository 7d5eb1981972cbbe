"""C28 containers, dtypes, memory layouts and explicit defaults."""
import numpy as np

from rvm import ref, snap, work
from rvm.props.c18 import values

try:
    import pandas as pd
except ImportError:  # pragma: no cover
    pd = None

CASES = {"quick": 1200, "thorough": 14000}
TECHNIQUE = "metamorphic monitor: the same values in another container, dtype or memory layout, sequences of names in other types, and defaults given explicitly, must give the recorded result of the plain call"
RULE = "Random analyses and predictions whose times, data, latitude, names and inferences are passed as lists, tuples, strided, reversed, transposed, read-only, byte-swapped and unaligned arrays, subclasses, masked arrays without masked entries, pandas objects with unrelated indexes, integer, half, single and extended precision; default options given in random subsets; options as numpy scalars."
REQUIRED = ("layout: amplitudes", "layout: mean", "layout: prediction", "layout: A_ci", "dtype: amplitudes", "dtype: prediction", "names: amplitudes", "names: order", "names: selection", "names: one string", "explicit defaults: solution", "explicit defaults: prediction", "latitude type")


class Sub(np.ndarray):
    pass


def layouts(rng, x, dtype=None):
    """(label, same values in another form)"""
    n = len(x)
    k = int(rng.integers(17))
    if k == 0:
        return "list", [float(q) for q in x]
    if k == 1:
        return "tuple", tuple(x)
    if k == 2:
        b = np.full(3 * n + 5, np.nan)
        b[2 : 2 + 3 * n : 3] = x
        return "strided", b[2 : 2 + 3 * n : 3]
    if k == 3:
        return "reversed", x[::-1].copy()[::-1]
    if k == 4:
        b = np.zeros((n, 4), order="F" if rng.random() < 0.5 else "C")
        b[:, 2] = x
        return "column", b[:, 2]
    if k == 5:
        y = x.copy()
        y.flags.writeable = False
        return "read-only", y
    if k == 6:
        return "byte-swapped", x.astype(x.dtype.newbyteorder())
    if k == 7:
        b = bytearray(8 * n + 3)
        y = np.frombuffer(b, dtype=float, offset=3, count=n)
        y[...] = x
        return "unaligned", y
    if k == 8:
        return "subclass", x.copy().view(Sub)
    if k == 9:
        return "masked nothing", np.ma.array(x, mask=work.pick(rng, [False, np.zeros(n, bool), np.ma.nomask]))
    if k == 10:
        b = np.ma.array(np.repeat(x, 2), mask=np.tile([False, True], n))
        return "masked view", b[::2]
    if k == 11:
        return "longdouble", x.astype(np.longdouble)
    if k == 12:
        return "list of numpy scalars", list(x)
    if pd is not None and k <= 15:
        ix = rng.permutation(n)
        return work.pick(rng, [("Series", pd.Series(x, index=ix)), ("Index", pd.Index(x)), ("Series slice", pd.Series(np.r_[0.0, x, 0.0])[1:-1]), ("frame column", pd.DataFrame({"a": x, "b": ix})["a"])])
    return "broadcast copy", np.array(np.broadcast_to(x, (2, n)))[1]


def scalars(rng, o):
    """the same options as scalars of other types"""
    o = dict(o)
    for k, v in o.items():
        if rng.random() < 0.5:
            continue
        if isinstance(v, bool):
            o[k] = work.pick(rng, [np.bool_, np.bool_, int])(v)
        elif isinstance(v, str) and k != "epoch":
            o[k] = np.str_(v)
        elif isinstance(v, dict):
            o[k] = scalars(rng, v)
        elif isinstance(v, (int, float)):
            o[k] = np.float64(v)
    return o


def compare(ctx, c, d, S, what, ci=True):
    work.same_solution(ctx, c, d, what, S, tol=1e-11, citol=1e-7, ci=ci, order=False)
    ctx.check(np.asarray(d["weights"]).shape == np.asarray(c["weights"]).shape, what + ": weights")


def predictions(ctx, a, b, S, what):
    ya, yb = work.series(a), work.series(b)
    for y, z in zip(ya, yb):
        ctx.check(type(z) is np.ndarray and z.dtype == float, what + " type", f"{type(z)} {z.dtype}")
        ctx.close(z, y, 1e-10 * S, what)


def run_case(ctx):
    k = ctx.idx % 5
    (layout, layout, dtype, names, defaults)[k](ctx)


def setup(ctx, **kw):
    rng = ctx.rng
    p = work.Problem(rng, nmax=300, maxcond=60, **kw)
    p.tell(ctx)
    o = dict(p.opts, conf_int=work.pick(rng, ["linear", "linear", "none"]), white=bool(rng.random() < 0.5))
    if rng.random() < 0.2:
        o["method"] = "robust"
    return p, o


def layout(ctx):
    rng = ctx.rng
    p, o = setup(ctx)
    S = p.magnitude()
    miss = None
    x = [q.copy() for q in p.x]
    t = p.t
    if rng.random() < 0.3:
        miss = rng.random(len(t)) < 0.1
        miss[[0, 1, -2, -1]] = False
        x[0][miss] = np.nan
        ctx.note("missing values")
    a = ctx.solve(t, x[0], x[1] if p.dim == 2 else None, p.lat, **o)
    for _ in range(3):
        lt, tt = layouts(rng, t) if rng.random() < 0.7 else ("array", t)
        lu, uu = layouts(rng, x[0])
        lv, vv = layouts(rng, x[1]) if p.dim == 2 else ("", None)
        lat = p.lat
        ll = work.pick(rng, ["float", "numpy float", "array", "float32", "int"])
        if ll == "numpy float":
            lat = np.float64(lat)
        elif ll == "array":
            lat = np.array(lat)
        elif ll == "float32" and float(np.float32(lat)) == lat:
            lat = np.float32(lat)
        elif ll == "int" and float(lat) == int(lat):
            lat = int(lat)
        else:
            ll = "float"
        ctx.note("t " + lt, "u " + lu, "v " + lv, "lat " + ll)
        ctx.describe(t=lt, u=lu, v=lv, lat_type=ll)
        held = snap.freeze([tt, uu, vv])
        b = ctx.solve(tt, uu, vv, lat, **scalars(rng, o))
        ctx.check(snap.freeze([tt, uu, vv]) == held, "layout: arguments unchanged", (lt, lu, lv))
        compare(ctx, a, b, S, "layout")
        ctx.check(True, "latitude type")
    tp = t[0] + rng.uniform(-50, 50, int(rng.integers(1, 40)))
    r = ctx.reconstruct(tp, a, epoch="python", min_SNR=0)
    for _ in range(3):
        lt, tt = layouts(rng, tp)
        ctx.note("prediction t " + lt)
        q = ctx.reconstruct(tt, b, epoch="python", min_SNR=work.pick(rng, [0, 0.0, np.float32(0), np.int64(0), np.array(0.0)]))
        predictions(ctx, r, q, S, "layout: prediction")
    # a single time
    for one in (float(tp[0]), np.float64(tp[0]), np.array(tp[0]), [tp[0]], np.ma.array(tp[:1])):
        q = ctx.reconstruct(one, a, epoch="python", min_SNR=0)
        for y, z in zip(work.series(r), work.series(q)):
            ctx.close(z, y[:1], 1e-10 * S, "layout: prediction")


def dtype(ctx):
    """values representable in many types: whole numbers"""
    rng = ctx.rng
    p, o = setup(ctx, dt=float(work.pick(rng, [1.0, 1.0, 2.0, 0.25])), kind=work.pick(rng, ["regular", "dropout", "segments"]), span=float(rng.uniform(150, 500)), scale=10.0, start=float(int(rng.integers(711858, 741000))), pool=[n for n in ["MM", "MF", "MSF", "SSA", "MSM"] if n in ref.INDEX] + work.MAIN)
    start = work.pick(rng, [p.t[0], 0.0])
    epoch = "python" if start else work.pick(rng, ["2001-01-01", "1969-12-31", "matlab"])
    if epoch == "matlab":
        start = p.t[0]
    t = p.t - p.t[0] + start
    o["epoch"] = epoch
    low = rng.random() < 0.5
    x = [np.round(np.clip(q * (1 if low else 100), -120 if low else -2000, 120 if low else 2000)) for q in p.x]
    if rng.random() < 0.3:
        x = [q - q.min() for q in x]
        ctx.note("non-negative data")
    S = float(max(np.abs(q).max() for q in x))
    a = ctx.solve(t, x[0], x[1] if p.dim == 2 else None, p.lat, **o)
    tp = t[0] + np.arange(20.0) * work.pick(rng, [1, 7, 30])
    r = ctx.reconstruct(tp, a, epoch=epoch, min_SNR=0)

    def convert(q, time=False):
        ok = []
        types = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "g", ">i2", ">i4", ">f4", ">f8", ">u4", "?"] + ([] if time else ["O"])
        for d in types:
            with np.errstate(all="ignore"):
                y = q.astype(d)
                if (y.astype(float) == q).all() and (d != "u1" or (q >= 0).all()):
                    ok.append(d)
        d = work.pick(rng, ok)
        ctx.note(("t " if time else "data ") + d)
        y = q.astype(d)
        if rng.random() < 0.2:
            y = y.tolist()
        elif rng.random() < 0.2 and d != "O":
            y = np.ma.array(y)
        return y

    for _ in range(3):
        b = ctx.solve(convert(t, True), convert(x[0]), convert(x[1]) if p.dim == 2 else None, p.lat, **o)
        compare(ctx, a, b, S, "dtype")
        q = ctx.reconstruct(convert(tp, True), b, epoch=epoch, min_SNR=0)
        predictions(ctx, r, q, S, "dtype: prediction")


def names(ctx):
    rng = ctx.rng
    p, o = setup(ctx, ncon=8)
    S = p.magnitude()
    order = [str(q) for q in rng.permutation(p.names)]
    inf = work.add_inference(rng, p) if rng.random() < 0.4 else None
    if inf is not None:
        Ep, Em, _ = work.infer_design(p, inf)
        if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) > 100:
            inf = None
    if inf is not None:
        order = [str(q) for q in rng.permutation(p.names + inf.inferred)]
        # ratios and offsets that several types can hold
        inf.ratios, inf.offsets = np.float64(np.float32(inf.ratios)), np.round(inf.offsets)
        o["infer"] = inf.spec()
    o["order_constit"] = order
    a = ctx.solve(*p.args, **o)

    def series(seq, **kw):
        """as after sorting or filtering a table"""
        return pd.Series(seq, index=rng.permutation(len(seq)) + int(rng.integers(2)), **kw)

    def numbers(seq):
        x = np.array(seq)
        out = [seq, tuple(seq), x, x.astype(np.float32), x.astype(np.longdouble), x.astype(object), [np.float32(q) for q in x]]
        if (x == x.round()).all():
            out += [x.astype(int), x.astype(np.int16), [int(q) for q in x]]
        if pd is not None:
            out += [series(x), series(x.astype(np.float32))]
        return out[int(rng.integers(len(out)))]

    def forms(seq):
        seq = list(seq)
        out = [
            ("list", seq),
            ("tuple", tuple(seq)),
            ("str array", np.array(seq)),
            ("object array", np.array(seq, dtype=object)),
            ("wide array", np.array(seq, dtype="U20")),
            ("numpy str", [np.str_(q) for q in seq]),
            ("strided array", np.repeat(np.array(seq, dtype=object), 2)[::2]),
        ]
        if pd is not None:
            out += [("Index", pd.Index(seq)), ("Series", series(seq)), ("string Series", series(seq, dtype="string"))]
        return work.pick(rng, out)

    for _ in range(3):
        l1, c1 = forms(p.names)
        l2, c2 = forms(order)
        o2 = dict(o, constit=c1, order_constit=c2)
        if inf is not None:
            lists = work.pick(rng, [list, tuple, np.array])
            o2["infer"] = inf.spec(container=work.pick(rng, [dict, ctx.utide.utilities.Bunch]), lists=lists)
            if rng.random() < 0.6:
                for key, f in (("inferred_names", forms), ("reference_names", forms), ("amp_ratios", numbers), ("phase_offsets", numbers)):
                    if rng.random() < 0.7:
                        v = f(list(inf.spec()[key]))
                        o2["infer"][key] = v[1] if f is forms else v
                ctx.note("inference of other types")
        ctx.note("constit " + l1, "order " + l2)
        b = ctx.solve(*p.args, **o2)
        compare(ctx, a, b, S, "names")
        ctx.check(list(b["name"]) == list(a["name"]) == order, "names: order", f"{list(b['name'])} {order}")
        ctx.check(all(isinstance(q, str) for q in b["name"]), "names: type")
    some = [str(q) for q in rng.choice(order, int(rng.integers(1, len(order) + 1)), replace=False)]
    r = ctx.reconstruct(p.t, a, epoch="python", constit=some)
    for _ in range(3):
        lb, s = forms(some)
        ctx.note("selection " + lb)
        q = ctx.reconstruct(p.t, a, epoch="python", constit=s)
        predictions(ctx, r, q, S, "names: selection")
    one = work.pick(rng, order)
    r = ctx.reconstruct(p.t, a, epoch="python", constit=[one])
    q = ctx.reconstruct(p.t, a, epoch="python", constit=work.pick(rng, [one, np.str_(one)]))
    predictions(ctx, r, q, S, "names: one string")


DEFAULTS = dict(conf_int="linear", method="ols", trend=True, phase="Greenwich", nodal=True, infer=None, order_constit="PE", MC_n=200, Rayleigh_min=1, white=False, epoch=None)


def defaults(ctx):
    rng = ctx.rng
    p = work.Problem(rng, nmax=400, phase="Greenwich", nodal=True, trend=True, kind=work.pick(rng, ["regular", "segments", "dropout"]), dt=1 / 24)
    p.tell(ctx)
    t = np.round((p.t - 719163) * 86400e3).astype("datetime64[ms]")
    base = {}
    if rng.random() < 0.7:
        base["constit"] = p.names
    robust = rng.random() < 0.3 and "constit" in base
    if "constit" not in base and len(t) < 200:
        base["constit"] = p.names
    if robust:
        base["method"] = "robust"
    over = {}
    for k in ("conf_int", "trend", "phase", "nodal", "white"):
        if rng.random() < 0.15:
            over[k] = {"conf_int": "none", "trend": False, "phase": "raw", "nodal": False, "white": True}[k]
    base.update(over)
    args = (t, p.x[0]) + ((p.x[1],) if p.dim == 2 else (None,)) + (p.lat,)
    a = ctx.solve(*args, **base)
    fa = snap.freeze(values(a))
    for _ in range(3):
        more = {k: v for k, v in DEFAULTS.items() if k not in base and rng.random() < 0.5}
        if "constit" not in base and rng.random() < 0.5:
            more["constit"] = "auto"
        if robust and rng.random() < 0.7:
            more["robust_kw"] = {"weight_function": "cauchy"}
        elif not robust and rng.random() < 0.3:
            more["robust_kw"] = {"weight_function": "cauchy"}
        if rng.random() < 0.2:
            more["order_constit"] = None
        if rng.random() < 0.5:
            more = scalars(rng, more)
        if rng.random() < 0.3 and "Rayleigh_min" in more:
            more["Rayleigh_min"] = work.pick(rng, [1.0, np.float64(1), np.int32(1)])
        kw = {**base, **more}
        kw = dict(sorted(kw.items(), key=lambda q: rng.random()))
        ctx.note(*("explicit " + k for k in more))
        b = ctx.solve(*args, **kw)
        fb = snap.freeze(values(b))
        ctx.check(fa == fb, "explicit defaults: solution", f"{more}: {snap.diff(fa, fb)}")
        # keyword arguments instead of positional ones
        if rng.random() < 0.5:
            k2 = dict(t=args[0], u=args[1], lat=args[3], **kw)
            if p.dim == 2:
                k2["v"] = args[2]
            b = ctx.solve(**k2)
            ctx.check(snap.freeze(values(b)) == fa, "explicit defaults: solution", "keywords")
    r = ctx.reconstruct(t, a)
    for _ in range(3):
        kw = {k: v for k, v in dict(epoch=None, constit=None, min_SNR=2, min_PE=0).items() if rng.random() < 0.5}
        q = ctx.reconstruct(t, a, **kw) if rng.random() < 0.5 else ctx.reconstruct(t=t, coef=a, **kw)
        for y, z in zip(work.series(r), work.series(q)):
            ctx.same(z, y, "explicit defaults: prediction")
