"""C21 valid analyses yield finite, sensible results."""
import numpy as np

from rvm import ref, work
from rvm.props import c15

CASES = {"quick": 1400, "thorough": 16000}
TECHNIQUE = "finiteness and bound monitors on every output of recorded analyses under hostile records (all latitudes and dates, extreme magnitudes, barely determined, constant, exact or mostly missing records), and metamorphic monitors over latitude"
RULE = "Random records over all latitudes (the equator, the 5-degree limits and the poles oversampled), dates 1500-2500, magnitudes 1e-50..1e50, barely enough samples, special data (constant, zero, impulse, ramp, step, exact tide), mostly missing data and automatic selection."
REQUIRED = (
    "finite amplitudes",
    "finite phases",
    "finite mean",
    "finite slope",
    "finite intervals",
    "finite energies",
    "finite predictions",
    "bounded amplitudes",
    "bounded predictions",
    "within 5 degrees: solution: amplitudes",
    "within 5 degrees: prediction",
    "latitude continuous",
    "short record finite",
    "interval of one-sided noise",
    "factors finite and bounded",
)
ASSUMPTIONS = ["magnitudes beyond about 1e75, whose fourth powers overflow, are not explored"]


def finite(ctx, p, c, intervals=True, energy=True, coloured=None):
    """every reported number; coloured: names whose bands have estimates"""
    names = list(c["name"])
    two = p.dim == 2
    ctx.check(all(np.isfinite(c[k]).all() and len(c[k]) == len(names) for k in (("Lsmaj", "Lsmin") if two else ("A",))), "finite amplitudes", [c[k] for k in work.vals(c)])
    ctx.check(all(np.isfinite(c[k]).all() for k in (("theta", "g") if two else ("g",))), "finite phases")
    ctx.check(np.isfinite(work.means(c)).all(), "finite mean", work.means(c))
    ctx.check(np.isfinite(work.slopes(c)).all(), "finite slope")
    ctx.check(np.isfinite(c["weights"]).all() and len(c["weights"]) == p.valid, "finite weights")
    ctx.check(np.isfinite(c["aux"]["frq"]).all() and np.isfinite(c["aux"]["reftime"]), "finite frequencies")
    if energy and "PE" in c:
        ctx.check(np.isfinite(c["PE"]).all() and (c["PE"] >= 0).all() and (c["PE"] <= 100 + 1e-6).all(), "finite energies", c["PE"])
    if intervals and work.cis(c)[0] in c:
        nm = [n for n in names if coloured is None or n in coloured]
        for k in work.cis(c):
            q = work.get(c, k, nm)
            ctx.check(np.isfinite(q).all() and (q >= 0).all(), "finite intervals", f"{k} {[(n, x) for n, x in zip(nm, q) if not np.isfinite(x)][:4]}")
        if coloured is None and "SNR" in c:
            ctx.check(not np.isnan(c["SNR"]).any() and (c["SNR"] >= 0).all(), "finite energies", c["SNR"])


def predictions(ctx, p, c, far=2e5):
    rng = ctx.rng
    t = np.r_[p.t[:: max(1, len(p.t) // 50)], p.tref + rng.uniform(-far, far, 5), p.tref, np.nan, p.t[-1]]
    kw = work.pick(rng, [{}, {"min_SNR": 0}, {"min_PE": 1.0}, {"constit": list(c["name"])}])
    if "A_ci" not in c and "Lsmaj_ci" not in c:
        kw = {k: v for k, v in kw.items() if k != "min_SNR"} or {"constit": list(c["name"])}
    out = ctx.reconstruct(t, c, epoch="python", **kw)
    for y in work.series(out):
        ctx.check((np.isfinite(y) == np.isfinite(t)).all(), "finite predictions", f"{kw} {y[~np.isfinite(y)][:3]}")


def lat_any(rng):
    q = rng.random()
    if q < 0.35:
        return work.pick(rng, work.LATS)
    if q < 0.6:
        return float(rng.choice([-1, 1]) * (10 ** rng.uniform(-300, 0)))
    if q < 0.75:
        return float(rng.choice([-1, 1]) * (5 + rng.choice([0, 1e-12, -1e-12, 1e-6, -1e-6])))
    if q < 0.8:
        return float(rng.choice([-1, 1]) * rng.uniform(4.9, 5.0))
    if q < 0.88:
        return float(rng.choice([-1, 1]) * np.degrees(np.arcsin(np.sqrt(0.2))))  # a zero of the diurnal factor
    return float(rng.uniform(-90, 90))


def run_case(ctx):
    k = ctx.idx % 8
    (general, general, short, special, latitude, dates, missing, auto)[k](ctx)


def extremes(rng):
    """data magnitude"""
    return float(10 ** rng.uniform(-50, 50)) if rng.random() < 0.7 else float(work.pick(rng, [1e-50, 1e50, 1.0, 1e-12]))


def problem(ctx, **kw):
    rng = ctx.rng
    kw.setdefault("lat", lat_any(rng))
    p = work.Problem(rng, **kw)
    p.valid = len(p.t)
    p.tell(ctx)
    return p


def options(ctx, p, white=None):
    rng = ctx.rng
    o = dict(p.opts, white=bool(rng.random() < 0.5) if white is None else white)
    if rng.random() < 0.2:
        o["method"] = "robust"
        if rng.random() < 0.6:
            o["robust_kw"] = {"weight_function": work.pick(rng, "cauchy huber bisquare andrews fair logistic talwar welsch ols".split())}
    if rng.random() < 0.2:
        o["order_constit"] = work.pick(rng, ["frequency", "SNR"])
    ctx.note(f"method={o.get('method', 'ols')}", f"white={o['white']}")
    return o


def estimated(p, c, x):
    """names whose frequency bands contain spectral estimates"""
    want, ambiguous = c15.intervals(p, x, list(p.names), False)
    if ambiguous:
        return ()
    ok = np.all([np.isfinite(want[k]) for k in want], axis=0)
    return [n for n, o in zip(p.names, ok) if o]


def general(ctx):
    rng = ctx.rng
    p = problem(ctx, scale=extremes(rng), nmax=400, noise=work.pick(rng, [0.01, 0.2, 1.0]), start=float(rng.uniform(547500, 913000)) if rng.random() < 0.5 else None)
    o = options(ctx, p)
    x = p.x
    c = ctx.solve(*p.args, **o)
    robust = o.get("method") == "robust"
    col = None if o["white"] else (() if robust else estimated(p, c, x))
    finite(ctx, p, c, coloured=col, intervals=not (robust and not o["white"]))
    predictions(ctx, p, c)
    if not robust:
        bounded(ctx, p, c, x)


def bounded(ctx, p, c, x):
    """the least squares coefficients are no larger than the data allow"""
    D = p.D
    s = np.linalg.svd(D, compute_uv=False)[-1]
    y = np.sqrt(sum((q**2).sum() for q in (np.array(x) / p.scale)))
    z = work.zz(c, p.names) / p.scale
    ctx.check(np.abs(z).max() <= 1.001 * np.sqrt(2) * y / s, "bounded amplitudes", f"{np.abs(z).max()} > {y / s}")
    out = ctx.reconstruct(p.t, c, epoch="python", constit=p.names)
    q = np.sqrt(sum(((h / p.scale) ** 2).sum() for h in work.series(out)))
    # a projection does not lengthen
    ctx.check(q <= y * (1 + 1e-6), "bounded predictions", f"{q} > {y}")


def short(ctx):
    """just more samples than unknowns"""
    rng = ctx.rng
    p = problem(ctx, nmax=300, ncon=int(rng.integers(1, 7)), scale=extremes(rng), kind=work.pick(rng, ["regular", "random", "jitter"]))
    extra = int(rng.integers(1, 6))
    n = 2 * p.nc + 1 + p.trend + extra
    for _ in range(30):
        i = np.sort(rng.choice(len(p.t), n, replace=False)) if n < len(p.t) else np.arange(len(p.t))
        t = p.t[i]
        tref = 0.5 * (t[0] + t[-1])
        E = ref.basis(p.names, t, tref, p.lat, p.nodal, p.phase)
        D = ref.real_design(E, t, tref, p.trend, np.ptp(t))
        if ref.cond(D) < 1e4:
            break
    else:
        ctx.skip("short record unresolved")
    p.t, p.x, p.valid, p.D = t, [c[i] for c in p.x], len(i), D
    c = ctx.solve(*p.args, **dict(p.opts, white=True))
    ctx.describe(samples=len(i), unknowns=2 * p.nc + 1 + p.trend)
    ctx.note(f"spare samples={len(i) - 2 * p.nc - 1 - p.trend}")
    ctx.check(True, "short record finite")
    finite(ctx, p, c)
    predictions(ctx, p, c)
    bounded(ctx, p, c, p.x)
    # coloured intervals need more samples, the fit does not
    c = ctx.solve(*p.args, **dict(p.opts, conf_int="none"))
    finite(ctx, p, c)


def special(ctx):
    rng = ctx.rng
    p = problem(ctx, nmax=300, scale=1.0, noise=0)
    n = len(p.t)
    kind = work.pick(rng, ["constant", "zero", "impulse", "ramp", "step", "exact", "single", "two-valued", "one component zero", "integers"])
    ctx.note("data=" + kind)
    s = extremes(rng)

    def one():
        if kind == "constant":
            return np.full(n, rng.normal())
        if kind in ("zero", "one component zero"):
            return np.zeros(n)
        if kind == "impulse":
            y = np.zeros(n)
            y[int(rng.integers(n))] = 1
            return y
        if kind == "ramp":
            return np.linspace(-1, 3, n)
        if kind == "step":
            return np.where(np.arange(n) < rng.integers(1, n), 1.0, 0.0)
        if kind == "two-valued":
            return np.round(rng.random(n))
        return np.round(rng.normal(size=n) * 3)

    x = list(p.clean) if kind in ("exact", "single") else [one() for _ in range(p.dim)]
    if kind == "one component zero" and p.dim == 2:
        x[0] = p.clean[0] + 0.1 * rng.normal(size=n)
    if kind == "single":
        x = [np.cos(2 * np.pi * (p.t - p.t[0]) * 24 * ref.FREQ[ref.INDEX[p.names[0]]]) + 0 * q for q in x]
    p.x = [np.asarray(q, float) * s for q in x]
    p.scale = s
    # rounding errors alone: whether the residuals are exactly zero is arbitrary
    # (of a vector record, one component is enough for sensible intervals)
    one_sided = kind == "one component zero" and p.dim == 2
    fitted = kind in ("constant", "zero", "ramp", "one component zero") and not one_sided
    o = options(ctx, p, white=None if one_sided else True)
    if one_sided:
        if rng.random() < 0.4:  # or a constant, or the noise of the other one
            p.x[1] = work.pick(rng, [p.x[1] + s, p.x[0], -0.5 * p.x[0]])
        if rng.random() < 0.5:
            p.x = p.x[::-1]
        col = None if o["white"] else (() if o.get("method") == "robust" else estimated(p, None, p.x))
    if o.get("method") == "robust" and kind not in ("exact", "single", "integers", "one component zero"):
        fitted = True  # most of the data are, after discarding the others
    c = ctx.solve(*p.args, **o)
    finite(ctx, p, c, intervals=not fitted, energy=not fitted, coloured=col if one_sided else None)
    if one_sided and o["white"] and o.get("method") != "robust":
        ctx.check(c["Lsmaj_ci"].max() > 0, "interval of one-sided noise")
    predictions(ctx, p, c)


def latitude(ctx):
    rng = ctx.rng
    pool = work.LAT12 + work.MAIN[:6]
    p = problem(ctx, nmax=300, pool=pool, nodal=work.pick(rng, [True, True, "linear_time"]), lat=lat_any(rng))
    S = p.magnitude()
    side = float(rng.choice([-1, 1]))
    inner = side * float(work.pick(rng, [0.0 if side > 0 else 1e-300, 1e-15, 1e-3, 2.5, 4.999999999, rng.uniform(4.9, 5), rng.uniform(4.9, 5), rng.uniform(0, 5)]))
    a = ctx.solve(*p.args[:3], lat=inner, **p.opts)
    b = ctx.solve(*p.args[:3], lat=side * 5.0, **p.opts)
    work.same_solution(ctx, a, b, "within 5 degrees: solution", S, tol=1e-10)
    tp = p.tref + rng.uniform(-5000, 5000, 20)
    for q, r in zip(work.series(ctx.reconstruct(tp, a, epoch="python", min_SNR=0)), work.series(ctx.reconstruct(tp, b, epoch="python", min_SNR=0))):
        ctx.close(q, r, 1e-9 * S, "within 5 degrees: prediction")
    # small changes of latitude, small changes of the results
    lat = float(rng.choice([-1, 1]) * rng.uniform(5, 90 - 1e-3))
    h = float(10 ** rng.uniform(-9, -3))
    a = ctx.solve(*p.args[:3], lat=lat, **p.opts)
    b = ctx.solve(*p.args[:3], lat=lat + h, **p.opts)
    z = np.abs(work.zz(a, p.names)).max()
    # relative sensitivity of a factor to a degree of latitude: below 2 (at 5 degrees)
    ctx.close(work.zz(b, p.names), work.zz(a, p.names), (2 * p.cond * h + 1e-9) * max(z, S), "latitude continuous", p.names)
    # the factors themselves, every constituent
    from utide.harmonics import FUV

    t = p.tref + rng.uniform(-40000, 40000, 5)
    lind = np.array([i for i in range(len(ref.NAMES)) if np.isfinite(ref.FREQ[i])])
    ctx.event("FUV", data=(p.lat, t.tolist()))
    for flags in ([0, 0, 0, 0], [1, 0, 0, 0]):
        F, U, V = FUV(t, float(p.tref), lind, inner, flags)
        ctx.check(np.isfinite(F).all() and np.isfinite(U).all() and np.isfinite(V).all(), "factors finite and bounded")
        ctx.check((F > 0).all() and (F < 100).all(), "factors finite and bounded", f"{F.min()} {F.max()}")


def dates(ctx):
    rng = ctx.rng
    p = problem(ctx, nmax=250, start=float(rng.uniform(547500, 913000)))
    tt = p.t
    epoch = "python"
    q = rng.random()
    if q < 0.4:  # the same instants as datetime64
        tt = (np.round((p.t - 719163) * 86400e3)).astype("datetime64[ms]")
        epoch = None
    elif q < 0.6:
        tt, epoch = p.t + 366, "matlab"
    ctx.note(f"epoch={epoch}")
    o = dict(options(ctx, p, white=True), epoch=epoch)
    c = ctx.solve(tt, p.args[1], p.args[2], p.lat, **o)
    finite(ctx, p, c)
    predictions(ctx, p, c, far=3e5)


def missing(ctx):
    """most of the record is missing"""
    rng = ctx.rng
    p = problem(ctx, nmax=900, scale=extremes(rng), kind="regular", dt=1 / 24, noise=0.3)
    n = len(p.t)
    need = 2 * p.nc + 1 + p.trend + 4
    frac = float(rng.uniform(0.3, 0.95))
    for _ in range(20):
        keep = rng.random(n) > frac
        if rng.random() < 0.5:  # long breaks instead
            keep = (np.cumsum(rng.random(n) < 0.02) % 4 == 0) | keep & (rng.random(n) < 0.1)
        if keep.sum() < need:
            continue
        t = p.t[keep]
        D = p.D[keep]
        if ref.cond(D) < 500:
            break
    else:
        ctx.skip("too much is missing")
    x = [np.where(keep, q, work.pick(rng, [np.nan, np.inf, -np.inf])) for q in p.x]
    p.valid = int(keep.sum())
    ctx.describe(missing=n - p.valid)
    ctx.note("missing=%d0%%" % int(10 * (n - p.valid) / n))
    white = bool(rng.random() < 0.5)
    c = ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **dict(p.opts, white=white))
    y = [np.where(keep, q, np.nan) for q in p.x]
    finite(ctx, p, c, coloured=None if white else estimated(p, c, y))
    predictions(ctx, p, c)
    out = ctx.reconstruct(p.t, c, epoch="python")
    for y in work.series(out):
        ctx.check(np.isfinite(y).all(), "finite predictions", "at missing samples")
    p.D = D
    p.t, p.x = t, [q[keep] for q in p.x]
    bounded(ctx, p, c, p.x)


def auto(ctx):
    rng = ctx.rng
    p = problem(ctx, nmax=1500, kind="regular", dt=1 / 24, scale=extremes(rng), noise=0.3, span=float(np.exp(rng.uniform(np.log(5), np.log(60)))))
    o = options(ctx, p, white=True)
    o.pop("constit")
    if rng.random() < 0.3:
        o["Rayleigh_min"] = float(rng.uniform(0.9, 2))
    c = ctx.solve(*p.args, **o)
    ctx.describe(selected=len(c["name"]))
    p.names = list(c["name"])
    finite(ctx, p, c)
    predictions(ctx, p, c)
