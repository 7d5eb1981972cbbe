"""C05 missing values of any encoding are absent observations."""
import numpy as np

from rvm import work

CASES = {"quick": 840, "thorough": 9000}
TECHNIQUE = "metamorphic monitor over paired executions (every encoding of the same missing observations, and their deletion)"
RULE = "A noisy record with a random pattern of missing values (single, runs, ends, in t, u, v or several) is analysed with the missing entries encoded as NaN, infinity, masked over arbitrary data, and with the observations deleted."
REQUIRED = ("encoding: amplitudes", "encoding: A_ci", "deletion: amplitudes", "deletion of times: Lsmaj_ci", "deletion irregular: A_ci")


def pattern(rng, n):
    k = rng.integers(0, 6)
    m = np.zeros(n, bool)
    if k == 0:
        m[int(rng.integers(n))] = True
    elif k == 1:
        m = rng.random(n) < 0.2
    elif k == 2:
        i = int(rng.integers(1, n - n // 5))
        m[i : i + n // 6 + 1] = True
    elif k == 3:
        m[0] = True
        m[: int(rng.integers(1, n // 6 + 2))] = True
    elif k == 4:
        m[-1] = True
        m[-int(rng.integers(1, n // 6 + 2)) :] = True
    else:
        m = rng.random(n) < 0.1
        m[0] = m[-1] = True
    return m


JUNK = [0.0, 1e20, -9999.0, np.nan, np.inf, 1e-300, 3.0, -1e300]


def encode(rng, x, m, how=None):
    """x with entries m missing, in a random (or given) encoding"""
    how = how or work.pick(rng, ["nan", "inf", "-inf", "mixed", "masked", "masked", "partly", "fill", "masked no-op"])
    y = np.array(x, dtype=float)
    if how == "nan":
        y[m] = np.nan
    elif how == "inf":
        y[m] = np.inf
    elif how == "-inf":
        y[m] = -np.inf
    elif how == "mixed":
        y[m] = rng.choice([np.nan, np.inf, -np.inf], m.sum())
    elif how == "masked":
        y[m] = rng.choice(JUNK, m.sum())
        y = np.ma.array(y, mask=m)
    elif how == "partly":  # some masked, some NaN
        y[m] = np.nan
        mm = m & (rng.random(len(m)) < 0.5)
        y[mm] = rng.choice(JUNK, mm.sum())
        y = np.ma.array(y, mask=mm)
    elif how == "fill":
        y[m] = rng.choice(JUNK, m.sum())
        y = np.ma.array(y, mask=m, fill_value=work.pick(rng, JUNK))
    else:
        y[m] = np.nan
        y = np.ma.array(y, mask=False)
    return y, how


def encode_dates(rng, d, m, pd):
    """d (datetime64) with entries m missing, in a random encoding"""
    how = work.pick(rng, ["NaT", "NaT", "dates masked", "dates partly", "list of dates", "array of dates"] + ["pandas"] * (pd is not None))
    junk = np.array(["1970-01-01", "NaT", "0004-02-03", "2262-01-01T12"], "datetime64[ms]")
    y = d.copy()
    if how == "NaT":
        y[m] = np.datetime64("NaT")
    elif how == "dates masked":
        y[m] = rng.choice(junk, m.sum())
        y = np.ma.array(y, mask=m)
    elif how == "dates partly":
        y[m] = np.datetime64("NaT")
        mm = m & (rng.random(len(m)) < 0.5)
        y[mm] = rng.choice(junk, mm.sum())
        y = np.ma.array(y, mask=mm)
    elif how == "pandas":
        y = pd.Series(y.astype("datetime64[ns]")).where(~m)
    else:
        none = [None, np.datetime64("NaT")] + [np.nan] * (how == "array of dates") + ([pd.NaT] if pd else [])
        y = [none[int(rng.integers(len(none)))] if g else q for q, g in zip(y.astype(object), m)]
        if how == "array of dates":
            y = np.array(y, dtype=object)
    return y, how


def run_case(ctx):
    rng = ctx.rng
    mode = ["values", "values", "times", "both", "values"][ctx.idx % 5]
    irregular = bool((ctx.idx // 5) % 2)
    kind = work.pick(rng, ["jitter", "random", "segments", "burst", "dropout"]) if irregular else "regular"
    large = ctx.idx % 53 == 2
    p = work.Problem(rng, maxcond=50, **(work.large(rng, 25000) if large else dict(kind=kind, nmax=600, nmin=120)))
    n = len(p.t)
    opts = p.opts
    opts["conf_int"] = "linear" if rng.random() < 0.7 else "none"
    opts["white"] = bool(rng.random() < 0.4)
    if large and mode != "values":  # Lomb-Scargle spectra
        opts["conf_int"] = "none"
    if rng.random() < 0.15:
        opts["method"] = "robust"
    p.tell(ctx)
    ctx.note("mode=" + mode, "method=" + opts.get("method", "ols"))
    mt = pattern(rng, n) if mode in ("times", "both") else np.zeros(n, bool)
    mx = [pattern(rng, n) if mode in ("values", "both") else np.zeros(n, bool) for _ in p.x]
    if p.dim == 2 and mode != "times":
        q = rng.random()
        if q < 0.3:
            mx[0][:] = False
        elif q < 0.6:
            mx[1][:] = False
        elif q < 0.8:
            mx[1] = mx[0].copy()
    miss = mt.copy()
    for m in mx:
        miss |= m
    good = ~miss
    if good.sum() < max(40, 4 * p.nc + 10):
        ctx.skip("too few valid samples")

    dates = None
    if mt.any() and rng.random() < 0.35 and 1900 * 365 < p.t[0] and p.t[-1] < 2200 * 365:
        dates = np.round((p.t - 719163) * 86400e3).astype("datetime64[ms]")
        opts["epoch"] = None
        try:
            import pandas as pd
        except ImportError:
            pd = None

    def run(t, x):
        return ctx.solve(t, x[0], x[1] if p.dim == 2 else None, p.lat, **opts)

    # encodings; values beside a missing component are arbitrary
    cs = []
    for i in range(3):
        if dates is not None:
            t, ht = encode_dates(rng, dates, mt, pd)
        else:
            t, ht = encode(rng, p.t, mt, "nan" if i == 0 else None) if mt.any() else (p.t, "-")
        x, hs = [], []
        for c, m in zip(p.x, mx):
            c = c.copy()
            if i == 2 and p.dim == 2 and rng.random() < 0.5:
                # whatever the other component of a missing sample holds
                other = miss & ~m
                c[other] = rng.choice([0.0, 1e6 * p.scale, -777.0 * p.scale], other.sum())
            if i == 2 and rng.random() < 0.4:
                # both components missing is the same as one
                m = m | miss
            if m.any():
                c, h = encode(rng, c, m, "nan" if i == 0 else None)
            else:
                h = "-"
            x.append(c)
            hs.append(h)
        ctx.note(*[f"encoding={h}" for h in [ht] + hs])
        cs.append(run(t, x))
    S = p.magnitude()
    for c in cs[1:]:
        work.same_solution(ctx, cs[0], c, "encoding", S, tol=1e-10, citol=1e-6, order=False)
        ctx.close(c["aux"]["reftime"], cs[0]["aux"]["reftime"], 1e-9, "encoding: reference time")
        ctx.close(c["weights"], cs[0]["weights"], 1e-6, "encoding: weights")

    robust = opts.get("method") == "robust"
    # deletion of the samples without a time: everything is the same
    if mt.any():
        keep = ~mt
        d = run((p.t if dates is None else dates)[keep], [np.where(m, np.nan, c)[keep] for c, m in zip(p.x, mx)])
        work.same_solution(ctx, cs[0], d, "deletion of times", S, tol=1e-10)
        ctx.close(d["aux"]["reftime"], cs[0]["aux"]["reftime"], 1e-9, "deletion of times: reference time")
    d = run((p.t if dates is None else dates)[good], [c[good] for c in p.x])
    ctx.check(len(cs[0]["weights"]) == good.sum(), "one weight per valid observation")
    regular = is_regular(p.t[~mt])
    # (if the samples that remain happen to be regular, their spectrum is estimated
    # by another method)
    if not regular and not is_regular(p.t[good]):
        work.same_solution(ctx, cs[0], d, "deletion irregular", S, tol=1e-10)
        ctx.close(d["aux"]["reftime"], cs[0]["aux"]["reftime"], 1e-9, "deletion irregular: reference time")
    else:
        # the record's span, hence the reference time and the noise estimate, may
        # differ; the fitted tide may not
        ends = abs(d["aux"]["reftime"] - cs[0]["aux"]["reftime"]) < 1e-9
        loose = 1e-8 if not robust else 1e-6
        if ends:
            work.same_solution(ctx, cs[0], d, "deletion", S, tol=loose, ci=opts.get("white") and not robust)
        elif p.nodal != "linear_time" and p.phase == "Greenwich":
            nm = p.names
            ctx.close(work.zz(cs[0], nm), work.zz(d, nm), loose * S, "deletion: amplitudes", nm)
            tt = p.t[:: max(1, n // 20)]
            a = work.series(ctx.reconstruct(tt, cs[0], epoch="python", min_SNR=0))
            b = work.series(ctx.reconstruct(tt, d, epoch="python", min_SNR=0))
            for q, r in zip(a, b):
                ctx.close(q, r, loose * S * 10, "deletion: prediction")


def is_regular(t):
    return np.var(np.diff(t)) < 1e-12
