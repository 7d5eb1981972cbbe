"""C12 automatic constituent selection."""
import numpy as np

from rvm import ref, work

CASES = {"quick": 840, "thorough": 10000}
RULE = "Records of 3 days to 30 years, any sampling, with Rayleigh_min 0.2..5; the names analysed are compared with those whose pinned tabulated separation reaches Rayleigh_min over the record length."
REQUIRED = ("constituents selected", "longer or laxer never drops")


def expected(lor, rmin):
    """None if some constituent is within rounding of the limit, unless it is on
    it, however the limit is evaluated"""
    lim = rmin / (24 * lor)
    close = np.abs(ref.DF - lim) < 1e-12 * lim
    if not all(exact(q, lor, rmin) for q in ref.DF[close]):
        return None
    return {ref.NAMES[i] for i in np.flatnonzero(ref.DF >= lim)}


def exact(df, lor, rmin):
    return rmin / (24 * lor) == rmin / 24 / lor == rmin / lor / 24 == df and rmin == df * (24 * lor) == 24 * df * lor == df * lor * 24


def on_limit(rng, lor, df):
    """a Rayleigh_min and a slightly shorter record for which the separation is on the limit"""
    for _ in range(400):
        rmin = 24 * lor * df
        if exact(df, lor, rmin):
            return rmin, lor
        lor -= abs(np.spacing(lor)) * int(rng.integers(1, 9))
    return None


def run_case(ctx):
    rng = ctx.rng
    span = float(np.exp(rng.uniform(np.log(3), np.log(11000))))
    rmin = float(work.pick(rng, [1, 1.0, 0.2, 0.5, 0.7, 0.9, 1.1, 1.5, 2, 3.3, 5]))
    kind = work.pick(rng, ["regular", "random", "segments", "jitter", "burst"])
    n = int(work.pick(rng, [200, 300, 500]))
    t, kind = work.times(rng, span=span, nmax=n, kind="random" if kind == "jitter" else kind, nmin=200, dt=span / n if kind == "regular" else None)
    lor = float(np.ptp(t))
    if rng.random() < 0.3:  # just reached, or just missed
        k = int(rng.integers(0, len(ref.DF)))
        if np.isfinite(ref.DF[k]) and 0.1 < 24 * lor * ref.DF[k] < 20:
            rmin = float(24 * lor * ref.DF[k] * (1 + work.pick(rng, [1, -1]) * 10 ** rng.uniform(-11, -4)))
            ctx.note("near the limit")
            on = on_limit(rng, lor, float(ref.DF[k])) if kind != "regular" and rng.random() < 0.5 else None
            if on:
                t = t - t[0]  # from zero, where the length is the last time
                t[-1] = on[1]
                if np.ptp(t) == on[1] and (np.diff(t) > 0).all():
                    rmin, lor = float(on[0]), float(on[1])
                    ctx.note("on the limit")
    want = expected(lor, rmin)
    if want is None:
        ctx.skip("at the limit")
    if not want:
        ctx.skip("nothing selected")
    dim = int(rng.integers(1, 3))
    u = rng.normal(size=len(t)) * 10 ** rng.uniform(-6, 6)
    v = rng.normal(size=len(t)) if dim == 2 else None
    if rng.random() < 0.3:
        # missing values inside the record do not matter
        u[1:-1][rng.random(len(t) - 2) < 0.1] = np.nan
        ctx.note("missing values")
    elif kind == "regular" and rng.random() < 0.4:
        # a regular record is as long as its times, whatever is missing
        u[: int(rng.integers(1, 60))] = np.nan
        if v is not None and rng.random() < 0.5:
            v[-int(rng.integers(1, 60)) :] = np.nan
        ctx.note("missing at the ends")
    lat = work.pick(rng, work.LATS)
    opts = dict(epoch="python", conf_int="none", phase=work.pick(rng, work.PHASES), nodal=work.pick(rng, work.NODALS), trend=bool(rng.random() < 0.5))
    if rng.random() < 0.5:
        opts["constit"] = "auto"
    if not (rmin == 1 and rng.random() < 0.5):
        opts["Rayleigh_min"] = rmin
    ctx.describe(n=len(t), kind=kind, days=lor, Rayleigh_min=rmin, dim=dim, start=t[0], lat=lat, selected=len(want), opts=str(opts))
    ctx.note("times=" + kind, f"Rayleigh_min={rmin:.1g}", "days=" + work.size_class(lor), "selected=" + work.size_class(len(want)), "date=" + work.date_class(t[0]))
    c = ctx.solve(t, u, v, lat, **opts)
    got = set(c["name"])
    ctx.check(len(got) == len(c["name"]), "no repeated names")
    ctx.check(got == want, "constituents selected", f"missing {sorted(want - got)} extra {sorted(got - want)}", days=lor, rmin=rmin)
    # history-free consequence, observed directly
    q = rng.integers(3)
    if q == 0:
        t2, r2 = t[0] + (t - t[0]) * rng.uniform(1, 3), rmin
    elif q == 1:
        t2, r2 = t, rmin * rng.uniform(0.3, 1)
    else:  # anything else about the record does not matter
        t2, r2 = t + rng.uniform(-30000, 30000), rmin
        if np.ptp(t2) < lor * (1 + 1e-9) and expected(np.ptp(t2), r2) != want:
            return
    c2 = ctx.solve(t2, u[::-1], None if q else v, -lat, **{**opts, "Rayleigh_min": r2})
    ctx.check(got <= set(c2["name"]), "longer or laxer never drops", f"lost {sorted(got - set(c2['name']))}")
    # with inference, the inferred and reference constituents are added
    if rng.random() < 0.3 and len(want) < 60:
        cand = [n for n in work.USABLE if n not in want and n not in ref.HALF_NAMES]
        r = work.pick(rng, sorted(want) if rng.random() < 0.7 else cand)
        cand = [n for n in cand if n != r]
        if rng.random() < 0.35 and len(want - {r}) > 1:  # selected, but inferred instead
            cand = sorted(want - {r} - set(ref.HALF_NAMES))
        i = work.pick(rng, cand)
        m = 1 if v is None else 2
        c3 = ctx.solve(t, u, v, lat, infer=dict(inferred_names=[i], reference_names=[r], amp_ratios=[0.3] * m, phase_offsets=[10.0] * m), **opts)
        ctx.check(set(c3["name"]) == want | {i, r} and len(c3["name"]) == len(want | {i, r}), "selected and inferred", f"{i} from {r}: {sorted(set(c3['name']) ^ (want | {i, r}))}")
