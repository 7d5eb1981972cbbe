"""C14 robust solutions."""
import numpy as np

from rvm import ref, work

CASES = {"quick": 1000, "thorough": 12000}
TECHNIQUE = "invariant monitors on every robust solution (weighted stationarity, weights, statistics), fault injection (gross outliers) with a measured bound, and equivalence with ols"
RULE = "Random records analysed with every documented weight function (and tuning, tolerance and iteration options), with gross outliers of one or both signs, isolated or clustered, in any order, and without noise; and direct calls of robustfit with real and complex models."
REQUIRED = ("stationary", "weights in [0, 1]", "weights: one per valid observation", "outliers: small weight", "outliers: tide", "inliers keep weight", "exact: amplitudes", "ols weight function: amplitudes", "ols weight function: A_ci", "rms_resid", "ols_b", "ols_rms_resid", "leverage", "direct stationary", "iterations", "weight function")
WF = ["andrews", "bisquare", "cauchy", "fair", "huber", "logistic", "talwar", "welsch"]
ASSUMPTIONS = ["at most 10% outliers in records of at least 300 samples with at least 25 samples per constituent"]


def full(ctx, p, c):
    """residual of the valid observations from the package's own prediction"""
    out = ctx.reconstruct(p.t, c, epoch="python", min_SNR=0)
    return [x - y for x, y in zip(p.x, work.series(out))]


def design(p, names=None):
    return ref.basis(names or p.names, p.t, p.tref, p.lat, p.nodal, p.phase)


def run_case(ctx):
    rng = ctx.rng
    mode = ctx.idx % 5
    wf = WF[(ctx.idx // 5) % len(WF)]
    if mode == 0:
        return direct(ctx, wf)
    if mode in (1, 2):
        return outliers(ctx, wf)
    exact = mode == 3
    size = work.large(rng, 14000, ncon=int(rng.integers(1, 4))) if ctx.idx % 61 in (3, 4) else dict(nmax=700)
    p = work.Problem(rng, maxcond=30, **size, **({"noise": 0} if exact else {}))
    p.tell(ctx)
    kw = {"weight_function": wf}
    q = rng.random()
    if q < 0.15:
        kw["maxit"] = int(work.pick(rng, [1, 2, 2, 3, 5]))
    elif q < 0.3:
        kw["tol"] = float(10 ** rng.uniform(-6, -1))
    elif q < 0.5:
        from utide.robustfit import tune_defaults

        kw["tune"] = tune_defaults[wf] * float(rng.uniform(0.8, 2))
    if wf == "cauchy" and rng.random() < 0.3:
        kw = {}
    ctx.note("weights=" + wf, "options=" + "+".join(k for k in kw if k != "weight_function"))
    opts = p.opts
    opts["conf_int"] = work.pick(rng, ["linear", "none"])
    if rng.random() < 0.3:  # observations listed in another order
        n = len(p.t)
        ix = np.arange(n)[::-1]
        if rng.random() < 0.5:
            ix = np.r_[0, rng.permutation(np.arange(1, n - 1)), n - 1][:: work.pick(rng, [1, -1])]
        p.t, p.x = p.t[ix], [q[ix] for q in p.x]
        opts["conf_int"] = "none"
        ctx.note("not chronological")
    S = p.magnitude()
    c = ctx.solve(*p.args, method="robust", **({"robust_kw": kw} if kw else {}), **opts)
    o = ctx.solve(*p.args, method="ols", **opts)
    if exact:
        ctx.close(work.zz(c, p.names), p.z, 1e-8 * S, "exact: amplitudes", p.names)
        ctx.close(work.zz(c, p.names), work.zz(o, p.names), 1e-8 * S, "exact: as ols", p.names)
        ctx.close(work.means(c), p.mean, 1e-8 * S, "exact: mean")
        ctx.close(work.slopes(c) * p.lor, p.slope * p.lor, 1e-7 * S, "exact: slope")
        consistency(ctx, p, c, o, kw, S, exact=True)
        return
    consistency(ctx, p, c, o, kw, S)
    b = ctx.solve(*p.args, method="robust", robust_kw={"weight_function": "ols"}, **opts)
    work.same_solution(ctx, o, b, "ols weight function", S)
    ctx.same(b["weights"], np.ones(len(p.t)), "ols weight function: weights")


def consistency(ctx, p, c, o, kw, S, exact=False):
    w, rf, n = c["weights"], c["rf"], len(p.t)
    ctx.check(np.shape(w) == (n,), "weights: one per valid observation", np.shape(w))
    ctx.same(w, rf["w"], "weights are those of rf")
    ctx.check(np.isrealobj(w) and (w >= 0).all() and (w <= 1 + 1e-12).all(), "weights in [0, 1]", f"{w.min()} {w.max()}")
    r = full(ctx, p, c)
    r = r[0] + 1j * r[1] if p.dim == 2 else r[0]
    E = design(p)
    D = np.hstack([E, E.conj(), np.ones((n, 1))] + ([((p.t - p.tref) / p.lor)[:, None]] if p.trend else []))
    g = D.conj().T @ (w**2 * r)
    y = p.x[0] + 1j * p.x[1] if p.dim == 2 else p.x[0]
    tol = 1e-9 * np.abs(D).T @ (w**2 * np.abs(y)) + 1e-9 * S * np.abs(D).T @ w**2
    ctx.close(np.abs(g), 0 * np.abs(g), tol, "stationary")
    rms = lambda e: np.sqrt(np.mean(np.abs(e) ** 2))  # noqa: E731
    tolr = 1e-9 * S
    ctx.close(rf["rms_resid"], rms(r), 1e-8 * rms(r) + tolr, "rms_resid")
    ro = full(ctx, p, o)
    ro = ro[0] + 1j * ro[1] if p.dim == 2 else ro[0]
    ctx.close(rf["ols_rms_resid"], rms(ro), 1e-8 * rms(ro) + tolr, "ols_rms_resid")
    ctx.check(rms(r) >= rms(ro) * (1 - 1e-9) - tolr, "ols has the least residual", f"{rms(r)} {rms(ro)}")
    it = rf["iterations"]
    ctx.check(1 <= it <= kw.get("maxit", 50), "iterations", it)
    # coefficients: those behind the reported values
    nc = len(p.names)
    zo = work.zz(o, list(p.names))
    b, ob = rf["b"], rf["ols_b"]
    ctx.check(b.shape == ob.shape == (2 * nc + 1 + p.trend,), "rf.b length", b.shape)
    z = work.zz(c, p.names)
    for nm, v, zz_, mm in (("b", b, z, work.means(c)), ("ols_b", ob, zo, work.means(o))):
        plus = zz_[:, 0] * (0.5 if p.dim == 1 else 1)
        # columns may be in any order of constituents
        ctx.close(np.sort(np.abs(v[:nc])), np.sort(np.abs(plus)), 1e-8 * S, nm)
        mean = mm[0] + (1j * mm[1] if p.dim == 2 else 0)
        ctx.close(np.asarray(v[2 * nc] - mean), 0j, 1e-8 * S, nm + " mean")
    Q = np.linalg.qr(D)[0]
    lev = (np.abs(Q) ** 2).sum(axis=1)
    ctx.close(rf["leverage"], lev, 1e-8, "leverage")
    wf = kw.get("weight_function", "cauchy")
    if not exact and kw.get("maxit", 50) == 2 and lev.max() < 0.95:
        formula(ctx, wf, rf, w, ro, ob, lev, kw.get("tune"))


def outliers(ctx, wf):
    rng = ctx.rng
    nc = int(rng.integers(1, 9))
    p = work.Problem(rng, nmax=1500, nmin=max(300, 30 * nc), ncon=nc, maxcond=3, noise=0)
    if len(p.t) < 300 or len(p.t) < 25 * len(p.names):
        ctx.skip("too short for outliers")
    n = len(p.t)
    p.sigma = sig = float(work.pick(rng, [0.01, 0.1, 0.5])) * p.scale
    for c in p.x:
        c += sig * rng.normal(size=n)
    frac = rng.uniform(0.005, 0.08)
    m = max(1, int(frac * n))
    size = float(10 ** (rng.uniform(1.5, 4) if rng.random() < 0.7 else rng.uniform(4, 9))) * sig
    if rng.random() < 0.3:  # clustered in time
        ctx.note("clustered outliers")
        m = min(m, int(0.04 * n))
        i0 = int(rng.integers(0, n - m + 1))
        at = np.arange(i0, i0 + m)
    else:
        at = np.sort(rng.choice(n, m, replace=False))
    sgn = np.ones(m) if rng.random() < 0.5 else rng.choice([-1.0, 1.0], m)
    big = size * sgn * rng.uniform(1, 2, m)
    clean = np.array(p.x)
    if p.dim == 2:
        a = rng.uniform(0, 2 * np.pi)
        p.x[0][at] += big * np.cos(a)
        p.x[1][at] += big * np.sin(a)
    else:
        p.x[0][at] += big
    p.tell(ctx)
    ctx.note("weights=" + wf, "outliers=" + ("one sign" if (sgn > 0).all() else "both signs"))
    ctx.describe(outliers=m, size_over_sigma=round(size / sig, 1), weight=wf)
    # some missing samples as well
    miss = rng.random(n) < 0.05 if rng.random() < 0.5 else np.zeros(n, bool)
    x = [c.copy() for c in p.x]
    miss[[0, -1]] = False  # the reference time
    x[-1][miss] = np.nan
    kw = {"weight_function": wf}
    opts = dict(p.opts, method="robust", robust_kw=kw, conf_int=work.pick(rng, ["linear", "none"]))
    S = p.magnitude()
    c = ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **opts)
    w = np.full(n, np.nan)
    ctx.check(np.shape(c["weights"]) == (n - miss.sum(),), "weights: one per valid observation", f"{np.shape(c['weights'])} {n} {miss.sum()}")
    w[~miss] = c["weights"]
    out = np.zeros(n, bool)
    out[at] = True
    wo, wi = w[out & ~miss], w[~out & ~miss]
    # measured: outliers of 30 sigma have weight below 0.1 with the slowest
    # decaying functions (1/r), the inliers a median of at least 0.5
    ctx.close(np.max(wo, initial=0.0), 0.0, 0.2, "outliers: small weight")
    ctx.close(min(float(np.median(wi)), 1.0), 1.0, 0.6, "inliers keep weight")
    tol = sig * 6 * np.sqrt(2.0 / n) + 1.5 * sig * (2 * m / n) + 1e-9 * S
    z = work.zz(c, p.names)
    if p.dim == 1:
        ctx.close(z, p.z, 2 * tol, "outliers: tide", p.names)
    else:
        ctx.close(z, p.z, 2 * tol, "outliers: tide", p.names)
    ctx.close(work.means(c), p.mean, 2 * tol, "outliers: mean")
    # and equally without them
    b = ctx.solve(p.t, clean[0], clean[1] if p.dim == 2 else None, p.lat, **opts)
    ctx.close(work.zz(b, p.names), p.z, 2 * tol, "no outliers: tide", p.names)


def weights(wf, u):
    """the published weight functions of the normalised residual"""
    u = np.abs(u)
    with np.errstate(all="ignore"):
        return {
            "andrews": lambda: np.where(u < np.pi, np.sinc(u / np.pi), 0),
            "bisquare": lambda: np.where(u < 1, (1 - u**2) ** 2, 0),
            "cauchy": lambda: 1 / (1 + u**2),
            "fair": lambda: 1 / (1 + u),
            "huber": lambda: 1 / np.maximum(1, u),
            "logistic": lambda: np.where(u > 1e-7, np.tanh(u) / u, 1),
            "talwar": lambda: np.where(u < 1, 1.0, 0.0),
            "welsch": lambda: np.exp(-(u**2)),
        }[wf]()


TUNE = dict(andrews=1.339, bisquare=4.685, cauchy=2.385, fair=1.400, huber=1.345, logistic=1.205, ols=1, talwar=2.795, welsch=2.985)


def formula(ctx, wf, rf, w, r, ob, lev, tune=None):
    """after two iterations the weights are those of the ols residuals r (or
    one, if these did not improve the fit)"""
    if np.array_equal(w, np.ones(len(w))) and np.array_equal(rf["b"], rf["ols_b"]):
        return
    u = np.abs(r) / (np.median(np.abs(r)) / 0.6745) / ((tune or TUNE[wf]) * np.sqrt(1 - lev))
    want = weights(wf, u)
    sure = np.abs(u - 1) > 1e-6 if wf in ("bisquare", "talwar") else np.abs(u - np.pi) > 1e-6
    ctx.close(w[sure], want[sure], 1e-6, "weight function")


def direct(ctx, wf):
    from utide.robustfit import robustfit

    rng = ctx.rng
    n, k = int(rng.integers(40, 400)), int(rng.integers(1, 6))
    cplx = bool(rng.random() < 0.5)
    if rng.random() < 0.15:
        k, cplx = 1, False
        X = rng.uniform(1, 2, n)
        X2 = X[:, None]
    else:
        X = X2 = rng.normal(size=(n, k)) + (1j * rng.normal(size=(n, k)) if cplx else 0)
    b0 = rng.normal(size=k) + (1j * rng.normal(size=k) if cplx else 0)
    y = X2 @ b0 + 0.1 * (rng.normal(size=n) + (1j * rng.normal(size=n) if cplx else 0))
    bad = rng.random(n) < 0.04
    y = y + bad * 50
    kw = dict(weight_function=wf) if wf != "bisquare" or rng.random() < 0.5 else {}
    if rng.random() < 0.3:
        kw["maxit"] = int(rng.integers(1, 8))
    if rng.random() < 0.3:
        kw["tol"] = float(10 ** rng.uniform(-8, -1))
    ctx.event("robustfit", data=(n, k, cplx, wf, y[0]))
    ctx.describe(n=n, parameters=k, complex=cplx, options=kw)
    ctx.note("direct", f"complex={cplx}", "weights=" + wf, f"1-D X={X.ndim == 1}")
    Xc, yc = X.copy(), y.copy()
    rf = robustfit(X, y, **kw)
    ctx.check(np.array_equal(Xc, X) and np.array_equal(yc, y), "arguments unchanged")
    w = rf["w"]
    ctx.check(w.shape == (n,) and (w >= 0).all() and (w <= 1 + 1e-12).all(), "direct weights")
    r = y - X2 @ rf["b"]
    g = X2.conj().T @ (w**2 * r)
    ctx.close(np.abs(g), 0.0 * np.abs(g), 1e-9 * np.abs(X2).T @ (w**2 * np.abs(y)) + 1e-12, "direct stationary")
    ctx.close(rf["rms_resid"], np.sqrt(np.mean(np.abs(r) ** 2)), 1e-9 * np.abs(y).max(), "direct rms_resid")
    ob = np.linalg.lstsq(X2, y, rcond=None)[0]
    ctx.close(rf["ols_b"], ob, 1e-9 * np.abs(ob).max() + 1e-12, "direct ols_b")
    ctx.close(rf["leverage"], (np.abs(np.linalg.qr(X2)[0]) ** 2).sum(axis=1), 1e-9, "leverage")
    ctx.check(1 <= rf["iterations"] <= kw.get("maxit", 50), "iterations", rf["iterations"])
    two = {**kw, "maxit": 2, "tol": 1e-12}
    if rng.random() < 0.5:
        two["tune"] = TUNE[wf] * float(rng.uniform(0.5, 2))
    r2 = robustfit(X, y, **two)
    formula(ctx, wf, r2, r2["w"], y - X2 @ ob, ob, (np.abs(np.linalg.qr(X2)[0]) ** 2).sum(axis=1), two.get("tune"))
    ro = robustfit(X, y, weight_function="ols")
    ctx.close(ro["b"], ob, 1e-9 * np.abs(ob).max() + 1e-12, "direct ols weight function")
