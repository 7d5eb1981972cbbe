"""C16 Monte Carlo confidence intervals."""
import numpy as np

from rvm import work
from rvm.props.c15 import correlated, covariances, propagate_all

CASES = {"quick": 800, "thorough": 8000}
TECHNIQUE = "repeated-execution monitor: solutions recorded under many random states compared with each other, with an independent first-order propagation of the full covariances and with the linearised intervals (averaged over states, with a bound from the sampling error of 200 realisations) and with the same residuals rescaled"
RULE = "Random noisy scalar and vector records (white and band-averaged spectra, all sampling kinds, gaps, orientations and phases put at the 0/90/180/360 degree wraps), each solved under several random states and interval methods."
REQUIRED = ("finite", "non-negative", "same seed: all", "any seed: amplitudes", "linear: amplitudes", "none: amplitudes", "any seed: slope", "scalar A_ci near linear", "scalar g_ci near linear", "vector Lsmaj_ci near linear", "vector Lsmin_ci near linear", "vector theta_ci near linear", "vector g_ci near linear", "scalar A_ci near propagated", "scalar coloured A_ci near propagated", "scalar coloured g_ci near propagated", "vector Lsmaj_ci near propagated", "vector coloured Lsmaj_ci near propagated", "vector coloured theta_ci near propagated", "vector coloured g_ci near propagated", "mirror: Lsmaj_ci", "turned: Lsmin_ci", "turned: theta_ci", "proportional", "seeds differ", "positive", "one-dimensional noise: finite", "one-dimensional noise: white", "one-dimensional noise: coloured")
ASSUMPTIONS = ["well-determined: relative standard error of the smaller rotary component below 0.1; the comparison with conf_int=linear, which leaves correlations out, is made for uncorrelated white noise of equal level in u and v"]
TIMEOUT = 300


def solve(ctx, p, x, seed, **over):
    np.random.seed(seed)
    return ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **{**p.opts, "conf_int": "MC", **over})


def run_case(ctx):
    rng = ctx.rng
    mode = ctx.idx % 3
    if mode == 0:
        return states(ctx)
    near(ctx, scaled=mode == 2)


def states(ctx):
    rng = ctx.rng
    short = rng.random() < 0.25  # bands without any spectral estimate
    p = work.Problem(rng, maxcond=60, **(dict(nmax=300, span=float(rng.uniform(0.8, 3)), dt=1 / 144, kind="regular") if short else dict(nmax=500)))
    p.tell(ctx)
    white = bool(rng.random() < (0.2 if short else 0.5))
    ctx.note(f"short={short}")
    robust = rng.random() < 0.15
    S = p.magnitude()
    x = [c.copy() for c in p.x]
    if rng.random() < 0.3:
        miss = rng.random(len(p.t)) < 0.1
        miss[[0, 1, -2, -1]] = False
        for c in x:
            c[miss] = np.nan
        ctx.note("missing values")
    kw = dict(white=white, **({"method": "robust"} if robust else {}))
    o = work.pick(rng, ["PE", "frequency", "SNR", list(p.names)])
    kw["order_constit"] = o
    ctx.note(f"white={white}", f"robust={robust}", f"order={o if isinstance(o, str) else 'names'}")
    s1, s2 = (int(q) for q in rng.integers(2**31, size=2))
    a, b, c = (solve(ctx, p, x, s, **kw) for s in (s1, s1, s2))
    for d in (a, c):
        for k in work.cis(d):
            q = work.get(d, k, p.names)
            # constituents outside all bands have no spectral estimate
            ok = np.isfinite(q)
            if white:
                ctx.check(ok.all(), "finite", f"{k} {q}")
            else:
                ref = ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **{**p.opts, **kw, "conf_int": "linear", "order_constit": list(p.names)})
                okl = np.isfinite(ref["g_ci"])
                ctx.check(ok[okl].all(), "finite", f"{k} {q}")
            ctx.check((q[ok] >= 0).all(), "non-negative", k)
    for k in a:
        if isinstance(a[k], np.ndarray) and a[k].dtype.kind == "f":
            ctx.same(b[k], a[k], "same seed: all")
    ctx.check(list(a["name"]) == list(b["name"]), "same seed: names")
    differ = [not np.array_equal(work.get(a, k, p.names), work.get(c, k, p.names), equal_nan=True) for k in work.cis(a)]
    if np.isfinite(a["g_ci"]).any() and p.sigma:
        ctx.check(all(differ), "seeds differ")
    e = ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **{**p.opts, **kw, "conf_int": "linear"})
    f = ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **{**p.opts, **kw, "conf_int": "none", "order_constit": None})
    for nm, d in (("any seed", c), ("linear", e), ("none", f)):
        work.same_solution(ctx, a, d, nm, S, tol=1e-12 if nm == "any seed" else 1e-10, ci=False)


def near(ctx, scaled):
    rng = ctx.rng
    dim = 1 + (ctx.idx // 3) % 2
    p = work.Problem(rng, dim=dim, nmax=600, nmin=250, ncon=int(rng.integers(1, 6)), maxcond=2.2, noise=0, scale=float(10 ** rng.uniform(-1, 2)))
    if ctx.idx % 4 < 2:  # sampled in a part of the cycle only: correlated coefficients
        f = work.ref.FREQ[work.ref.INDEX[work.pick(rng, p.names)]] * 24
        keep = ((p.t - p.t[0]) * f + rng.random()) % 1 < rng.uniform(0.45, 0.75)
        if keep.sum() > 120:
            t0 = p.t
            p.restrict(keep)
            if p.cond > 25 or p.lor < 0.8 * np.ptp(t0):
                ctx.skip("sampling too one-sided")
            ctx.note("one-sided sampling")
            p.kind = "one-sided " + p.kind
    n, nc = len(p.t), len(p.names)
    amp = rng.uniform(0.5, 1, nc) * p.scale
    wrap = rng.random(nc) < 0.6
    g = np.where(wrap, rng.choice([0, 180, 359.9999, 1e-4, 90, 270], nc), rng.uniform(0, 360, nc)) + rng.normal(size=nc) * rng.choice([0, 0.5])
    if dim == 1:
        p.z = (amp * np.exp(-1j * np.radians(g)))[:, None]
    else:
        th = np.where(wrap, rng.choice([0, 1e-4, 179.9999, 90, 45], nc), rng.uniform(0, 180, nc)) + rng.normal(size=nc) * rng.choice([0, 0.5])
        p.z = work.ellipse_to_rotary(amp, amp * rng.uniform(-0.55, 0.55, nc), th, g)
    clean = p.model(p.t)
    lev = p.scale * float(10 ** rng.uniform(-3, -0.7))
    lev = min(lev, 0.03 * p.scale * np.sqrt(n))
    res = [lev * rng.normal(size=n) for _ in clean]
    x = [c + e for c, e in zip(clean, res)]
    corr = bool(rng.random() < 0.4)
    degenerate = dim == 2 and rng.random() < 0.12
    if degenerate:  # the same noise in both components, or in one of them only
        corr = True
        a = float(work.pick(rng, [0.0, np.pi / 2, rng.uniform(0, np.pi)]))
        x = [c + q * res[0] for c, q in zip(clean, (np.cos(a), np.sin(a)))]
        if rng.random() < 0.3:  # no tide there either
            x = [np.where(abs(q) < 1e-9, 1.5 * p.scale, c) for c, q in zip(x, (np.cos(a), np.sin(a)))]
        ctx.note("one-dimensional noise")
    elif corr:
        x = correlated(rng, p, x) if rng.random() < 0.5 else [c + q * e for c, e, q in zip(clean, res, (1, rng.uniform(0.2, 1)))]
    p.sigma = lev
    if rng.random() < 0.25:
        miss = rng.random(n) < rng.uniform(0.01, 0.1)
        if p.kind == "regular" and rng.random() < 0.5:
            miss[: int(rng.integers(1, n // 20))] = True
        else:
            miss[[0, 1, -2, -1]] = False
        x[-1] = np.where(miss, np.nan, x[-1])
        ctx.note("missing values")
    p.tell(ctx)
    white = bool(rng.random() < 0.6)
    ctx.note(f"white={white}", f"wrapped={int(wrap.sum())}", "noise=" + str(int(np.floor(np.log10(lev / p.scale)))))
    ctx.describe(noise_over_scale=lev / p.scale)
    names = list(p.names)
    K = 5
    seeds = [int(q) for q in rng.integers(2**31, size=K)]
    lin = ctx.solve(p.t, x[0], x[1] if dim == 2 else None, p.lat, **{**p.opts, "white": white, "conf_int": "linear"})
    mc = [solve(ctx, p, x, s, white=white) for s in seeds]
    M, V, ambiguous = covariances(p, x, names, white)
    want = propagate_all(M, V)
    if ambiguous:
        ctx.skip("ambiguous bins")
    # relative error of the smaller rotary component governs the linearisation
    if dim == 1:
        rel = want["A_ci"] / 1.96 / work.get(lin, "A", names)
    else:
        small = work.get(lin, "Lsmaj", names) - np.abs(work.get(lin, "Lsmin", names))
        rel = np.sqrt(np.trace(V, axis1=1, axis2=2)) / small
    good = np.isfinite(rel) & (rel < 0.1) & (np.trace(V, axis1=1, axis2=2) > 0)
    if not good.any():
        ctx.skip("no well-determined constituent")
    if degenerate:
        one_dimensional(ctx, mc, lin, want, names, good, white)
        return
    for k in work.cis(lin):
        q = np.array([work.get(d, k, names) for d in mc])[:, good]
        ctx.check(np.isfinite(q).all() and (q > 0).all(), "positive", k)
        r = np.mean(np.log(q / want[k][good]), axis=0)
        tag = ("scalar " if dim == 1 else "vector ") + ("" if white else "coloured ") + k
        ctx.close(r, 0 * r, 0.26, tag + " near propagated", np.array(names)[good])
        if white and not corr and p.cond < 2.3:
            r = np.mean(np.log(q / work.get(lin, k, names)[good]), axis=0)
            ctx.close(r, 0 * r, 0.4, tag + " near linear", np.array(names)[good])
    if dim == 2:
        # seen in a mirror, or from axes turned by a right angle: the same intervals
        how = work.pick(rng, ["mirror", "turned"])
        y = [x[0], -x[1]] if how == "mirror" else [-x[1], x[0]]
        ms = [solve(ctx, p, y, s, white=white) for s in seeds]
        for k in work.cis(lin):
            q = np.array([work.get(d, k, names) for d in mc])[:, good]
            s = np.array([work.get(d, k, names) for d in ms])[:, good]
            r = np.mean(np.log(s / q), axis=0)
            ctx.close(r, 0 * r, 0.4, how + ": " + k, np.array(names)[good])
    if scaled:
        # the same residuals, rescaled about the fit
        out = ctx.reconstruct(p.t, lin, epoch="python", min_SNR=0)
        fit = work.series(out)
        f = float(work.pick(rng, [0.1, 0.25, 0.01, 1e-3]))
        y = [a + f * (b - a) for a, b in zip(fit, x)]  # missing ones remain so
        ms = [solve(ctx, p, y, s, white=white) for s in seeds]
        for k in work.cis(lin):
            q = np.array([work.get(d, k, names) for d in mc])[:, good]
            s = np.array([work.get(d, k, names) for d in ms])[:, good]
            r = np.mean(np.log(s / q), axis=0) - np.log(f)
            ctx.close(r, 0 * r, 0.4, "proportional", np.array(names)[good])


def one_dimensional(ctx, mc, lin, want, names, good, white):
    """noise along one direction: some intervals vanish, the others are as ever"""
    tag = "one-dimensional noise: "
    for k in work.cis(lin):
        for d in mc + [lin]:
            q = work.get(d, k, names)
            ctx.check((np.isfinite(q) & (q >= 0))[good].all(), tag + "finite", k)
    deg = np.pi / 180
    big = work.get(lin, "Lsmaj", names)
    top = np.max([want["Lsmaj_ci"], want["Lsmin_ci"], deg * big * want["g_ci"], deg * big * want["theta_ci"]], axis=0)
    for k in work.cis(lin):
        size = want[k] * (deg * big if k in ("g_ci", "theta_ci") else 1)
        ok = good & (size > 0.05 * top)
        if ok.any():
            q = np.array([work.get(d, k, names) for d in mc])[:, ok]
            r = np.mean(np.log(q / want[k][ok]), axis=0)
            ctx.close(r, 0 * r, 0.4, tag + ("white" if white else "coloured"), np.array(names)[ok])
