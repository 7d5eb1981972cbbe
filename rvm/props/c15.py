"""C15 linearised confidence intervals."""
import numpy as np

from rvm import ref, spectra, work

CASES = {"quick": 840, "thorough": 10000}
TECHNIQUE = "model-based monitor (independent least squares, error propagation and spectra recomputed for each observed solution), metamorphic monitor (turned axes, listing order), and coverage counted over repeated noise"
RULE = "Random noisy records (scalar and vector; white and red noise of different levels and correlation in u and v; gaps; odd lengths; irregular; robust; scalar inference) whose intervals are recomputed independently, plus records with repeated noise whose intervals are counted against the known truth."
REQUIRED = ("white A_ci", "white g_ci", "white Lsmaj_ci", "white Lsmin_ci", "white theta_ci", "coloured A_ci", "coloured g_ci", "coloured Lsmaj_ci", "coloured Lsmin_ci", "coloured theta_ci", "finite and positive", "turned: Lsmaj_ci", "turned: theta_ci", "listing order: A_ci", "coverage white", "coverage coloured")
TIMEOUT = 400


def equally_spaced(t):
    return np.std(np.diff(t)) < 1e-9


def intervals(p, x, names, white, inf=None, w=None):
    """independent intervals: dict of arrays in the order of names (the analysed
    ones), and whether the spectral part is ambiguous"""
    bad = np.isnan(np.sum(x, axis=0))
    t = p.t[~bad]
    y = [c[~bad] for c in x]
    n = len(t)
    tin = p.t
    equi = equally_spaced(tin)
    span = np.ptp(tin) if equi else np.ptp(t)
    tref = 0.5 * (tin[0] + tin[-1]) if equi else 0.5 * (t[0] + t[-1])
    ng = len(tin) if equi else n
    if inf is None:
        E = ref.basis(names, t, tref, p.lat, p.nodal, p.phase)
    else:
        E = ref.basis(names, t, tref, p.lat, p.nodal, p.phase)
        EI = ref.basis(inf.inferred, t, tref, p.lat, p.nodal, p.phase)
        for k, r in enumerate(inf.reference):
            E[:, names.index(r)] += inf.Rp[k] * EI[:, k]
    D = ref.real_design(E, t, tref, p.trend, span)
    w = np.ones(n) if w is None else w
    Dw = D * w[:, None]
    nm = D.shape[1]
    C = np.linalg.inv(Dw.T @ Dw)
    nc = len(names)
    X, Y, VX, VY, res = [], [], [], [], []
    for c in y:
        b = np.linalg.lstsq(Dw, c * w, rcond=None)[0]
        e = w * (c - D @ b)
        s2 = e @ e / (n - nm)
        d = s2 * np.diag(C)
        X.append(b[:nc])
        Y.append(b[nc : 2 * nc])
        VX.append(d[:nc])
        VY.append(d[nc : 2 * nc])
        res.append(e)
    ambiguous = False
    if not white:
        e = res[0] + 1j * res[1] if len(res) == 2 else res[0]
        # reported frequencies, slowly varying, are those at the reference time
        fr = np.array([ref.freq(q, tref) for q in names])
        fall = fr if inf is None else np.r_[fr, [ref.freq(q, tref) for q in inf.inferred]]
        ts = t
        if equi:
            e = np.interp(tin, t, e.real) + (1j * np.interp(tin, t, e.imag) if len(res) == 2 else 0)
            ts = tin
        P, ambiguous = spectra.band_psd(ts, e, fall, equi)
        pw = spectra.at(fr, P) / (24 * span * ng / (ng - 1))
        for k in range(len(res)):
            tot = VX[k] + VY[k]
            VX[k] = VX[k] * pw[:, k] / tot
            VY[k] = VY[k] * pw[:, k] / tot
    return propagate(X, Y, VX, VY), ambiguous


def covariances(p, x, names, white):
    """(coefficients (n, 2d), their covariances (n, 2d, 2d), ambiguous): the
    cosine and sine coefficients of u, then of v, with all their correlations.
    With white=False as published: the power of u and of v is distributed as the
    variances, the co-spectrum as the covariances."""
    bad = np.isnan(np.sum(x, axis=0))
    t, y = p.t[~bad], np.array([c[~bad] for c in x])
    n, nc, d = len(t), len(names), len(x)
    tin = p.t
    equi = equally_spaced(tin)
    span = np.ptp(tin) if equi else np.ptp(t)
    tref = 0.5 * (tin[0] + tin[-1]) if equi else 0.5 * (t[0] + t[-1])
    D = ref.real_design(ref.basis(names, t, tref, p.lat, p.nodal, p.phase), t, tref, p.trend, span)
    b = np.linalg.lstsq(D, y.T, rcond=None)[0]
    e = y - (D @ b).T
    S = e @ e.T / (n - D.shape[1])
    C = np.linalg.inv(D.T @ D)
    M = np.zeros((nc, 2 * d))
    V = np.zeros((nc, 2 * d, 2 * d))
    for k in range(nc):
        ij = np.ix_([k, nc + k], [k, nc + k])
        M[k] = b[[k, nc + k]].T.ravel()
        V[k] = np.kron(S, C[ij])
    ambiguous = False
    if not white:
        fr = np.array([ref.freq(q, tref) for q in names])
        r, ts, ng = (e[0] + 1j * e[1] if d == 2 else e[0]), t, n
        if equi:
            ts, ng = tin, len(tin)
            r = np.interp(tin, t, r.real) + (1j * np.interp(tin, t, r.imag) if d == 2 else 0)
        P, ambiguous = spectra.band_psd(ts, r, fr, equi)
        pw = spectra.at(fr, P) / (24 * span * ng / (ng - 1))
        for k in range(nc):
            for q in range(d):
                B = V[k, 2 * q : 2 * q + 2, 2 * q : 2 * q + 2]
                B *= pw[k, q] / np.trace(B)
            if d == 2:
                # distributed as the covariances, with the sign of the co-spectrum
                B = C[np.ix_([k, nc + k], [k, nc + k])]
                B = B * pw[k, 2] / np.abs(B).sum()
                V[k, :2, 2:], V[k, 2:, :2] = B, B.T
            # nearest positive semidefinite matrix
            w, U = np.linalg.eigh(V[k]) if np.isfinite(V[k]).all() else (np.full(2 * d, np.nan), np.eye(2 * d))
            V[k] = (U * np.maximum(w, 0)) @ U.T
    return M, V, ambiguous


def propagate_all(M, V):
    """intervals by first-order propagation of full covariances"""
    k, deg = 1.96, 180 / np.pi
    if M.shape[1] == 2:
        a = np.hypot(M[:, 0], M[:, 1])
        J = {"A_ci": M / a[:, None], "g_ci": deg * np.stack([-M[:, 1], M[:, 0]], 1) / a[:, None] ** 2}
    else:
        xu, yu, xv, yv = M.T
        ap = ((xu + yv) + 1j * (xv - yu)) / 2
        am = ((xu - yv) + 1j * (xv + yu)) / 2
        dp = np.array([0.5, -0.5j, 0.5j, 0.5])
        dm = np.array([0.5, 0.5j, 0.5j, -0.5])
        lp = np.conj(ap)[:, None] * dp / np.abs(ap)[:, None]
        lm = np.conj(am)[:, None] * dm / np.abs(am)[:, None]
        fp, fm = lp.imag / np.abs(ap)[:, None], lm.imag / np.abs(am)[:, None]
        J = {"Lsmaj_ci": lp.real + lm.real, "Lsmin_ci": lp.real - lm.real, "theta_ci": deg * 0.5 * (fp + fm), "g_ci": deg * 0.5 * (fm - fp)}
    return {q: k * np.sqrt(np.einsum("ni,nij,nj->n", j, V, j)) for q, j in J.items()}


def propagate(X, Y, VX, VY):
    k = 1.96
    deg = 180 / np.pi
    with np.errstate(all="ignore"):
        if len(X) == 1:
            (x,), (y,), (vx,), (vy,) = X, Y, VX, VY
            a2 = x**2 + y**2
            return {
                "A_ci": k * np.sqrt((x**2 * vx + y**2 * vy) / a2),
                "g_ci": k * deg * np.sqrt((x**2 * vy + y**2 * vx) / a2**2),
            }
        (xu, xv), (yu, yv) = X, Y
        ap = ((xu + yv) + 1j * (xv - yu)) / 2
        am = ((xu - yv) + 1j * (xv + yu)) / 2
        out = {q: 0 for q in work.CIS2}
        # derivatives of ap and am in each coefficient
        for var, dp, dm in ((VX[0], 0.5, 0.5), (VY[0], -0.5j, 0.5j), (VX[1], 0.5j, 0.5j), (VY[1], 0.5, -0.5)):
            lp, lm = (np.conj(ap) * dp) / np.abs(ap), (np.conj(am) * dm) / np.abs(am)
            fp, fm = lp.imag / np.abs(ap), lm.imag / np.abs(am)
            out["Lsmaj_ci"] = out["Lsmaj_ci"] + var * (lp.real + lm.real) ** 2
            out["Lsmin_ci"] = out["Lsmin_ci"] + var * (lp.real - lm.real) ** 2
            out["theta_ci"] = out["theta_ci"] + var * (0.5 * (fp + fm)) ** 2
            out["g_ci"] = out["g_ci"] + var * (0.5 * (fm - fp)) ** 2
        return {q: k * np.sqrt(v) * (deg if q in ("theta_ci", "g_ci") else 1) for q, v in out.items()}


def correlated(rng, p, x):
    """noise of different levels in u and v, correlated"""
    a = rng.normal(size=len(p.t)) * p.scale * 10 ** rng.uniform(-2.5, -0.5)
    th = rng.uniform(0, np.pi)
    return [c + a * q for c, q in zip(x, (np.cos(th), np.sin(th)))]


def run_case(ctx):
    rng = ctx.rng
    if ctx.idx % 12 == 5:
        return coverage(ctx, white=ctx.idx % 24 == 5)
    kw = dict(nmax=500)
    if ctx.idx % 15 == 4:
        kw = dict(nmax=3500, span=float(rng.uniform(30, 140)), dt=1 / 24)
    if ctx.idx % 15 == 9:
        kw = dict(few=True)
    if ctx.idx % 53 == 4:
        kw = work.large(rng)
    p = work.Problem(rng, maxcond=30, noise=work.pick(rng, [0.02, 0.1, 0.4]), style="any", **kw)
    p.tell(ctx)
    white = bool(ctx.idx % 2)
    S = p.magnitude()
    x = p.x if rng.random() < 0.5 else correlated(rng, p, p.x)
    opts = dict(p.opts, conf_int="linear", white=white)
    if rng.random() < 0.3 or (p.kind == "regular" and rng.random() < 0.3):
        miss = rng.random(len(p.t)) < (0.15 if rng.random() < 0.7 else rng.uniform(0.3, 0.8))
        if len(p.t) - miss.sum() < 3.5 * p.D.shape[1]:
            miss = rng.random(len(p.t)) < 0.15
        miss[[0, 1, -2, -1]] = False
        if p.kind == "regular" and rng.random() < 0.4:
            # up to an eighth at either end, over which the residual continues
            k = rng.integers(0, max(2, len(miss) // 8), 2)
            miss[: k[0]] = True
            miss[len(miss) - k[1] :] = True
            ctx.note("missing at the ends")
        x = [np.where(miss, np.nan, c) for c in x]
        ctx.note("missing values")
    if rng.random() < 0.15 and 4 * p.D.shape[1] < np.isfinite(sum(x)).sum() < 5000:
        opts["method"] = "robust"  # with enough observations not to be singular
    inf = None
    if rng.random() < 0.2:
        inf = work.add_inference(rng, p)
        if inf and p.dim == 2:  # a relation between u's, and the same between v's
            m = len(inf.inferred)
            inf = work.Infer(inf.inferred, inf.reference, np.tile(inf.ratios[:m], 2), np.tile(inf.offsets[:m], 2), 2)
        if inf:
            Ep, Em, _ = work.infer_design(p, inf)
            if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) > 100:
                inf = None
        if inf:
            opts["infer"] = inf.spec()
    ctx.note(f"white={white}", f"infer={bool(inf)}", f"method={opts.get('method', 'ols')}")

    def run(x, **over):
        return ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **{**opts, **over})

    c = run(x)
    names = list(p.names)
    w = c["weights"] if opts.get("method") == "robust" else None
    want, ambiguous = intervals(p, x, names, white, inf, w)
    tag = "white " if white else "coloured "
    z = np.abs(work.zz(c, names))
    big = z.max(axis=1) > 1e-9 * S
    small = z.min(axis=1) > 1e-6 * z.max(axis=1)  # away from circular
    if not ambiguous:
        for k in work.cis(c):
            got = work.get(c, k, names)
            ok = np.isfinite(want[k]) & big & small
            # nearly circular ellipses amplify rounding errors of the axes
            rel = 1e-5 + 1e-9 * (z.max(axis=1) / np.where(z.min(axis=1) > 0, z.min(axis=1), 1)) + 1e-11 * (S / z.max(axis=1)) ** 1
            ctx.close(got[ok], want[k][ok], (rel * want[k])[ok], tag + k, [q for q, o in zip(names, ok) if o])
            fin = ok & (want[k] > 1e-12 * (1 if k in ("g_ci", "theta_ci") else S))
            ctx.check(np.isfinite(got[fin]).all() and (got[fin] > 0).all(), "finite and positive", k)
    # listing order
    if rng.random() < 0.5:
        d = run(x, constit=[str(q) for q in rng.permutation(names)])
        for k in work.cis(c):
            a = work.get(c, k, names)
            ctx.close(work.get(d, k, names)[big], a[big], 1e-5 * a[big] + 1e-300, "listing order: " + k)
    # a quarter turn of the axes
    if p.dim == 2 and opts.get("method") != "robust":
        d = run([-x[1], x[0]])
        for k in work.cis(c):
            a = work.get(c, k, names)
            ok = big & small
            ctx.close(work.get(d, k, names)[ok], a[ok], 1e-5 * a[ok] + 1e-300, "turned: " + k)


def coverage(ctx, white):
    """fraction of true values within the intervals, over repeated noise"""
    rng = ctx.rng
    p = work.Problem(rng, nmax=500, nmin=250, kind="regular" if not white else None, dt=1 / 24, span=float(rng.uniform(11, 20)), ncon=3, pool=["M2", "K1", "M4", "O1", "S2", "M6", "MS4", "N2"], maxcond=2.5, noise=0, scale=1.0)
    p.tell(ctx)
    n = len(p.t)
    names = list(p.names)
    # comparable, well-determined amplitudes; not nearly circular or rectilinear
    nc = len(names)
    if p.dim == 1:
        p.z = (rng.uniform(0.6, 1, nc) * np.exp(2j * np.pi * rng.random(nc)))[:, None]
    else:
        p.z = work.ellipse_to_rotary(rng.uniform(0.7, 1, nc), rng.uniform(-0.4, 0.4, nc), rng.uniform(0, 180, nc), rng.uniform(0, 360, nc))
    clean = p.model(p.t)
    lev = [0.15, 0.15 * float(work.pick(rng, [1, 0.4, 2]))]
    ph = 0.0 if white else float(work.pick(rng, [0.0, 0.5]))
    reps = 80 if ctx.tier == "quick" else 250
    hit, tot = {}, {}
    truth = None
    for r in range(reps):
        x = []
        for k, c in enumerate(clean):
            e = rng.normal(size=n + 50)
            if ph:
                for i in range(1, n + 50):
                    e[i] += ph * e[i - 1]
                e *= np.sqrt(1 - ph**2)
            x.append(c + lev[k] * e[50:])
        c = ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, white=white, **p.opts)
        if truth is None:
            truth = {}
            if p.dim == 1:
                truth["A"], truth["g"] = np.abs(p.z[:, 0]), -np.degrees(np.angle(p.z[:, 0]))
            else:
                ap, am = p.z.T
                truth["Lsmaj"], truth["Lsmin"] = np.abs(ap) + np.abs(am), np.abs(ap) - np.abs(am)
                truth["theta"] = np.degrees(np.angle(ap) + np.angle(am)) / 2
                truth["g"] = truth["theta"] - np.degrees(np.angle(ap))
        th = None
        for k in truth:
            d = work.get(c, k, names) - truth[k]
            if k == "theta":
                th = np.round(d / 180)
                d = d - 180 * th
            elif k == "g":
                # a turn of the ellipse by 180 degrees turns the phase as well
                d = (d + 90) % 180 - 90 if p.dim == 2 else (d + 180) % 360 - 180
            ok = np.abs(d) <= work.get(c, k + "_ci", names)
            hit[k] = hit.get(k, 0) + ok.sum()
            tot[k] = tot.get(k, 0) + ok.size
    f = sum(hit.values()) / sum(tot.values())
    ctx.note("coverage", f"noise={'white' if not ph else 'red'}")
    ctx.describe(coverage={k: round(hit[k] / tot[k], 3) for k in hit}, repeats=reps)
    what = "coverage " + ("white" if white else "coloured")
    # the published spectral formula gives each of u and v the power of one bin,
    # half the least-squares variance of white noise: coverage 0.72 to 0.85 here
    lo, hi = (0.90, 0.987) if white else (0.62, 0.995)
    ctx.check(lo <= f <= hi, what, f"{f:.3f} of the true values are within the intervals")
    for k in hit:
        ctx.check(hit[k] / tot[k] >= lo - 0.05, what, f"{k}: {hit[k] / tot[k]:.3f}")
    mid = 0.95 if white else 0.8
    ctx.worst[what + " deviation"] = max(ctx.worst.get(what + " deviation", 0), abs(f - mid) / (mid - lo))
