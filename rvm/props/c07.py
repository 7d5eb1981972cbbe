"""C07 equivariance under linear changes of the data."""
import numpy as np

from rvm import work

CASES = {"quick": 800, "thorough": 10000}
TECHNIQUE = "metamorphic monitor over paired executions (scaled, shifted, ramped, summed records)"
RULE = "Random noisy records (some robust, some with missing values) are analysed together with their multiples, with constants, ramps, other records and their own predictions added."
REQUIRED = ("scaled: amplitudes", "scaled: ci A_ci", "scaled: ci Lsmaj_ci", "constant: amplitudes", "ramp: slope", "sum: amplitudes", "own prediction: noise level", "scaled: PE", "scaled: SNR")
ANG = ("g_ci", "theta_ci")


def run_case(ctx):
    rng = ctx.rng
    p = work.Problem(rng, maxcond=60, **(work.large(rng, 25000) if ctx.idx % 57 == 4 else dict(nmax=700)))
    p.tell(ctx)
    opts = p.opts
    opts["conf_int"] = work.pick(rng, ["linear", "linear", "none"])
    opts["white"] = bool(rng.random() < 0.5)
    robust = rng.random() < 0.2 and len(p.t) < 5000
    if robust:
        opts["method"] = "robust"
    inf = work.add_inference(rng, p) if rng.random() < 0.2 else None
    if inf:
        Ep, Em, _ = work.infer_design(p, inf)
        if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) > 100:
            inf = None
    if inf:
        inf.approximate = bool(rng.random() < 0.3)
        opts["infer"] = inf.spec()
    names = p.names + (inf.inferred if inf else [])
    names = list(dict.fromkeys(names))
    x = np.array(p.x)
    if rng.random() < 0.3:
        x[:, 1:-1][:, rng.random(len(p.t) - 2) < 0.1] = np.nan
        ctx.note("missing values")
    ctx.note(f"method={opts.get('method', 'ols')}", f"infer={bool(inf)}")

    def run(y):
        return ctx.solve(p.t, y[0], y[1] if p.dim == 2 else None, p.lat, **opts)

    base = run(x)
    S = p.magnitude()
    z, m, s = work.zz(base, names), work.means(base), work.slopes(base)

    def ci_same(c, what, cscale=1.0, gscale=1.0, rel=1e-5):
        for k in work.cis(base):
            if k in base:
                f = gscale if k in ANG else cscale
                a = work.get(base, k, names) * f
                ctx.close(work.get(c, k, names), a, rel * np.abs(a) + 1e-300, f"{what}: ci {k}", names)

    # scaling
    for c in [-1.0, work.pick(rng, [2.0, 0.5, -4.0, 2.0**-40, 2.0**40]) if robust else work.pick(rng, [10.0, 0.01, -3.7, 1e-9, 1e9, -1e6, 1000.0, 39.3701])]:
        b = run(c * x)
        ctx.close(work.zz(b, names), c * z, 1e-9 * S * abs(c), "scaled: amplitudes", names)
        ctx.close(work.means(b), c * m, 1e-9 * S * abs(c), "scaled: mean")
        ctx.close(work.slopes(b), c * s, 1e-9 * S * abs(c), "scaled: slope")
        ci_same(b, "scaled", cscale=abs(c))
        pe = work.get(base, "PE", names)
        ctx.close(work.get(b, "PE", names), pe, 1e-6 * pe + 1e-12, "scaled: PE", names)
        if "SNR" in base:
            sn = work.get(base, "SNR", names)
            ctx.close(work.get(b, "SNR", names), sn, 1e-5 * sn + 1e-300, "scaled: SNR", names)
            ctx.check("SNR" in b, "scaled: has SNR")
        if p.dim == 1 and c < 0:
            d = (work.get(b, "g", names) - work.get(base, "g", names)) % 360
            big = np.abs(z[:, 0]) > 1e-6 * S
            ctx.close(d[big], 180 + 0 * d[big], 1e-3, "sign flip turns phases by 180", names)
    # additions (robust iterations may differ by a rounding error in a weight)
    loose = 1e-8 * S if robust else 0
    K = rng.normal(size=p.dim) * S * work.pick(rng, [1.0, 10.0, 100.0])
    b = run(x + K[:, None])
    tol = 1e-10 * (S + np.abs(K).max()) * p.cond + loose
    ctx.close(work.zz(b, names), z, tol, "constant: amplitudes", names)
    ctx.close(work.means(b), m + K, tol, "constant: mean")
    ctx.close(work.slopes(b), s, tol, "constant: slope")
    ci_same(b, "constant", rel=2e-4)
    if p.trend:
        a = rng.normal(size=p.dim) * S / p.lor * work.pick(rng, [1.0, 5.0])
        t0 = p.t[0]
        b = run(x + a[:, None] * (p.t - t0))
        tol = 1e-10 * (S + np.abs(a).max() * p.lor) * p.cond + loose
        ctx.close(work.zz(b, names), z, tol, "ramp: amplitudes", names)
        ctx.close(work.slopes(b) * p.lor, (s + a) * p.lor, tol, "ramp: slope")
        ctx.close(work.means(b), m + a * (float(base["aux"]["reftime"]) - t0), tol, "ramp: mean")
        ci_same(b, "ramp", rel=2e-4)
    if robust:
        return
    # superposition with anything
    y = rng.normal(size=x.shape) * S + S * np.sin(np.arange(len(p.t)) ** 1.1)
    y = np.where(np.isnan(x), np.nan, y)
    cy = run(y)
    cs = run(x + y)
    tol = 1e-10 * 4 * S * p.cond
    ctx.close(work.zz(cs, names), z + work.zz(cy, names), tol, "sum: amplitudes", names)
    ctx.close(work.means(cs), m + work.means(cy), tol, "sum: mean")
    ctx.close(work.slopes(cs) * p.lor, (s + work.slopes(cy)) * p.lor, tol, "sum: slope")
    # adding the record's own prediction doubles the tide, not the noise
    # (in 2-D inference the pseudo-variance of the published estimator mixes in
    # the signal, so the claim excludes it)
    if opts["conf_int"] == "linear" and not (inf and (inf.approximate or p.dim == 2)):
        P = np.array(work.series(ctx.reconstruct(p.t, base, epoch="python", min_SNR=0)))
        b = run(x + P)
        ctx.close(work.zz(b, names), 2 * z, 1e-9 * 4 * S * p.cond, "own prediction: amplitudes", names)
        for k in work.cis(base):
            f = 0.5 if k in ANG else 1.0
            a = work.get(base, k, names) * f
            ctx.close(work.get(b, k, names), a, 1e-4 * np.abs(a) + 1e-300, "own prediction: noise level", names)
