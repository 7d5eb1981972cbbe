"""C08 geometry of vector solutions."""
import numpy as np

from rvm import guest, work

CASES = {"quick": 1080, "thorough": 12000}
TECHNIQUE = "metamorphic monitor over paired executions (rotated, reflected, component records) and an online invariant on every solution"
RULE = "Random vector records of every ellipse style are analysed with rotations, reflections and exchanges of the axes, and component by component."
REQUIRED = ("rotated: amplitudes", "reflected: amplitudes", "u component", "v component", "canonical Lsmaj", "rotated: theta", "reflected: Lsmin")


def canonical(ctx, c):
    if "Lsmaj" in c:
        ctx.check((c["Lsmaj"] >= np.abs(c["Lsmin"])).all(), "canonical Lsmaj")
        ctx.check(((c["theta"] >= 0) & (c["theta"] <= 180)).all(), "canonical theta", c["theta"])
    else:
        ctx.check((c["A"] >= 0).all(), "canonical A")
    ctx.check(((c["g"] >= 0) & (c["g"] <= 360)).all(), "canonical g", c["g"])


def guests(ctx, what, fn, a, kw):
    r = fn(*a, **kw)
    if what == "solve" and np.isfinite(work.ref.amplitudes(r)).all():
        canonical(ctx, r)
    return r


def run_case(ctx):
    rng = ctx.rng
    if ctx.idx % 9 == 8:
        return guest.run(ctx, lambda *a: guests(ctx, *a))
    p = work.Problem(rng, dim=2, maxcond=60, noise=work.pick(rng, [0, 0.05, 0.3]), **(work.large(rng, 25000) if ctx.idx % 61 == 4 else dict(nmax=700)))
    p.tell(ctx)
    ctx.note("style=" + p.style)
    opts = p.opts
    opts["conf_int"] = work.pick(rng, ["none", "linear"])
    inf = None
    if rng.random() < 0.2:
        # for a rotation to keep the relation the rotary ratios must not involve
        # the axes: true of the rotary formulation
        inf = work.add_inference(rng, p)
        if inf:
            Ep, Em, _ = work.infer_design(p, inf)
            if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) > 100:
                inf = None
        if inf:
            inf.approximate = bool(rng.random() < 0.3)
            opts["infer"] = inf.spec()
    robust = p.sigma > 0 and rng.random() < 0.2 and len(p.t) < 5000
    if robust:
        opts["method"] = "robust"
        if rng.random() < 0.5:
            opts["robust_kw"] = {"weight_function": work.pick(rng, ["cauchy", "huber", "bisquare", "fair", "welsch"])}
        ctx.note("robust")
    names = list(dict.fromkeys(p.names + (inf.inferred if inf else [])))
    u, v = np.array(p.x)
    q = rng.random()
    if q < 0.06:
        v = np.zeros_like(v)
        ctx.note("v=0")
    elif q < 0.12:
        u = np.zeros_like(u)
        ctx.note("u=0")
    elif q < 0.18:
        v = u.copy()
        ctx.note("u=v")
    if rng.random() < 0.3:
        miss = rng.random(len(u)) < 0.1
        miss[[0, -1]] = False
        u = np.where(miss, np.nan, u)
        v = np.where(miss, np.nan, v)
        ctx.note("missing values")

    def run(a, b):
        c = ctx.solve(p.t, a, b, p.lat, **opts)
        canonical(ctx, c)
        return c

    base = run(u, v)
    S = p.magnitude()
    tol = 1e-9 * S * p.cond * (30 if robust else 1)
    z = work.zz(base, names)
    w = u + 1j * v
    m = complex(*work.means(base))
    s = complex(*work.slopes(base))
    Ap, Am = np.abs(z).T
    ellip = np.minimum(Ap, Am) > 1e-4 * S

    phi = work.pick(rng, [rng.uniform(0, 360), 30.0, 90.0, 180.0, 270.0, 1.0])
    r = np.exp(1j * np.radians(phi))
    c = run((w * r).real, (w * r).imag)
    ctx.close(work.zz(c, names), z * r, tol, "rotated: amplitudes", names)
    ctx.close(complex(*work.means(c)), m * r, tol, "rotated: mean")
    ctx.close(complex(*work.slopes(c)) * p.lor, s * r * p.lor, tol, "rotated: slope")
    for k in ("Lsmaj", "Lsmin"):
        ctx.close(work.get(c, k, names), work.get(base, k, names), tol, "rotated: " + k, names)
    pe = work.get(base, "PE", names)
    ctx.close(work.get(c, "PE", names), pe, 1e-6 * pe + 1e-9, "rotated: PE", names)
    d = work.get(c, "theta", names) - work.get(base, "theta", names) - phi
    d = (d + 90) % 180 - 90
    ctx.close(d[ellip], 0 * d[ellip], 1e-3, "rotated: theta", np.array(names)[ellip])

    if inf is None:
        # reflections: v -> -v, u -> -u, exchange of the axes
        for what, wr, zr, mr, sr in (
            ("reflected", np.conj(w), np.conj(z[:, ::-1]), np.conj(m), np.conj(s)),
            ("reflected in y", -np.conj(w), -np.conj(z[:, ::-1]), -np.conj(m), -np.conj(s)),
            ("axes exchanged", 1j * np.conj(w), 1j * np.conj(z[:, ::-1]), 1j * np.conj(m), 1j * np.conj(s)),
        ):
            if what != "reflected" and rng.random() < 0.6:
                continue
            c = run(wr.real, wr.imag)
            ctx.close(work.zz(c, names), zr, tol, what + ": amplitudes", names)
            ctx.close(work.get(c, "Lsmaj", names), work.get(base, "Lsmaj", names), tol, what + ": Lsmaj", names)
            ctx.close(work.get(c, "Lsmin", names), -work.get(base, "Lsmin", names), tol, what + ": Lsmin", names)
            ctx.close(complex(*work.means(c)), mr, tol, what + ": mean")
            ctx.close(complex(*work.slopes(c)) * p.lor, sr * p.lor, tol, what + ": slope")
        # components
        if robust:
            return
        for what, comp, zc, mc, sc in (
            ("u component", u, z[:, 0] + np.conj(z[:, 1]), m.real, s.real),
            ("v component", v, -1j * (z[:, 0] - np.conj(z[:, 1])), m.imag, s.imag),
        ):
            c = ctx.solve(p.t, comp, None, p.lat, **opts)
            canonical(ctx, c)
            ctx.close(work.zz(c, names)[:, 0], zc, tol, what, names)
            ctx.close(work.means(c)[0], mc, tol, what + ": mean")
            ctx.close(work.slopes(c)[0] * p.lor, sc * p.lor, tol, what + ": slope")
            # predictions too
            tt = p.t[:: max(1, len(p.t) // 10)]
            a = work.series(ctx.reconstruct(tt, base, epoch="python", min_SNR=0))["uv".index(what[0])]
            b = work.series(ctx.reconstruct(tt, c, epoch="python", min_SNR=0))[0]
            ctx.close(a, b, 10 * tol, what + ": prediction")
