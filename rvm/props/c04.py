"""C04 the ols residual is orthogonal to every component of the fitted model."""
import numpy as np

from rvm import ref, work

CASES = {"quick": 960, "thorough": 12000}
RULE = "Noisy random records, some with missing values, some with exact inference, all options; the residual of the package's own full prediction is projected on the independent model's components (for inference, on the constrained combinations)."
REQUIRED = ("orthogonal to the constituents", "orthogonal to the mean", "weights are one", "sum of squares")


def run_case(ctx):
    rng = ctx.rng
    kw = {}
    k = ctx.idx % 12
    if k == 0:
        kw = dict(nmax=6000, ncon=40, span=300.0, dt=1 / 24)
    elif k == 1:
        kw = dict(scale=float(10 ** rng.uniform(-7, 7)))
    if ctx.idx % 40 == 5:
        kw = work.large(rng)
    elif ctx.idx % 60 == 7:
        kw = dict(nmax=9000, nmin=8000, kind="regular", span=350.0, dt=1 / 24, ncon=70, pool=work.USABLE)
    elif ctx.idx % 30 == 14:
        kw = dict(mincond=700, maxcond=3e4, nmin=150, nmax=600, pool=work.MAIN)
        ctx.note("barely resolved")
    j = ctx.idx // 12 + ctx.idx
    p = work.Problem(rng, phase=work.PHASES[j % 3], nodal=work.NODALS[(j // 3) % 3], trend=bool((j // 9) % 2), **kw)
    opts = dict(p.opts)
    inf = None
    if rng.random() < 0.35:
        inf = work.add_inference(rng, p)
        if inf:
            Ep, Em, names = work.infer_design(p, inf)
            if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) > 300:
                inf = None
    if inf:
        inf.approximate = work.pick(rng, [None, False])
        opts["infer"] = inf.spec()
    p.tell(ctx)
    ctx.note("infer=%s" % bool(inf))
    opts["conf_int"] = work.pick(rng, ["none", "none", "linear"])
    x = [c.copy() for c in p.x]
    good = np.ones(len(p.t), bool)
    if rng.random() < 0.5:
        miss = rng.random((len(x), len(p.t))) < 0.15
        # keep the ends, so that the reference time of the model is known
        # (a regular record keeps its own whatever is missing)
        if p.kind == "regular" and rng.random() < 0.5:
            miss[0, : int(rng.integers(1, len(p.t) // 6 + 2))] = True
            miss[-1, len(p.t) - int(rng.integers(0, len(p.t) // 6 + 1)) :] = True
        else:
            miss[:, 0] = miss[:, -1] = False
        if len(p.t) - miss.any(axis=0).sum() < 3 * p.nc + 4:
            miss[:] = False
        for c, mm in zip(x, miss):
            c[mm] = np.nan
        good = ~miss.any(axis=0)
        ctx.note("missing values")
    if rng.random() < 0.3:  # gross outliers have weight one too
        i = rng.integers(0, len(p.t), 5)
        x[0][i] += 30 * p.scale
        ctx.note("outliers")
    coef = ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **opts)
    tg = p.t[good]
    out = ctx.reconstruct(tg, coef, epoch="python", min_SNR=0)
    r = [c[good] - y for c, y in zip(x, work.series(out))]
    obs = [c[good] for c in x]
    tref = float(coef["aux"]["reftime"])
    if inf:
        Ep, Em = Ep[good], Em[good]
        nm = names
    else:
        Ep = ref.basis(p.names, tg, tref, p.lat, p.nodal, p.phase)
        Em = Ep.conj()
        nm = p.names
    xn = np.sqrt(sum((o**2).sum() for o in obs))

    def orth(cols, what, nms=None):
        rc = r[0] if p.dim == 1 else r[0] + 1j * r[1]
        cn = np.linalg.norm(cols, axis=0)
        d = cols.conj().T @ rc / (cn * xn)
        ctx.close(d, 0 * d, 1e-9, what, nms)

    orth(Ep, "orthogonal to the constituents", nm)
    if p.dim == 2:
        orth(Em, "orthogonal to the constituents, other side", nm)
    orth(np.ones((len(tg), 1)), "orthogonal to the mean")
    if p.trend:
        orth((tg - tref)[:, None] + 0.0, "orthogonal to the trend")
    ctx.close(coef["weights"], np.ones(len(tg)), 0, "weights are one")
    # the sum of squares itself, against an independent least-squares solver
    if p.dim == 1:
        D = [Ep.real, Ep.imag, np.ones((len(tg), 1))]
        b = obs[0]
    else:
        D = [Ep, Em, np.ones((len(tg), 1))]
        b = obs[0] + 1j * obs[1]
    if p.trend:
        D.append(((tg - tref) / p.lor)[:, None])
    D = np.hstack(D)
    s = np.linalg.lstsq(D, b, rcond=None)[0]
    best = (np.abs(b - D @ s) ** 2).sum()
    sse = sum((q**2).sum() for q in r)
    ctx.close(sse, best, 1e-9 * xn**2 * 1e-3 + 1e-9 * best, "sum of squares")
