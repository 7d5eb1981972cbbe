"""C01 exact recovery: the truth is generated by the independent model."""
import numpy as np

from rvm import ref, work
from rvm.work import Problem

CASES = {"quick": 840, "thorough": 9000}
RULE = "Random records (sampling pattern, dates 1602-2396, latitude strata, all trend/nodal/phase combinations, 1-D and 2-D) synthesised by the independent model without noise; solve() must return the generating amplitudes, mean and slope."
REQUIRED = ("amplitudes", "mean", "slope", "g", "theta")
ASSUMPTIONS = ["the reference model of rvm/ref.py (published formulas and pinned tables) is the truth", "condition number of the model <= 200 (20000 in some cases), so errors above 1e-9 (1e-6) of the signal scale are not rounding"]


def run_case(ctx):
    rng = ctx.rng
    kw = {}
    k = ctx.idx % 14
    if k == 0:
        kw = dict(nmax=9000, ncon=40, span=370.0, dt=1 / 24, kind=work.pick(rng, ["regular", "dropout"]))
    elif k == 1:
        kw = dict(lat=work.pick(rng, [0.0, 0, 4.9, -4.9, -5.0, 90.0, -90.0]), pool=work.LAT12 + work.MAIN[:5], nodal=work.pick(rng, [True, "linear_time"]))
    elif k == 2:
        kw = dict(pool=work.SHALLOWN, ncon=15)
    elif k == 3:
        kw = dict(scale=float(10 ** rng.uniform(-9, 9)))
    elif k == 4:
        kw = dict(span=1500.0, kind=work.pick(rng, ["random", "segments", "burst"]), nmax=1500)
    elif k == 5:
        kw = dict(span=float(rng.uniform(0.3, 1.5)), dt=work.pick(rng, [1 / 144, 1 / 288, 1 / 1440]), nmax=400)
    elif k == 6:
        kw = dict(span=float(rng.uniform(2000, 25000)), kind=work.pick(rng, ["random", "segments", "burst", "dropout"]), nmax=2000)
    if ctx.idx % 35 == 7:
        kw = work.large(rng, 60000, kind=work.pick(rng, ["regular", "regular", "dropout"]))
    elif ctx.idx % 70 == 8:  # as many constituents as a multi-year record resolves
        kw = dict(nmax=14000, nmin=9000, kind="regular", span=700.0, dt=1 / 12 if rng.random() < 0.5 else 1 / 24, ncon=80, pool=work.USABLE)
    elif ctx.idx % 21 == 12:  # barely resolved, so that rounding is magnified most
        kw = dict(mincond=700, maxcond=3e4, nmin=150, nmax=600, pool=work.MAIN)
        ctx.note("barely resolved")
    # every combination of options is visited in turn
    j = ctx.idx // 14 + ctx.idx
    kw.setdefault("phase", work.PHASES[j % 3])
    kw.setdefault("nodal", work.NODALS[(j // 3) % 3])
    kw.setdefault("trend", bool((j // 9) % 2))
    p = Problem(rng, noise=0, m7=True, **kw)
    p.tell(ctx)
    extra = {}
    if rng.random() < 0.3 or (len(p.t) > 10000 and p.kind != "regular"):
        extra["conf_int"] = "none"
    if rng.random() < 0.3:
        extra["white"] = True
    if rng.random() < 0.15:
        extra["method"] = "robust"
        if len(p.t) > 3000:
            extra.pop("method")
    if p.cond > 200:
        ctx.note("condition number > 1000" if p.cond > 1000 else "condition number > 200")
    ctx.note(f"method={extra.get('method', 'ols')}")
    names = list(p.names)
    x = p.x
    if rng.random() < 0.3:
        # a regular record keeps its reference time whatever is missing
        n = len(p.t)
        keep = rng.random(n) > 0.1
        if p.kind == "regular":
            keep[: int(rng.integers(0, n // 5))] = False
            keep[n - int(rng.integers(0, n // 5)) :] = False
        else:
            keep[[0, -1]] = True
        cond = ref.cond(p.D[keep])
        if cond < 200 and keep.sum() > 1.2 * p.D.shape[1]:
            p.cond = max(p.cond, cond)
            x = [np.where(keep, c, np.nan) for c in p.x]
            if p.dim == 2 and rng.random() < 0.5:
                x = [p.x[0], x[1]] if rng.random() < 0.5 else [x[0], p.x[1]]
            ctx.note("missing values")
    coef = ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **{**p.opts, **extra})
    ctx.check(sorted(coef["name"]) == sorted(names), "names", f"{list(coef['name'])}")
    S = p.magnitude()
    # rounding of the problem, and of the astronomical arguments themselves
    base = 2e-11 * S * max(2.0, p.cond)
    tol = base + 1e-9 * np.abs(p.z).max()
    tolz = base + 1e-9 * np.abs(p.z)
    # robustfit stops after a few iterations of noise-level weights
    ctx.close(coef["aux"]["reftime"], p.tref, 1e-6, "reference time is mid-record")
    ctx.close(work.zz(coef, names), p.z, tolz, "amplitudes", names)
    ctx.close(work.means(coef), p.mean, base, "mean")
    if p.trend:
        ctx.close(work.slopes(coef) * p.lor, p.slope * p.lor, 3 * base, "slope")
    else:
        ctx.check("slope" not in coef and "uslope" not in coef, "no slope without trend")
    # the reported parameters themselves
    z = p.z
    if p.dim == 1:
        ctx.close(work.get(coef, "A", names), np.abs(z[:, 0]), tolz[:, 0], "A", names)
        ang = np.degrees(-np.angle(z[:, 0]))
        cmp_angle(ctx, work.get(coef, "g", names), ang, np.abs(z[:, 0]), tol, 360, "g", names)
    else:
        Ap, Am = np.abs(z).T
        ctx.close(work.get(coef, "Lsmaj", names), Ap + Am, 2 * tol, "Lsmaj", names)
        ctx.close(work.get(coef, "Lsmin", names), Ap - Am, 2 * tol, "Lsmin", names)
        ep, em = np.degrees(np.angle(z)).T
        mn = np.minimum(Ap, Am)
        cmp_angle(ctx, work.get(coef, "theta", names), (ep + em) / 2, mn, tol, 180, "theta", names)
        cmp_angle(ctx, work.get(coef, "g", names), (em - ep) / 2, mn, tol, 180, "g", names)


def cmp_angle(ctx, got, want, radius, tol, period, what, names):
    ok = radius > 50 * tol
    if ok.any():
        d = (got - want + period / 2) % period - period / 2
        ctx.close(d[ok], 0 * d[ok], np.degrees(tol / radius[ok]) * 2, what, np.array(names)[ok])
