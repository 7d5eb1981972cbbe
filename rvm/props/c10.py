"""C10 PE and SNR of every solution."""
import numpy as np

from rvm import guest, work

CASES = {"quick": 1600, "thorough": 16000}
TECHNIQUE = "online invariant monitor on every recorded solution"
RULE = "Random analyses with every option (1-D/2-D, linear/MC/none, white/coloured, ols/robust, inference, orders, magnitudes 1e-9..1e9); PE, SNR and the diagnostic table are recomputed from the reported amplitudes and intervals."
REQUIRED = ("PE", "PE sums to 100", "SNR", "diagn PE", "diagn SNR", "diagn order")


def run_case(ctx):
    rng = ctx.rng
    if ctx.idx % 6 == 5:
        return guest.run(ctx, lambda *a: guests(ctx, *a))
    kw = dict(nmax=500)
    if ctx.idx % 5 == 0:
        kw["scale"] = float(10 ** rng.uniform(-9, 9))
    if ctx.idx % 7 == 0:
        kw["ncon"] = 30
        kw["nmax"] = 2000
        kw["span"] = 200.0
    if ctx.idx % 70 == 13:
        kw = work.large(rng)
        kw["mc"] = False
    if ctx.idx % 9 == 3:
        return tiny(ctx)
    p, c, extra = work.solution(ctx, **kw)
    verify(ctx, c, extra["conf_int"] != "none")


def tiny(ctx):
    """energies over many decades"""
    rng = ctx.rng
    p = work.Problem(rng, noise=0, nmax=500, ncon=int(rng.integers(3, 20)), phase=work.pick(rng, work.PHASES))
    p.z = p.z * 10 ** rng.uniform(-5, 0, (p.nc, 1))
    sigma = p.scale * 10 ** rng.uniform(-8, -4)
    p.x = [q + sigma * rng.normal(size=len(q)) for q in p.model(p.t)]
    p.tell(ctx)
    ctx.note("tiny")
    opts = dict(p.opts, conf_int=work.pick(rng, ["linear", "linear", "none"]), white=bool(rng.random() < 0.5), order_constit=work.pick(rng, ["PE", "frequency", list(p.names)]))
    c = ctx.solve(p.t, p.x[0], p.x[1] if p.dim == 2 else None, p.lat, **opts)
    verify(ctx, c, opts["conf_int"] != "none")


def guests(ctx, what, fn, a, kw):
    """every solution of any other workload with some energy"""
    r = fn(*a, **kw)
    if what == "solve":
        z = np.abs(work.ref.amplitudes(r))
        # (beyond these magnitudes squares lose precision or overflow)
        if np.isfinite(z).all() and 1e-140 < z.max() < 1e140:
            verify(ctx, r, kw.get("conf_int", "linear") != "none")
    return r


def verify(ctx, c, ci):
    n = len(c["name"])
    if "Lsmaj" in c:
        E = c["Lsmaj"] ** 2 + c["Lsmin"] ** 2
    else:
        E = c["A"] ** 2
    PE = 100 * E / E.sum()
    if not ci and "PE" not in c:
        ctx.note("no PE reported (conf_int='none', not ordered by it)")
        return
    ctx.close(c["PE"], PE, 1e-9 * PE + 1e-300, "PE", list(c["name"]))
    ctx.close(np.sum(c["PE"]), 100.0, 1e-8, "PE sums to 100")
    ctx.check(ci == ("SNR" in c), "SNR exactly with intervals")
    if not ci:
        ctx.check(not any(k in c for k in work.cis(c)), "no intervals when not asked for")
        return
    if "Lsmaj" in c:
        N = (c["Lsmaj_ci"] / 1.96) ** 2 + (c["Lsmin_ci"] / 1.96) ** 2
    else:
        N = (c["A_ci"] / 1.96) ** 2
    with np.errstate(all="ignore"):
        SNR = E / N
    ctx.close(c["SNR"], SNR, 1e-9 * SNR + 1e-300, "SNR", list(c["name"]))
    d = c["diagn"]
    ctx.check(sorted(d["name"]) == sorted(c["name"]), "diagn names")
    ix = [list(c["name"]).index(x) for x in d["name"]]
    ctx.close(d["PE"], c["PE"][ix], 1e-9 * PE[ix] + 1e-300, "diagn PE", list(d["name"]))
    ctx.close(d["SNR"], c["SNR"][ix], 1e-9 * SNR[ix] + 1e-300, "diagn SNR", list(d["name"]))
    ctx.check((np.diff(d["PE"]) <= 1e-9 * d["PE"][:-1]).all(), "diagn order", d["PE"])
    ctx.check(len(d["PE"]) == len(d["SNR"]) == n, "diagn length")
