"""C02 reconstruct() against the independent evaluation of the reported solution."""
import numpy as np

from rvm import work

CASES = {"quick": 960, "thorough": 12000}
RULE = "Random noisy records are analysed with random options; the solution is evaluated at times inside and up to centuries outside the record and compared with the independent harmonic model of the reported parameters."
REQUIRED = ("prediction", "prediction, whole basis")


def some_times(rng, p, n=None):
    k = rng.integers(0, 7)
    n = n or int(work.pick(rng, [1, 2, 7, 40, 150, 400]))
    if k == 0:
        t = rng.choice(p.t, n)
    elif k == 1:
        t = p.tref + rng.uniform(-1, 1, n) * p.lor
    elif k == 2:
        t = p.tref + rng.uniform(-1, 1, n) * 3650
    elif k == 3:
        t = rng.uniform(584755, 875000, n)
    elif k == 4:
        t = np.floor(p.tref) + np.arange(n) / 24
    elif k == 5:
        t = np.floor(p.t[0]) - np.arange(n) * work.pick(rng, [1.0, 0.25, 29.5])
    else:  # around the longitudes' epochs
        t = work.pick(rng, [693595.5, 719163.0, 730120.0]) + rng.uniform(-3, 3, n)
    return np.asarray(t, dtype=float)


def run_case(ctx):
    rng = ctx.rng
    k = ctx.idx % 16
    if k == 0:  # a solution holding every usable constituent
        whole_basis(ctx)
        return
    kw = {}
    if k == 1:
        kw = dict(nmax=8000, ncon=40, span=370.0, dt=1 / 12, kind="regular")
    elif k == 2:
        kw = dict(pool=work.LAT12, lat=work.pick(rng, [0.0, 2.0, -2.0, 5.0, -5.0, 90.0, -90.0, 60.0]), nodal=work.pick(rng, [True, "linear_time"]))
    if ctx.idx % 48 == 9:
        kw = work.large(rng)
    j = ctx.idx // 16 + ctx.idx
    kw.setdefault("phase", work.PHASES[j % 3])
    kw.setdefault("nodal", work.NODALS[(j // 3) % 3])
    kw.setdefault("trend", bool((j // 9) % 2))
    p, coef, extra = work.solution(ctx, mc=False, m7=True, **kw)
    for _ in range(3):
        t = some_times(rng, p)
        if rng.random() < 0.04:
            t = some_times(rng, p, n=int(work.pick(rng, [5000, 20000, 45000, 70000])) if rng.random() < 0.4 else work.round_size(rng, 400, 40000))
        compare(ctx, p, coef, t)
    if rng.random() < 0.1:
        compare(ctx, p, coef, np.empty(0))


def compare(ctx, p, coef, t, what="prediction"):
    out = ctx.reconstruct(t, coef, epoch="python", min_SNR=0)
    got = work.series(out)
    ctx.check(len(got) == p.dim, "components")
    want = work.predict_ref(p, coef, t)
    tol = work.pred_tol(coef, t)
    for g, w in zip(got, want):
        ctx.close(g, w, tol, what)




def whole_basis(ctx):
    """Every constituent at once, with prescribed amplitudes put into a solution."""
    rng = ctx.rng
    p = work.Problem(rng, ncon=4, nmax=400)
    p.tell(ctx)
    ctx.note("whole basis")
    coef = ctx.solve(*p.args, conf_int="none", **p.opts)
    names = [n for n in work.USABLE if p.phase == "raw" or n not in work.ref.HALF_NAMES]
    names = [str(n) for n in rng.permutation(names)]
    from copy import deepcopy

    c = deepcopy(coef)
    nc = len(names)
    c["name"] = np.array(names, dtype=object)
    tr = float(c["aux"]["reftime"])
    c["aux"]["frq"] = np.array([work.ref.freq(n, tr) for n in names])
    c["aux"]["lind"] = np.array([work.ref.INDEX[n] for n in names])
    z = {"g": rng.uniform(0, 360, nc)}
    if p.dim == 1:
        z["A"] = rng.uniform(0.1, 1, nc)
    else:
        z["Lsmaj"] = rng.uniform(0.5, 1, nc)
        z["Lsmin"] = rng.uniform(-0.5, 0.5, nc)
        z["theta"] = rng.uniform(0, 180, nc)
    c.update(z)
    for _ in range(2):
        t = some_times(rng, p, n=60)
        out = ctx.reconstruct(t, c, epoch="python", min_SNR=0)
        for g, w in zip(work.series(out), work.predict_ref(p, c, t)):
            ctx.close(g, w, work.pred_tol(c, t), "prediction, whole basis")
    # one by one, so that an error names its constituent
    n1 = [str(n) for n in rng.choice(names, 12, replace=False)]
    t = some_times(rng, p, n=5)
    for n in n1:
        out = ctx.reconstruct(t, c, epoch="python", constit=[n])
        for g, w in zip(work.series(out), work.predict_ref(p, c, t, [n])):
            ctx.close(g, w, work.pred_tol(c, t) / 20, "single constituent", [n])
