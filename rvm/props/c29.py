"""C29 the order of observations does not matter to the fit."""
import numpy as np

from rvm import ref, work

CASES = {"quick": 1400, "thorough": 18000}
TECHNIQUE = "metamorphic monitor: analyses of the same observations in many orders (reversed, shuffled, rotated, interleaved, sorted by value) are compared online with that of the chronological record and with an independent basis"
RULE = "Random scalar and vector records with any sampling, missing values, exact inference and robust fits, analysed with conf_int='none' in chronological order and in several permutations; amplitudes, phases, predictions, slope, mean at a common time, weights by observation, and automatic selections are compared."
REQUIRED = ("permuted: amplitudes", "permuted: prediction", "permuted: slope", "permuted: mean", "permuted: weights", "raw: prediction", "reversed: amplitudes", "reversed: prediction", "reversed: reference time", "auto: selection", "auto: amplitudes")


def order(rng, t, x):
    n = len(t)
    k = int(rng.integers(9))
    i = np.arange(n)
    if k == 0:
        return "reversed", i[::-1]
    if k == 1:
        return "rotated", np.roll(i, int(rng.integers(1, n)))
    if k == 2:
        m = int(rng.integers(2, 6))
        return "interleaved", np.concatenate([i[j::m] for j in rng.permutation(m)])
    if k == 3:
        return "by value", np.argsort(x[0], kind="stable")
    if k == 4:
        j = int(rng.integers(n))
        return "one moved", np.r_[np.delete(i, j), j] if rng.random() < 0.5 else np.r_[j, np.delete(i, j)]
    if k == 5:
        i[[0, -1]] = i[[-1, 0]]
        return "ends swapped", i
    if k == 6:
        b = np.array_split(i, int(rng.integers(2, 9)))
        return "blocks", np.concatenate([b[j] for j in rng.permutation(len(b))])
    if k == 7:
        j = int(rng.integers(n - 1))
        i[[j, j + 1]] = i[[j + 1, j]]
        return "neighbours swapped", i
    return "shuffled", rng.permutation(n)


def run_case(ctx):
    (fit, fit, reverse, auto)[ctx.idx % 4](ctx)


def problem(ctx, **kw):
    rng = ctx.rng
    if ctx.idx % 71 == 3:
        kw = {**kw, **work.large(rng, 25000)}
    p = work.Problem(rng, **{**dict(nmax=500, maxcond=60), **kw})
    p.tell(ctx)
    o = dict(p.opts, conf_int="none")
    x = [q.copy() for q in p.x]
    if rng.random() < 0.3:
        for q in x:
            q[rng.random(len(q)) < 0.06] = work.pick(rng, [np.nan, np.inf])
        ctx.note("missing values")
    # (iterations of nearly exact fits are unstable)
    if rng.random() < 0.25 and len(p.t) > 4 * (2 * len(p.names) + 2):
        o["method"] = "robust"
        q = rng.random(len(p.t)) < 0.03
        x[0][q] += 20 * p.scale
        ctx.note("robust")
    return p, o, x


def infer(ctx, p, o, aprx):
    rng = ctx.rng
    if rng.random() > 0.3:
        return None
    inf = work.add_inference(rng, p)
    if inf is None:
        return None
    Ep, Em, _ = work.infer_design(p, inf)
    if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) > 60:
        return None
    inf.approximate = aprx
    o["infer"] = inf.spec()
    ctx.note("inference")
    return inf


def call(ctx, t, x, lat, o):
    return ctx.solve(t, x[0], x[1] if len(x) == 2 else None, lat, **o)


def freqdrift(names, t1, t2):
    return max(abs(ref.freq(n, t1) - ref.freq(n, t2)) for n in names)


def fit(ctx):
    rng = ctx.rng
    raw = rng.random() < 0.3
    p, o, x = problem(ctx, phase="raw" if raw else "Greenwich", nodal=work.pick(rng, [False] if raw else [True, False]))
    if not raw:  # raw phase lags, and so relations of them, depend on the reference time
        infer(ctx, p, o, None)
    S = p.magnitude() + max(np.abs(q[np.isfinite(q)]).max() for q in x)
    a = call(ctx, p.t, x, p.lat, o)
    names = list(a["name"])
    tp = np.concatenate([p.t[:: max(1, len(p.t) // 20)], p.t[0] + p.lor * rng.uniform(-3, 4, 20)])
    ra = work.series(ctx.reconstruct(tp, a, epoch="python", min_SNR=0))
    good = np.isfinite(np.sum(x, axis=0))
    rob = o.get("method") == "robust"
    for _ in range(3):
        label, ix = order(rng, p.t, [np.nan_to_num(q) for q in x])
        ctx.note(label)
        ctx.describe(order=label)
        b = call(ctx, p.t[ix], [q[ix] for q in x], p.lat, o)
        tb, ta = float(b["aux"]["reftime"]), float(a["aux"]["reftime"])
        tol = (1e-5 if rob else 1e-9) * S
        if rob:
            # a stop one iteration earlier or later
            ctx.note("robust compared")
        ext = np.maximum(1, np.abs(tp - p.tref) / p.lor)
        if raw:
            d = freqdrift(names, ta, tb) * 2 * np.pi * 24 * len(names) * 4
            tol = tol + d * p.lor * S
            ext = ext * 2
        ok = ctx.check(sorted(b["name"]) == sorted(names), "permuted: names")
        if not ok:
            return
        if not raw:
            ctx.close(work.zz(b, names), work.zz(a, names), tol, "permuted: amplitudes", names)
        else:
            ctx.close(np.abs(work.zz(b, names)), np.abs(work.zz(a, names)), tol, "raw: axes", names)
        ctx.close(work.slopes(b) * p.lor, work.slopes(a) * p.lor, tol, "permuted: slope")
        ctx.close(work.means(b), work.means(a) + work.slopes(a) * (tb - ta), tol * 3, "permuted: mean")
        rb = work.series(ctx.reconstruct(tp, b, epoch="python", min_SNR=0))
        for y, z in zip(ra, rb):
            ctx.close(z, y, tol * ext * 10, "raw: prediction" if raw else "permuted: prediction")
        wa = np.ones(len(p.t))
        wa[good] = np.broadcast_to(a["weights"], good.sum())
        ctx.close(np.broadcast_to(b["weights"], good.sum()), wa[ix][good[ix]], 1e-4 if rob else 0, "permuted: weights")


def reverse(ctx):
    """under any options"""
    rng = ctx.rng
    p, o, x = problem(ctx)
    infer(ctx, p, o, bool(rng.random() < 0.5))
    S = p.magnitude() + max(np.abs(q[np.isfinite(q)]).max() for q in x)
    rob = o.get("method") == "robust"
    tol = (1e-5 if rob else 1e-9) * S
    a = call(ctx, p.t, x, p.lat, o)
    b = call(ctx, p.t[::-1], [q[::-1] for q in x], p.lat, o)
    names = list(a["name"])
    ctx.check(sorted(b["name"]) == sorted(names), "reversed: names")
    ctx.close(work.zz(b, names), work.zz(a, names), tol, "reversed: amplitudes", names)
    ctx.close(work.means(b), work.means(a), tol, "reversed: mean")
    ctx.close(work.slopes(b) * p.lor, work.slopes(a) * p.lor, tol, "reversed: slope")
    ctx.close(b["aux"]["reftime"], a["aux"]["reftime"], 1e-9, "reversed: reference time")
    n = np.size(a["weights"])
    if n > 1:
        ctx.close(b["weights"][::-1], a["weights"], 1e-4 if rob else 0, "reversed: weights")
    tp = p.t[0] + p.lor * rng.uniform(-1, 2, 30)
    for y, z in zip(work.series(ctx.reconstruct(tp, a, epoch="python", min_SNR=0)), work.series(ctx.reconstruct(tp, b, epoch="python", min_SNR=0))):
        ctx.close(z, y, 20 * tol, "reversed: prediction")


def auto(ctx):
    rng = ctx.rng
    p = work.Problem(rng, nmax=700, phase="Greenwich", nodal=work.pick(rng, [True, False]), dt=work.pick(rng, [1 / 24, 1 / 12, 1 / 48]), kind=work.pick(rng, ["regular", "jitter", "random", "segments"]), maxcond=60)
    p.tell(ctx)
    S = p.magnitude()
    o = dict(p.opts, conf_int="none", constit="auto", Rayleigh_min=float(work.pick(rng, [1.0, 1.0, 0.9, 1.5, 3.0])))
    a = call(ctx, p.t, p.x, p.lat, o)
    names = list(a["name"])
    ctx.note("auto " + work.size_class(len(names)))
    # only well-conditioned analyses determine comparable amplitudes
    E = ref.basis(names, p.t, p.tref, p.lat, p.nodal, p.phase)
    c = ref.cond(ref.real_design(E, p.t, p.tref, p.trend, p.lor))
    for _ in range(3):
        label, ix = order(rng, p.t, p.x)
        ctx.note(label)
        b = call(ctx, p.t[ix], [q[ix] for q in p.x], p.lat, o)
        ctx.check(sorted(b["name"]) == sorted(names), "auto: selection", f"{label}: {set(names) ^ set(b['name'])}")
        if c < 1e3 and sorted(b["name"]) == sorted(names):
            ctx.close(work.zz(b, names), work.zz(a, names), 1e-9 * c * S, "auto: amplitudes", names)
