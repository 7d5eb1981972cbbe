"""C33 cost in proportion to the data."""
import gc
import time
import tracemalloc

import numpy as np

from rvm import spectra, work

CASES = {"quick": 120, "thorough": 1200}
TECHNIQUE = "resource monitor: peak traced memory and processor time of the same call on records (or times to predict) of n and of 4n or 16n samples, and on the same number of samples spread over a day or over centuries"
RULE = "Random scalar and vector records of 1500 to 3000 samples and four times as many, regular, irregular, with gaps and missing values, with every method, interval, nodal, phase, trend and inference option; predictions of up to 400000 times; processor time in the best of several trials."
REQUIRED = ("solve: memory by number", "reconstruct: memory by number", "solve: memory by span", "reconstruct: memory by span", "solve: processor time", "reconstruct: processor time")
NAMES = "M2 S2 N2 K1 O1 Q1 M4 MS4 M6 MK3 M8 2MK5 MF".split()
ASSUMPTIONS = ["processor time: a quadratic part is noticed where it takes several times as long as all the rest at 24000 samples, or at 400000 without nodal corrections and Greenwich phases"]


def record(rng, n, dim, kind, dt, start, missing):
    t = start + np.arange(n) * dt
    if kind == "irregular":
        t = t + rng.uniform(-0.3, 0.3, n) * dt
    elif kind == "gaps":
        t = t + 3.3 * dt * np.cumsum(rng.random(n) < 0.01)
    x = []
    for _ in range(dim):
        y = np.cos(2 * np.pi * 24 * t * 0.0805114007) + 0.5 * np.cos(2 * np.pi * 24 * t * 0.0417807 + 1) + 0.2 * rng.normal(size=n)
        if missing:
            y[rng.random(n) < 0.05] = np.nan
        x.append(y)
    return t, x


def options(rng, dim, kind, plain=False):
    names = [str(q) for q in rng.permutation(NAMES)[: int(rng.integers(2, 11))]]
    o = dict(constit=names, epoch="python", verbose=False)
    o["nodal"] = work.pick(rng, [True, True, False, "linear_time"])
    o["phase"] = work.pick(rng, ["Greenwich", "Greenwich", "raw", "linear_time"])
    o["trend"] = bool(rng.random() < 0.7)
    o["conf_int"] = work.pick(rng, ["linear", "linear", "none", "MC"])
    o["white"] = bool(rng.random() < 0.5) or (plain and kind != "regular")
    o["order_constit"] = work.pick(rng, ["PE", "frequency", names])
    if rng.random() < 0.4:
        o["method"] = "robust"
        o["robust_kw"] = {"weight_function": work.pick(rng, "cauchy huber bisquare andrews fair logistic talwar welsch ols".split())}
        if plain:
            o["robust_kw"]["maxit"] = 2
        o["conf_int"] = "none" if rng.random() < 0.5 else o["conf_int"]
    if rng.random() < 0.25 and "K1" in names and o["conf_int"] != "MC":
        k = 2 if dim == 2 else 1
        o["infer"] = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.3] * k, phase_offsets=[10.0] * k, approximate=bool(rng.random() < 0.5))
        o["order_constit"] = "PE"
    return o


def peak(f):
    gc.collect()
    tracemalloc.start()
    try:
        r = f()
        return tracemalloc.get_traced_memory()[1], r
    finally:
        tracemalloc.stop()


def ratio(ctx, p, bound, what, msg):
    ctx.close(np.array(p[1] / p[0]), np.array(0.0), bound, what, [msg])


def cpu(f):
    s = time.process_time()
    f()
    return time.process_time() - s


def run_case(ctx):
    (numbers, numbers, spans, timing)[ctx.idx % 4](ctx)


def setup(ctx, kinds=("regular", "irregular", "gaps"), plain=False):
    rng = ctx.rng
    dim = int(rng.integers(1, 3))
    kind = work.pick(rng, list(kinds))
    dt = work.pick(rng, [1 / 24, 1 / 48, 5 / 24])
    start = float(rng.uniform(700000, 745000))
    lat = float(rng.uniform(-80, 80))
    missing = bool(rng.random() < 0.3)
    o = options(rng, dim, kind, plain)
    ctx.describe(dim=dim, kind=kind, missing=missing, **{k: v for k, v in o.items() if k not in ("epoch", "verbose")})
    ctx.note("sampling=" + kind, f"dim={dim}", "conf_int=" + o["conf_int"], "method=" + o.get("method", "ols"), f"white={o['white']}", f"infer={'infer' in o}")
    return rng, dim, kind, dt, start, lat, missing, o


def call(ctx, t, x, lat, o):
    ctx.event("solve", data=(len(t), float(t[0]), lat))
    return lambda: ctx.utide.solve(t, x[0], x[1] if len(x) > 1 else None, lat, **o)


def predict(ctx, t, c, kw):
    ctx.event("reconstruct", data=(len(t), float(t[0])))
    return lambda: ctx.utide.reconstruct(t, c, verbose=False, **kw)


def estimates(t):
    """number of spectral estimates of an irregular record: at most 500 in a band"""
    n = len(t)
    f = np.arange(1, n // 2) * (n - 1) / n / (24 * (t[-1] - t[0]))
    return sum(min(500, int(np.sum((f >= a) & (f <= b))) + 1) for a, b in spectra.BANDS)


def numbers(ctx):
    """memory in proportion to the number of samples"""
    rng, dim, kind, dt, start, lat, missing, o = setup(ctx)
    n = int(rng.integers(1500, 3000))
    if not o["white"] and kind != "regular":
        n, dt = min(n, 2200), work.pick(rng, [1 / 24, 1 / 48])
    p, e = [], []
    for m in (n, 4 * n):
        t, x = record(rng, m, dim, kind, dt, start, missing)
        if m == n:
            call(ctx, t, x, lat, o)()  # whatever is loaded at the first call
        q, c = peak(call(ctx, t, x, lat, o))
        p.append(q)
        e.append(estimates(t))
    bound = 7.0
    if not o["white"] and kind != "regular" and o["conf_int"] != "none":
        bound = 5.5 * e[1] / e[0]  # n times the number of estimates
    ratio(ctx, p, bound, "solve: memory by number", f"{p} bytes for {n} and {4 * n} samples")
    n = int(rng.integers(1500, 6000))
    kw = dict(epoch="python", min_SNR=0)
    if rng.random() < 0.3:
        kw["constit"] = o["constit"][:2]
    p = []
    for m in (n, 4 * n):
        t = np.sort(start + rng.uniform(-1000, 1000, m))
        if rng.random() < 0.3:
            t[rng.random(m) < 0.1] = np.nan
        if rng.random() < 0.3 and len(p) == 0:
            predict(ctx, t, c, kw)()
        p.append(peak(predict(ctx, t, c, kw))[0])
    ratio(ctx, p, 7.0, "reconstruct: memory by number", f"{p} bytes for {n} and {4 * n} times")


def spans(ctx):
    """memory independent of the time that the samples span"""
    rng, dim, kind, dt, start, lat, missing, o = setup(ctx, kinds=("irregular",))
    o["white"] = True
    n = int(rng.integers(1000, 2500))
    p = []
    for years in (0, float(rng.uniform(20, 150))):
        t, x = record(rng, n, dim, kind, dt, start, missing)
        t[n // 2 :] += years * 365.25
        if not p:
            call(ctx, t, x, lat, o)()
        q, c = peak(call(ctx, t, x, lat, o))
        p.append(q)
    ratio(ctx, p, 1.8, "solve: memory by span", f"{p} bytes for {n} samples within {n * dt:.0f} days and {years:.0f} years")
    p = []
    kw = dict(epoch="python", min_SNR=0)
    for days in (1.0, float(10 ** rng.uniform(4, 5))):
        t = start + np.sort(rng.uniform(0, days, n))
        if not p:
            predict(ctx, t, c, kw)()
        p.append(peak(predict(ctx, t, c, kw))[0])
    ratio(ctx, p, 1.8, "reconstruct: memory by span", f"{p} bytes for {n} times within a day and {days:.0f} days")


def timing(ctx):
    """processor time far from the square of the number of samples"""
    rng, dim, kind, dt, start, lat, missing, o = setup(ctx, plain=True)
    sizes, bound = (1500, 24000), 64.0
    light = ctx.idx // 8 % 2 == 0
    if light:  # without the astronomical tables there is little other work
        o.update(nodal=False, phase="raw", constit=o["constit"][:4], order_constit="PE")
        o.pop("infer", None)
        o["conf_int"] = work.pick(rng, ["none", "linear"])
        sizes, bound = (4000, 40000, 400000), 400.0
    ctx.note(f"light={light}")
    rec = [record(rng, m, dim, kind, dt, start, missing) for m in sizes]
    f = [call(ctx, t, x, lat, o) for t, x in rec]
    c = f[0]()
    judge(ctx, f, sizes, bound, "solve: processor time")
    tt = [np.sort(start + rng.uniform(-1000, 1000, m)) for m in sizes]
    g = [predict(ctx, t, c, dict(epoch="python", min_SNR=0)) for t in tt]
    g[0]()
    judge(ctx, g, sizes, bound, "reconstruct: processor time")


def judge(ctx, f, sizes, bound, what):
    for k in range(1, len(sizes)):  # a gross excess shows, soon, at the middle size
        last = k == len(sizes) - 1
        limit = bound if last else 50.0
        small, big = [], []
        for _ in range(4):
            small.append(max(cpu(f[0]) for _ in range(2)))
            big.append(cpu(f[k]))
            if min(big) <= limit * max(small) or min(big) > 3 * limit * max(small):
                break
        msg = f"{max(small):.4f} s for {sizes[0]} samples, {min(big):.4f} s for {sizes[k]}"
        ratio(ctx, (max(max(small), 1e-3), min(big)), limit, what, msg)
        if min(big) > limit * max(small):
            return
