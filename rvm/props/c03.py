"""C03 prediction is pointwise in time; missing times give NaN."""
import datetime

import numpy as np
import pandas as pd

from rvm import work
from rvm.props.c02 import some_times

CASES = {"quick": 840, "thorough": 9000}
TECHNIQUE = "metamorphic trace monitor (all groupings of the same times must agree) over recorded executions"
RULE = "Random solutions are evaluated at a list of times, then at subsets, permutations, chunks, scalars, repeats and supersets of it, with missing times of every kind mixed in; equal times must give equal values and exactly the missing ones NaN."
REQUIRED = ("permutation", "subset", "scalar", "superset", "repeats", "huge", "NaN exactly at missing times")


def huge(ctx):
    """far more times than there are in one block of any size that one might choose"""
    rng = ctx.rng
    p, coef, extra = work.solution(ctx, mc=False, robust=False, nmax=400)
    n = int(work.pick(rng, [40000, 50000, 60000, 65536, 80000, 100000, 100000, 120000, 131072])) + int(work.pick(rng, [-1, 0, 1, 2]))
    t = p.tref + rng.uniform(-400, 400, n)
    if rng.random() < 0.5:
        t.sort()
    R = lambda tt: work.series(ctx.reconstruct(tt, coef, epoch="python", min_SNR=0))  # noqa: E731
    ctx.note("huge")
    whole = R(t)
    i = np.unique(np.concatenate([[0, 1, n // 2, n - 2, n - 1], rng.integers(0, n, 200), *(np.arange(b - 1, n, b) for b in (2048, 10000, 4096)), *(np.arange(b, n, b) for b in (2048, 10000, 4096))]))
    tol = 0.1 * work.pred_tol(coef, t[i])
    for g, b in zip(whole, R(t[i])):
        ctx.check(g.shape == (n,) and np.isfinite(g).all(), "finite, shape of the times")
        ctx.close(g[i], b, tol, "huge")
    k = int(rng.integers(3000, 6000))
    s = int(rng.integers(0, n - k))
    tol = 0.1 * work.pred_tol(coef, t[s : s + k])
    for g, b in zip(whole, R(t[s : s + k])):
        ctx.close(g[s : s + k], b, tol, "huge")


def run_case(ctx):
    if ctx.idx % 105 == 50:
        return huge(ctx)
    rng = ctx.rng
    p, coef, extra = work.solution(ctx, mc=False, robust=False, nmax=700)
    t = some_times(rng, p, n=int(work.pick(rng, [3, 20, 100, 101])))
    n = len(t)
    tol = 0.1 * work.pred_tol(coef, t)
    sel = dict(min_SNR=work.pick(rng, [0, 0, 2]))
    if rng.random() < 0.3:
        sel["constit"] = list(rng.permutation(p.all)[: int(rng.integers(0, len(p.all) + 1))])
    R = lambda tt, **kw: work.series(ctx.reconstruct(tt, coef, epoch="python", **sel, **kw))  # noqa: E731

    base = R(t)
    for b in base:
        ctx.check(b.shape == (n,) and np.isfinite(b).all(), "finite, shape of the times")

    def cmp(got, idx, what):
        for g, b in zip(got, base):
            ctx.close(g, b[idx], tol[idx], what)

    i = rng.permutation(n)
    cmp(R(t[i]), i, "permutation")
    i = np.flatnonzero(rng.random(n) < 0.5)
    cmp(R(t[i]), i, "subset")
    i = np.arange(n)[::-1]
    cmp(R(t[::-1]), i, "reversed view")
    i = int(rng.integers(n))
    sc = work.pick(rng, [float, np.float64, np.asarray])(t[i])
    cmp(R(sc), np.array([i]), "scalar")
    i = rng.integers(0, n, 2 * n)
    cmp(R(t[i]), i, "repeats")
    # a longer array: the others may be far away in time, many, before or after
    m = int(work.pick(rng, [5, 200, 200, 3000])) if rng.random() < 0.9 else 17000 if rng.random() < 0.3 else work.round_size(rng, 400, 24000) - n
    others = some_times(rng, p, n=m)
    big = np.concatenate([others, t])
    order = rng.permutation(len(big))
    whole = R(big[order])
    got = [g[np.argsort(order)][m:] for g in whole]
    cmp(got, np.arange(n), "superset")
    if m > 300:  # all of its values, also at its ends and wherever blocks might end
        size = int(rng.integers(100, 400))
        bt = big[order]
        parts = [np.concatenate(x) for x in zip(*(R(bt[q : q + size]) for q in range(0, len(bt), size)))]
        btol = 0.1 * work.pred_tol(coef, bt)
        for g, b in zip(whole, parts):
            ctx.close(g, b, btol, "superset in pieces")
    ctx.note("superset" + work.size_class(m))
    k = int(rng.integers(1, n))
    parts = [np.concatenate(x) for x in zip(R(t[:k]), R(t[k:]))]
    cmp(parts, np.arange(n), "chunks")

    # missing times of every kind
    miss = rng.random(n) < work.pick(rng, [0.1, 0.5])
    miss[int(rng.integers(n))] = True
    if rng.random() < 0.2:
        miss[:] = True
    how = work.pick(rng, ["nan", "inf", "-inf", "masked", "maskednan", "NaT", "mixed", "pandas NaT", "datetime masked"])
    if miss.all() and how == "pandas NaT":
        how = "nan"
    ctx.note("missing=" + how)
    fill = np.where(rng.random(n) < 0.5, np.nan, work.pick(rng, [np.inf, -np.inf]))
    ep = dict(epoch="python")
    tm = t.copy()
    if how in ("nan", "inf", "-inf"):
        tm[miss] = float(how)
    elif how == "mixed":
        tm[miss] = fill[miss]
    elif how == "masked":
        tm[miss] = work.pick(rng, [0.0, 1e20, 7.0, t[0]])
        tm = np.ma.array(tm, mask=miss)
    elif how == "maskednan":
        tm[miss] = fill[miss]
        tm = np.ma.array(tm, mask=miss & (rng.random(n) < 0.5))
    else:
        # whole seconds, so that the instants are the same
        ep = {}
        sec = np.round((t - 719163) * 86400).astype(np.int64)
        ts = sec / 86400 + 719163
        base = R(ts)
        d = sec.astype("datetime64[s]")
        unit = work.pick(rng, ["s", "ms", "us"])
        d = d.astype(f"datetime64[{unit}]")
        if how == "NaT":
            d[miss] = np.datetime64("NaT")
            tm = d
        elif how == "datetime masked":
            d[miss] = np.datetime64("1999-01-01", unit)
            tm = np.ma.array(d, mask=miss)
        else:
            tm = pd.Series(d)
            tm[miss] = pd.NaT
            if rng.random() < 0.5:
                tm = pd.DatetimeIndex(tm)
    out = ctx.reconstruct(tm, coef, **ep, **sel)
    for g, b in zip(work.series(out), base):
        ctx.check(type(g) is np.ndarray and g.dtype == float, "plain float array", type(g))
        if ctx.check(g.shape == (n,), "shape with missing times", g.shape):
            ctx.check((np.isnan(g) == miss).all(), "NaN exactly at missing times", how)
            ctx.close(g[~miss], b[~miss], tol[~miss] * 3, "values beside missing times")
