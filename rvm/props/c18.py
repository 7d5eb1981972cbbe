"""C18 arguments and shared state are left alone."""
import copy
import warnings

import numpy as np

import datetime as dtm

from rvm import guest, snap, work

try:
    import pandas as pd
except ImportError:  # pragma: no cover
    pd = None

CASES = {"quick": 1500, "thorough": 10000}
TECHNIQUE = "state monitor: bitwise deep snapshots of every argument (with the buffers behind views), of the package's tables and of process-wide state around each recorded call, succeeding or failing; and repeated calls after in-place corruption of everything returned"
RULE = "Random analyses and predictions with every option; arguments as arrays, views of larger buffers, masked arrays with poisoned data, lists and pandas objects, options in shared containers; numpy error state, print options and warning filters set to unusual values; calls that fail at different stages."
REQUIRED = ("solve arguments", "solve tables", "solve process state", "reconstruct arguments", "reconstruct process state", "failing arguments", "failing process state", "after scribbling: solution", "after scribbling: prediction", "after scribbling: tables", "after scribbling: arguments", "verbose call process state", "MC random state changes")


def wrap(rng, x, n):
    """x as some container; returns (argument, objects whose contents must stay)"""
    k = int(rng.integers(0, 6))
    if k == 0:
        return x.copy(), []
    if k == 1:  # every other element of a larger buffer
        b = np.full(2 * n + 1, 777.0)
        b[1::2] = x
        return b[1::2], [b]
    if k == 2:  # masked, poisoned data
        d = x.copy()
        m = rng.random(n) < 0.05
        m[[0, -1]] = False
        d[m] = rng.choice([1e30, -999.0, np.nan])
        return np.ma.array(d, mask=m), []
    if k == 3:
        return [float(q) for q in x], []
    if k == 4:  # NaNs and infinities
        d = x.copy()
        m = rng.random(n) < 0.05
        m[[0, -1]] = False
        d[m] = rng.choice([np.nan, np.inf, -np.inf])
        return d, []
    b = np.full((n, 3), 5.0)
    b[:, 1] = x
    return b[:, 1], [b]


def clock(rng, t):
    """(times in some form, their epoch) near times t, python days"""
    k = int(rng.integers(9))
    if k <= 1:
        return t, "python"
    if k == 2:
        return t + 366.0, "matlab"
    if k == 3:
        return t - 719163.0, work.pick(rng, ["1970-01-01", dtm.date(1970, 1, 1), dtm.datetime(1970, 1, 1), np.datetime64("1970-01-01")])
    ms = np.round((t - 719163) * 86400e3).astype("datetime64[ms]")
    if k == 4:
        return ms.astype("datetime64[%s]" % work.pick(rng, ["s", "ms", "us", "ns"]) if abs(t[0] - 719163) < 80000 else "datetime64[ms]"), None
    if k == 5:
        return list(ms.astype(object)), None
    if k == 6:
        return ms.astype(object), None
    if k == 7 and pd is not None and abs(t[0] - 719163) < 80000:
        return pd.DatetimeIndex(ms) if rng.random() < 0.5 else pd.Series(ms), None
    if k == 8:
        z = dtm.timezone(dtm.timedelta(hours=float(rng.integers(-12, 13))))
        return [q.replace(tzinfo=dtm.timezone.utc).astimezone(z) for q in ms.astype(object)], None
    return t, "python"


def watch(ctx, what, fn, held, mc=False):
    """run fn; the arguments held, the tables and the process must not change"""
    a0, t0, p0 = snap.freeze(held), snap.tables(), snap.process(rng=not mc)
    r0 = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    try:
        res, err = fn(), None
    except Exception as e:
        res, err = None, e
    p1 = snap.process(rng=not mc)
    a1, t1 = snap.freeze(held), snap.tables()
    ctx.check(a0 == a1, what + " arguments", snap.diff(a0, a1))
    bad = [k for k in t0 if t0[k] != t1[k]]
    ctx.check(not bad, what + " tables", bad)
    bad = [k for k in p0 if p0[k] != p1[k]]
    ctx.check(not bad, what + " process state", [(k, str(p0[k])[:150], str(p1[k])[:150]) for k in bad])
    # with no spectral estimate (a very short record) there is nothing to draw
    if mc and err is None and np.isfinite(np.asarray(res.g_ci if "g_ci" in res else res.theta_ci, float)).any():
        r1 = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
        ctx.check(r0 != r1, "MC random state changes")
    return res, err


def run_case(ctx):
    rng = ctx.rng
    old = np.seterr(**{k: str(rng.choice(["ignore", "warn"])) for k in ("divide", "over", "under", "invalid")})
    filters = list(warnings.filters)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            warnings.filterwarnings(str(rng.choice(["ignore", "always"])), category=DeprecationWarning, message=f"q{ctx.idx}")
            body(ctx)
    finally:
        np.seterr(**old)
        warnings.filters[:] = filters


def body(ctx):
    rng = ctx.rng
    if ctx.idx % 5 == 4:
        return guests(ctx)
    p = work.Problem(rng, nmax=400, maxcond=100)
    p.tell(ctx)
    n = len(p.t)
    bases, args = [], []
    opts = dict(p.opts)
    ts, opts["epoch"] = clock(rng, p.t)
    ctx.note(f"epoch={type(opts['epoch']).__name__} {opts['epoch'] if isinstance(opts['epoch'], str) else ''}", "times=" + type(ts).__name__)
    for x in [ts] + p.x:
        if isinstance(x, np.ndarray) and x.dtype == float:
            a, b = wrap(rng, x, n)
        else:
            a, b = x, []
        args.append(a)
        bases += b
    opts["constit"] = work.pick(rng, [list, tuple, np.array])(p.names)
    q = rng.random()
    mc = q > 0.8
    opts["conf_int"] = "linear" if q < 0.6 else "none" if q < 0.8 else "MC"
    opts["white"] = bool(rng.random() < 0.4)
    if rng.random() < 0.3:
        opts["method"] = "robust"
        if rng.random() < 0.7:
            opts["robust_kw"] = {"weight_function": work.pick(rng, ["cauchy", "huber", "bisquare"])}
    if rng.random() < 0.4:
        opts["order_constit"] = work.pick(rng, [list, np.array])([str(z) for z in rng.permutation(p.names)])
    if rng.random() < 0.4 and not mc:
        inf = work.add_inference(rng, p)
        if inf:
            Ep, Em, _ = work.infer_design(p, inf)
            if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) < 300:
                if rng.random() < 0.5:
                    inf.approximate = bool(rng.random() < 0.5)
                opts["infer"] = inf.spec(container=work.pick(rng, [dict, ctx.utide.utilities.Bunch]), lists=work.pick(rng, [list, tuple, np.array]))
                opts.pop("order_constit", None)
    fails = rng.random() < 0.3
    if fails:
        k = int(rng.integers(0, 6))
        if k == 0:
            opts["constit"] = list(p.names) + ["XX9"]
        elif k == 1:
            opts["order_constit"] = ["NOPE"]
        elif k == 2:
            opts["unknown_option"] = 3
        elif k == 3:
            opts["infer"] = dict(inferred_names=["S2"], reference_names=["M2"], amp_ratios=[1.0])
        elif k == 4:
            opts.update(method="robust", robust_kw={"weight_function": "nonesuch"})
        else:
            args[1] = args[1][:-1]
        ctx.note(f"failing kind {k}")
    lat = work.pick(rng, [p.lat, np.float64(p.lat), np.array(p.lat)]) if not fails else p.lat
    verbose = bool(rng.random() < 0.15)
    opts["verbose"] = verbose
    ctx.note(f"verbose={verbose}", f"conf_int={opts['conf_int']}", f"method={opts.get('method', 'ols')}", f"infer={'infer' in opts}")
    t, u, v = args[0], args[1], (args[2] if p.dim == 2 else None)
    held = [args, bases, opts, lat]
    T0 = snap.tables()
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    pristine = copy.deepcopy((args, opts, lat))

    def call():
        if verbose:
            import contextlib
            import io

            with contextlib.redirect_stdout(io.StringIO()):
                return ctx.solve(t, u, v, lat, **opts)
        return ctx.solve(t, u, v, lat, **opts)

    c, err = watch(ctx, "solve" if not fails else "failing", call, held, mc)
    if verbose:
        ctx.check(True, "verbose call process state")
    if fails:
        ctx.check(err is not None, "invalid call fails")
        return
    if err is not None:
        raise err
    first = copy.deepcopy(c)
    # prediction
    held = [c]
    tp = p.t[: int(rng.integers(2, n))] + float(rng.uniform(-100, 100))
    tp, epoch = clock(rng, tp)
    ta, tb = wrap(rng, tp, len(tp)) if isinstance(tp, np.ndarray) and tp.dtype == float else (tp, [])
    kw = {}
    if rng.random() < 0.5:
        kw["constit"] = work.pick(rng, [list, tuple, np.array])(list(p.names[: max(1, len(p.names) // 2)]))
    elif rng.random() < 0.6:
        kw.update(min_SNR=float(rng.uniform(0, 5)), min_PE=float(rng.uniform(0, 3)))
    bad = rng.random() < 0.2
    if bad:
        kw["epoch"] = "not a date"
    else:
        kw["epoch"] = epoch
    kwp = copy.deepcopy((ta, kw))
    out, err = watch(ctx, "reconstruct", lambda: ctx.reconstruct(ta, c, **kw), [c, ta, tb, kw])
    if bad:
        ctx.check(err is not None, "invalid call fails")
        return
    if err is not None:
        raise err
    fout = copy.deepcopy(dict(out))
    # corrupt what was returned, then repeat with pristine arguments
    m = snap.scribble(out, rng, skip=("t_in", "t_mpl", "constit"))
    out2 = ctx.reconstruct(kwp[0], copy.deepcopy(first), **kwp[1])
    for k in ("h", "u", "v"):
        if k in fout:
            ctx.same(out2[k], fout[k], "after scribbling: prediction")
    # the prediction is no view of the solution, and the solution was not corrupted
    ctx.check(snap.freeze(values(c)) == snap.freeze(values(first)), "scribbled prediction leaves solution")
    m += snap.scribble(c, rng)
    ctx.event("objects corrupted", m)
    f0, f1 = (snap.freeze([q[0], q[1], q[2]]) for q in (pristine, (args, opts, lat)))
    ctx.check(f0 == f1, "after scribbling: arguments", snap.diff(f0, f1))
    T1 = snap.tables()
    bad = [k for k in T0 if T0[k] != T1[k]]
    ctx.check(not bad, "after scribbling: tables", bad)
    (a, o, la) = pristine
    np.random.seed(seed)
    o["verbose"] = False
    d = ctx.solve(a[0], a[1], a[2] if p.dim == 2 else None, la, **o)
    f0, f1 = snap.freeze(values(first)), snap.freeze(values(d))
    ctx.check(f0 == f1, "after scribbling: solution", snap.diff(f0, f1))


def guests(ctx):
    """the calls other workloads make, valid or not"""

    def around(what, fn, a, kw):
        res, err = watch(ctx, what, lambda: fn(*a, **kw), [list(a), kw], mc=kw.get("conf_int") == "MC")
        if err is not None:
            raise err
        return res

    guest.run(ctx, around, limit=8)


def values(c):
    """the numbers and names of a solution"""
    keys = "name A A_ci g g_ci Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci PE SNR mean slope umean vmean uslope vslope weights nR nNR nI".split()
    d = {k: np.array(c[k]) for k in keys if k in c}
    d["aux"] = {k: np.array(c["aux"][k]) for k in ("frq", "lind", "reftime", "lat")}
    return d
