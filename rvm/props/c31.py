"""C31 results describe the analysis they come from."""
from copy import deepcopy

import numpy as np

from rvm import ref, snap, work
from rvm.props.c18 import clock

CASES = {"quick": 1300, "thorough": 16000}
TECHNIQUE = "online monitor of every returned record: its configuration, counts, fields, shapes and times are compared with what was asked for in the recorded call, again after the caller has overwritten the arguments"
RULE = "Random analyses and predictions with every option (also stated defaults), with missing values in each encoding and place, every time form, lists, tuples and arrays; solutions and predictions inspected at once, after overwriting the arguments and after a prediction."
REQUIRED = (
    "options", "latitude", "reference time", "kind", "counts", "constituents", "fields", "weights", "robust record",
    "shapes", "frequency and index", "arguments overwritten: solution", "arguments overwritten: options", "arguments overwritten: prediction",
    "solution unchanged by predictions", "prediction: times as given", "prediction: days", "prediction: options", "prediction: fields",
)
DEFAULTS = dict(
    constit="auto", order_constit="PE", conf_int="linear", method="ols", trend=True, phase="Greenwich", nodal=True,
    infer=None, MC_n=200, Rayleigh_min=1, robust_kw={"weight_function": "cauchy"}, white=False, verbose=True, epoch=None,
)


def plain(x):
    """comparable form: containers of any kind, numbers of any type"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray)):
        return [plain(v) for v in (x.tolist() if isinstance(x, np.ndarray) else x)]
    if isinstance(x, np.generic):
        return x.item()
    return x


def run_case(ctx):
    rng = ctx.rng
    kw = work.large(rng) if ctx.idx % 90 == 11 else dict(nmax=500, ncon=int(work.pick(rng, [1, 2, 4, 8, 20])))
    p = work.Problem(rng, start=None if rng.random() < 0.4 else float(rng.uniform(719163, 745000)), **kw)
    o = {}
    for k, v in p.opts.items():  # options equal to their defaults stated or not
        if k == "epoch" or k not in DEFAULTS or plain(v) != DEFAULTS[k] or rng.random() < 0.5:
            o[k] = v
    o["constit"] = work.pick(rng, [list, tuple, np.array])(p.names)
    q = rng.random()
    if q > 0.5:
        o["conf_int"] = "none" if q < 0.75 else "linear" if q < 0.9 else "MC"
    ci = o.get("conf_int", "linear")
    if rng.random() < 0.4:
        o["white"] = bool(rng.random() < 0.7)
    if rng.random() < 0.4 and len(p.t) < 2500:
        o["method"] = work.pick(rng, ["robust", "robust", "ols"])
        if rng.random() < 0.5:
            o["robust_kw"] = work.pick(rng, [{"weight_function": "huber"}, {"weight_function": "cauchy"}, {"weight_function": "bisquare", "tune": 5.0}, {"maxit": 40}])
    robust = o.get("method") == "robust"
    inf = None
    if rng.random() < 0.3 and ci != "MC":
        inf = work.add_inference(rng, p)
        if inf is not None:
            Ep, Em, _ = work.infer_design(p, inf)
            if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) > 300:
                inf = None
        if inf is not None:
            inf.approximate = work.pick(rng, [None, True, False])
            o["infer"] = inf.spec(lists=work.pick(rng, [list, tuple]))
            if rng.random() < 0.3:  # inferred constituents may be requested too
                o["constit"] = [str(n) for n in rng.permutation(list(p.names) + inf.inferred)]
    if rng.random() < 0.15:  # a name listed twice is still one constituent
        more = [str(n) for n in rng.choice(list(o["constit"]), int(work.pick(rng, [1, 2, 3, 40])))]
        o["constit"] = [str(n) for n in rng.permutation(list(o["constit"]) + more)]
        ctx.note("repeated names")
    every = list(p.names) + (inf.inferred if inf else [])
    q = rng.random()
    if q < 0.6:
        o["order_constit"] = work.pick(rng, ["PE", "frequency", None, [str(n) for n in rng.permutation(every)]] + (["SNR"] if ci != "none" else []))
    if rng.random() < 0.15:
        o["MC_n"] = 100
    if rng.random() < 0.2:
        o["Rayleigh_min"] = work.pick(rng, [1, 0.7, 2.0])
    p.tell(ctx)
    if ci == "none" and rng.random() < 0.3:  # observations listed backwards
        p.t, p.x = p.t[::-1].copy(), [c[::-1].copy() for c in p.x]
        ctx.note("listed backwards")
    # observations, some of them missing; times, some of them missing
    x = [c.copy() for c in p.x]
    n = len(p.t)
    gone = np.zeros(n, bool)
    if rng.random() < 0.5:
        for c in x:
            m = rng.random(n) < 0.05
            m[[0, -1]] = False
            if rng.random() < 0.2:
                m[-3:] = True
            c[m] = work.pick(rng, [np.nan, np.inf])
            gone |= m
    if rng.random() < 0.3:
        y = [np.ma.masked_invalid(c) for c in x]
    else:
        y = x
    t, o["epoch"] = clock(rng, p.t)
    if rng.random() < 0.3 and isinstance(t, np.ndarray) and t.dtype.kind in "fM":
        t = t.copy()
        m = rng.random(n) < 0.04
        m[[0, -1]] = False
        t[m] = np.nan if t.dtype.kind == "f" else np.datetime64("NaT")
        badt = m
    else:
        badt = np.zeros(n, bool)
    gone |= badt
    ctx.note(f"epoch={o['epoch']}", "times=" + type(t).__name__, f"missing={gone.any()}", f"order={o.get('order_constit', 'default') if not isinstance(o.get('order_constit'), list) else 'sequence'}")
    if o["epoch"] is None and rng.random() < 0.5:
        del o["epoch"]
    args = [t, y[0], y[1] if p.dim == 2 else None]
    o = deepcopy(o)
    asked = deepcopy(o)
    if rng.random() < 0.5:
        np.random.seed(int(rng.integers(2**31)))
    lat = np.array(p.lat) if rng.random() < 0.3 else p.lat
    c = ctx.solve(*args, lat, **o)

    tp = np.delete(p.t, np.flatnonzero(badt))
    tg = np.delete(p.t, np.flatnonzero(gone))
    # a regular record keeps its ends though their observations be missing
    eps = resolution(t)
    centre = [0.5 * (a[0] + a[-1]) for a in (tp, tg)]
    inspect(ctx, p, c, asked, inf, every, int((~gone).sum()), centre, robust, ci, eps)
    if robust and not (inf and inf.approximate) and p.sigma > 1e-6 * p.scale and len(tg) > 80 + 6 * len(every):
        order_of_weights(ctx, c, tg, [q[~gone] for q in x])

    # a prediction of the solution
    tq = p.t[: int(rng.integers(1, 30))] + float(rng.integers(-200, 200))
    pt, ep = clock(rng, tq.copy())
    if rng.random() < 0.1 and ep == "python":
        pt = float(tq[0])
    nogood = np.zeros(np.size(pt), bool)
    if isinstance(pt, np.ndarray) and pt.dtype.kind == "f" and rng.random() < 0.4:
        pt = pt.copy()
        nogood = rng.random(len(pt)) < 0.2
        pt[nogood] = np.nan
    ro = {} if ci != "none" else {"min_SNR": 0}
    if rng.random() < 0.3:
        ro["constit"] = [str(n_) for n_ in rng.permutation(every)[: int(rng.integers(0, 4))]]
    if rng.random() < 0.3:
        ro["min_SNR"] = work.pick(rng, [0, 0.5, 3]) if ci != "none" else 0
    if rng.random() < 0.3:
        ro["min_PE"] = work.pick(rng, [0, 0.1, 20.0])
    if ep is not None or rng.random() < 0.5:
        ro["epoch"] = ep
    asked_r = deepcopy(ro)
    f0 = snap.freeze(dict(c))
    r = ctx.reconstruct(pt, c, **ro)
    f1 = snap.freeze(dict(c))
    ctx.check(f0 == f1, "solution unchanged by predictions", snap.diff(f0, f1))

    ctx.check(r["t_in"] is pt or snap.freeze(r["t_in"]) == snap.freeze(pt), "prediction: times as given")
    days = np.atleast_1d(np.asarray(r["t_mpl"], float))
    good = ~nogood
    if ctx.check(days.shape == good.shape, "prediction: days", f"{days.shape} {good.shape}"):
        want = tq[: len(good)]
        ctx.close(days[good], want[good], resolution(pt), "prediction: days")
    for k, d in dict(epoch=None, constit=None, min_SNR=2, min_PE=0).items():
        ctx.check(k in r and plain(r[k]) == plain(asked_r.get(k, d)), "prediction: options", f"{k}: {r.get(k)} {asked_r.get(k, d)}")
    ctx.check(set("uvh") & set(r) == (set("uv") if p.dim == 2 else {"h"}), "prediction: fields", sorted(r))
    for z in work.series(r):
        ctx.check(isinstance(z, np.ndarray) and z.dtype == float and z.shape == good.shape and not np.ma.isMaskedArray(z), "prediction: fields", f"{type(z)} {np.shape(z)}")
        ctx.check((np.isnan(z) == nogood).all(), "prediction: fields", "NaN exactly at missing times")
    if p.dim == 2:
        ctx.check(not np.shares_memory(r["u"], r["v"]), "prediction: fields", "u and v share memory")

    # the caller's own objects are overwritten
    keep = {k: v for k, v in r.items() if k in "uvh"}
    if ep != "python":  # (documented: with that epoch t_mpl is the argument itself)
        keep["t_mpl"] = r["t_mpl"]
    v0, k0 = numbers(c), snap.freeze(keep)
    q0 = options(c)
    for a in args + [pt, ro, lat] + [v for v in o.values() if isinstance(v, (dict, list, np.ndarray))]:
        if np.ma.isMaskedArray(a):
            a.data[...] = 5.5
        elif isinstance(a, (np.ndarray, list, dict)):
            snap.scribble(a, rng)
    v1, k1 = numbers(c), snap.freeze(keep)
    q1 = options(c)
    ctx.check(q0 == q1, "arguments overwritten: options", [(k, q0.get(k), q1.get(k)) for k in {**q0, **q1} if q0.get(k) != q1.get(k)])
    ctx.check(v0 == v1, "arguments overwritten: solution", snap.diff(v0, v1))
    ctx.check(k0 == k1, "arguments overwritten: prediction", snap.diff(k0, k1))
    r2 = ctx.reconstruct(tq, c, epoch="python", **{k: v for k, v in asked_r.items() if k != "epoch"})
    for a, b in zip(work.series(r2), work.series(r)):
        g = good[: len(b)]
        ctx.close(a[: len(b)][g], b[g], (5e-7 if resolution(pt) < 1e-7 else 2e-3) * np.abs(work.zz(c, list(c["name"]))).sum() + 1e-9 * (np.abs(work.means(c)).sum() + np.abs(work.slopes(c)).sum() * 1e3), "arguments overwritten: prediction")


def resolution(t):
    """days lost in the form of the times"""
    return 2e-5 if isinstance(t, np.ndarray) and t.dtype == np.dtype("M8[s]") else 1e-8


def numbers(c):
    """what a solution says about the data and is needed for predictions"""
    a = c["aux"]
    d = {k: v for k, v in c.items() if k not in ("aux", "rf")}
    d["aux"] = {k: a[k] for k in ("frq", "lind", "lat", "reftime")}
    d["opt"] = {k: a["opt"][k] for k in ("twodim", "notrend", "nodiagn", "nodsatlint", "nodsatnone", "gwchlint", "gwchnone")}
    return snap.freeze(d)


def options(c):
    """the configuration recorded in a solution"""
    o = c["aux"]["opt"]
    return plain({"own": {k: v for k, v in o.items() if k != "newopts"}, **o["newopts"]})


def order_of_weights(ctx, c, t, x):
    """each weight is that of its observation: the larger the residual the smaller"""
    h = work.series(ctx.reconstruct(t, c, epoch="python", min_SNR=0))
    r = np.sqrt(sum((a - b) ** 2 for a, b in zip(x, h)))
    r = r / np.sqrt(np.maximum(1 - np.asarray(c["rf"]["leverage"]), 1e-9))
    w = np.asarray(c["weights"])
    low = w < 0.5 * (w.min() + w.max())
    if np.ptp(w) < 0.05 or min(low.sum(), (~low).sum()) < 5:
        return
    auc = (r[low][:, None] > r[~low]).mean()
    ctx.check(auc > 0.8, "weights: by observation", f"small weights have the larger residual in {auc:.3f} of the pairs")


def inspect(ctx, p, c, asked, inf, every, ngood, centre, robust, ci, eps):
    opt, aux = c["aux"]["opt"], c["aux"]
    # configuration
    want = {**DEFAULTS, **plain({**asked, "verbose": False})}
    if want["order_constit"] is None:
        want["order_constit"] = "PE"
    if want["infer"]:
        want["infer"].setdefault("approximate", False)
    got = plain(dict(opt["newopts"]))
    for k in sorted(set(want) | set(got)):
        ctx.check(k in want and k in got and want[k] == got[k], "options", f"{k}: asked {want.get(k)!r} recorded {got.get(k)!r}")
    ctx.check(opt["epoch"] is want["epoch"] or opt["epoch"] == want["epoch"], "options", "epoch")
    ctx.check(aux["lat"] == p.lat, "latitude", aux["lat"])
    tr = float(aux["reftime"])
    ctx.check(min(abs(tr - m) for m in centre) < eps, "reference time", f"{tr} {centre}")
    ctx.check(bool(opt["twodim"]) == (p.dim == 2) and bool(opt["notrend"]) == (not p.trend) and bool(opt["nodiagn"]) == (ci == "none"), "kind")
    # constituents
    names = list(c["name"])
    n = len(every)
    ctx.check(sorted(names) == sorted(every), "constituents", f"{names} / {every}")
    nR = len(set(inf.reference)) if inf else 0
    nI = len(inf.inferred) if inf else 0
    ctx.check((c["nR"], c["nI"], c["nNR"]) == (nR, nI, n - nR - nI), "counts", f"{c['nR'], c['nI'], c['nNR']} {nR, nI, n}")
    lind = np.array([ref.INDEX[m] for m in names])
    ctx.check(np.array_equal(np.asarray(aux["lind"]), lind), "frequency and index")
    f = ref.FREQ[lind]
    ctx.check((np.abs(np.asarray(aux["frq"]) - f) < 2e-7 + 1e-5 * f).all(), "frequency and index", "frq")
    # fields
    have = set(c) & (set(work.FIELDS) | {"mean", "slope", "umean", "vmean", "uslope", "vslope", "rf", "diagn", "weights"})
    need = {"A", "g", "mean"} if p.dim == 1 else {"Lsmaj", "Lsmin", "theta", "g", "umean", "vmean"}
    if p.trend:
        need |= {"slope"} if p.dim == 1 else {"uslope", "vslope"}
    if ci != "none":
        need |= set(work.CIS1 if p.dim == 1 else work.CIS2) | {"SNR", "PE", "diagn"}
    if asked.get("order_constit", "PE") in (None, "PE") if not isinstance(asked.get("order_constit"), list) else False:
        need |= {"PE"}
    if robust:
        need |= {"rf"}
    ctx.check(have - {"weights"} == need, "fields", f"missing {sorted(need - have)}, unexpected {sorted(have - need - {'weights'})}")
    for k in have & set(work.FIELDS):
        a = c[k]
        ctx.check(isinstance(a, np.ndarray) and a.shape == (n,) and a.dtype == float, "shapes", f"{k} {type(a)} {np.shape(a)}")
    for k in have & {"mean", "slope", "umean", "vmean", "uslope", "vslope"}:
        ctx.check(np.ndim(c[k]) == 0 and isinstance(float(c[k]), float) and not np.iscomplexobj(c[k]), "shapes", k)
    for k in ("frq", "lind"):
        ctx.check(np.shape(aux[k]) == (n,), "shapes", k)
    # weights
    w = np.asarray(c["weights"])
    if ctx.check(w.shape == (ngood,), "weights", f"{w.shape} for {ngood} observations"):
        if robust:
            ctx.check((w >= 0).all() and (w <= 1 + 1e-12).all(), "weights", f"{w.min()} {w.max()}")
        else:
            ctx.check((w == 1).all(), "weights")
    if robust:
        ctx.check(np.array_equal(np.asarray(c["rf"]["w"]), w), "robust record", "weights of the record")
    else:
        ctx.check("rf" not in c, "robust record")
