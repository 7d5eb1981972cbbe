"""C23 verbose controls messages only."""
import datetime as dtm
import os
import sys
import tempfile
import warnings

import numpy as np

from rvm import guest, snap, work
from rvm.props.c18 import values

CASES = {"quick": 1400, "thorough": 10000}
TECHNIQUE = "output monitor at file-descriptor level (descriptors 1 and 2 and the Python streams redirected around each recorded call, with warnings made visible), and bitwise comparison of results between verbosity levels"
RULE = "Random valid analyses and predictions with every option (conf_int, method, inference, order, missing values, masked arrays, all time forms), each run silently, verbosely and with the default."
REQUIRED = ("silent solve: stdout", "silent solve: stderr", "silent reconstruct: stdout", "silent reconstruct: stderr", "verbose solve reports", "verbose reconstruct reports", "default solve reports", "default reconstruct reports", "verbose stderr", "same solution", "same prediction")


class Capture:
    """everything written to descriptors 1 and 2 and to the Python streams"""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.files = [tempfile.TemporaryFile(), tempfile.TemporaryFile()]
        self.saved = [os.dup(1), os.dup(2)]
        os.dup2(self.files[0].fileno(), 1)
        os.dup2(self.files[1].fileno(), 2)
        self.streams = sys.stdout, sys.stderr
        sys.stdout = open(1, "w", closefd=False)
        sys.stderr = open(2, "w", closefd=False)
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.w.__exit__(*a)
        sys.stdout.flush()
        sys.stderr.flush()
        sys.stdout, sys.stderr = self.streams
        self.out = []
        for k, (f, s) in enumerate(zip(self.files, self.saved)):
            os.dup2(s, k + 1)
            os.close(s)
            f.seek(0)
            self.out.append(f.read().decode(errors="replace"))
            f.close()


def guests(ctx):
    """the successful calls other workloads make are silent"""

    def around(what, fn, a, kw):
        kw = {**kw, "verbose": False}
        with Capture() as c:
            r = fn(*a, **kw)
        ctx.check(c.out[0] == "", f"silent {what}: stdout", repr(c.out[0][:300]))
        # zero over zero (data fitted exactly) is announced by numpy
        c0 = r if what == "solve" else kw.get("coef", a[1] if len(a) > 1 else {})
        if not any(np.isnan(c0.get(k, 0)).any() for k in ("SNR", "PE")) and (np.abs(work.ref.amplitudes(c0)) > 0).any():
            ctx.check(c.out[1] == "", f"silent {what}: stderr", repr(c.out[1][:300]))
        return r

    guest.run(ctx, around)


def robust_options(rng):
    wf = work.pick(rng, "cauchy huber bisquare andrews fair logistic talwar welsch ols".split())
    kw = {"weight_function": wf}
    if rng.random() < 0.3:
        kw["maxit"] = int(rng.integers(1, 8))
    if rng.random() < 0.3:
        kw["tol"] = float(10 ** rng.uniform(-12, -1))
    if rng.random() < 0.3:
        from utide.robustfit import tune_defaults

        kw["tune"] = tune_defaults[wf] * float(rng.uniform(0.7, 2))
    if rng.random() < 0.2:
        kw["rcond"] = work.pick(rng, [None, 1e-12])
    return kw


def run_case(ctx):
    rng = ctx.rng
    if ctx.idx % 4 == 3:
        return guests(ctx)
    p = work.Problem(rng, nmax=300, lat=None)
    p.tell(ctx)
    o = dict(p.opts)
    q = rng.random()
    mc = q > 0.85
    if mc and rng.random() < 0.4:  # any units
        f = float(10 ** rng.uniform(-12, 15))
        p.x = [c * f for c in p.x]
        p.scale *= f
    o["conf_int"] = "linear" if q < 0.6 else "none" if q < 0.85 else "MC"
    o["white"] = bool(rng.random() < 0.5)
    if rng.random() < 0.3:
        o["method"] = "robust"
        o["robust_kw"] = robust_options(rng)
    if rng.random() < 0.4:
        o["order_constit"] = work.pick(rng, ["frequency", "PE", list(p.names)])
    if rng.random() < 0.25 and not mc:
        inf = work.add_inference(rng, p)
        if inf:
            Ep, Em, _ = work.infer_design(p, inf)
            if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) < 300:
                if rng.random() < 0.5:
                    inf.approximate = bool(rng.random() < 0.5)
                o["infer"] = inf.spec()
                o.pop("order_constit", None)
    x = [c.copy() for c in p.x]
    t = p.t
    form = work.pick(rng, ["plain", "nan", "inf", "masked", "missing times", "datetime64", "list", "datetimes"])
    bad = rng.random(len(t)) < 0.05
    bad[[0, 1, -2, -1]] = False
    if form in ("nan", "inf"):
        x[0][bad] = np.nan if form == "nan" else np.inf
    elif form == "masked":
        x = [np.ma.array(c, mask=bad) for c in x]
    elif form == "missing times":
        t = np.where(bad, np.nan, t)
    elif form == "datetime64":
        t = np.round((t - 719163) * 86400e3).astype("datetime64[ms]")
        o["epoch"] = None
    elif form == "datetimes":
        utc = dtm.timezone.utc
        z = work.pick(rng, [None, utc, dtm.timezone(dtm.timedelta(hours=int(rng.integers(-12, 13))))])
        t = np.round((t - 719163) * 86400e3).astype("datetime64[ms]").astype(object).tolist()
        if z:
            t = [q.replace(tzinfo=utc).astimezone(z) for q in t]
        o["epoch"] = None
    elif form == "list":
        t, x = t.tolist(), [c.tolist() for c in x]
    if rng.random() < 0.15 and p.lor > 5 and len(p.t) > 200 and p.kind == "regular" and "infer" not in o:
        o.pop("constit")
        o.pop("order_constit", None)
        o["Rayleigh_min"] = 2.0
        mc = False
        o["conf_int"] = "none"
    ctx.note("form=" + form, f"conf_int={o['conf_int']}", f"method={o.get('method', 'ols')}", f"infer={'infer' in o}")
    seed = int(rng.integers(2**31))
    v = x[1] if p.dim == 2 else None

    def run(**kw):
        np.random.seed(seed)
        ctx.event("solve", data=(seed, ctx.idx))
        with Capture() as c:
            r = ctx.utide.solve(t, x[0], v, p.lat, **o, **kw)
        return r, c.out

    a, out = run(verbose=False)
    ctx.check(out[0] == "", "silent solve: stdout", repr(out[0][:300]))
    ctx.check(out[1] == "", "silent solve: stderr", repr(out[1][:300]))
    b, out = run(verbose=True)
    ctx.check(out[0].strip() != "", "verbose solve reports")
    ctx.check(out[1] == "", "verbose stderr", repr(out[1][:300]))
    c, out = run()
    ctx.check(out[0].strip() != "", "default solve reports")
    fa = snap.freeze(values(a))
    for r in (b, c):
        fr = snap.freeze(values(r))
        ctx.check(fr == fa, "same solution", snap.diff(fa, fr))
    tp = t if form in ("datetime64", "datetimes") else np.r_[p.tref + rng.uniform(-3000, 3000, 20), np.nan if rng.random() < 0.5 else 7e5]
    kw = work.pick(rng, [{}, {"min_SNR": 0}, {"constit": list(p.names[:2])}, {"min_PE": 1.0}])
    if o["conf_int"] == "none" and "constit" not in kw:
        kw["min_SNR"] = 0
    kw["epoch"] = o["epoch"]
    res = []
    for how in ({"verbose": False}, {"verbose": True}, {}):
        ctx.event("reconstruct", data=how)
        with Capture() as cap:
            r = ctx.utide.reconstruct(tp, a, **kw, **how)
        res.append(r)
        if how == {"verbose": False}:
            ctx.check(cap.out[0] == "", "silent reconstruct: stdout", repr(cap.out[0][:300]))
            ctx.check(cap.out[1] == "", "silent reconstruct: stderr", repr(cap.out[1][:300]))
        else:
            ctx.check(cap.out[0].strip() != "", "verbose reconstruct reports" if how else "default reconstruct reports")
            ctx.check(cap.out[1] == "", "verbose stderr", repr(cap.out[1][:300]))
    for r in res[1:]:
        for y, z in zip(work.series(r), work.series(res[0])):
            ctx.same(y, z, "same prediction")
