"""C30 the process environment does not matter."""
import contextlib
import decimal
import gc
import locale
import os
import pickle
import random
import subprocess
import sys
import tempfile
import time
import warnings

import numpy as np

from rvm import env, snap, work
from rvm.props.c18 import clock, values

CASES = {"quick": 264, "thorough": 9000}
CHILDREN = True
TECHNIQUE = "differential monitor: calls recorded in the reference environment are repeated with the process environment changed (time zone, locale, hash seed, working directory, interpreter flags, numpy error and print settings, warning filters, random states, closed streams) in the same and in fresh processes, and every output is compared bit for bit (with several BLAS threads: to rounding)"
RULE = "Random analyses and predictions with every option and time form (naive datetimes, datetime64, pandas, numbers with every kind of epoch), each repeated under several random changes of environment; every sixth case also in a fresh process with random variables and interpreter flags."
REQUIRED = ("time zone", "working directory", "numpy errors raised", "warnings raised", "random states", "streams closed", "print options", "collector", "decimal context", "fresh process")
ZONES = ["America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Europe/London", "Australia/Lord_Howe", "XYZ-13:30", "ABC11DEF", "America/St_Johns", "Africa/Monrovia"]


def job(ctx):
    """((solve args, options), [(times, options)])"""
    rng = ctx.rng
    start = None if rng.random() < 0.4 else float(rng.uniform(719163, 745000))
    p = work.Problem(rng, nmax=250, maxcond=60, ncon=int(rng.integers(1, 7)), start=start)
    p.tell(ctx)
    o = dict(p.opts)
    t, o["epoch"] = clock(rng, p.t)
    o["conf_int"] = work.pick(rng, ["linear", "linear", "none", "MC"])
    o["white"] = bool(rng.random() < 0.4)
    if rng.random() < 0.2:
        o["method"] = "robust"
    if rng.random() < 0.4:
        o["order_constit"] = work.pick(rng, ["frequency", "PE", [str(n) for n in rng.permutation(p.names)]])
    if rng.random() < 0.35 and o["conf_int"] != "MC":
        inf = work.add_inference(rng, p)
        if inf:
            Ep, Em, _ = work.infer_design(p, inf)
            if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) < 300:
                o["infer"] = inf.spec()
                o.pop("order_constit", None)
    elif rng.random() < 0.2 and p.lor > 3:
        o["constit"] = "auto"
        o["Rayleigh_min"] = float(rng.uniform(2, 4))
        # a robust fit of a few constituents too many to the observations ends in weights
        # that fit as many of them exactly: any, by rounding
        o.pop("method", None)
        o["conf_int"] = "none"
        o.pop("order_constit", None)
    x = [c.copy() for c in p.x]
    if rng.random() < 0.3:
        x[0][1:-1][rng.random(len(p.t) - 2) < 0.06] = np.nan
    ctx.note("times=" + type(t).__name__, f"epoch={o['epoch']}", f"conf_int={o['conf_int']}")
    rec = []
    for _ in range(2):
        tp, ep = clock(rng, p.t[: int(rng.integers(2, 25))] + float(rng.integers(-300, 300)))
        kw = dict(epoch=ep)
        if o["conf_int"] == "none" or rng.random() < 0.5:
            kw["min_SNR"] = 0
        rec.append((tp, kw))
    return ((t, x[0], x[1] if p.dim == 2 else None, p.lat), o), rec, int(rng.integers(2**31))


def perform(solve, reconstruct, jobs):
    out = []
    for ((a, o), rec, seed) in jobs:
        np.random.seed(seed)
        c = solve(*a, **{**o, "verbose": False})
        r = []
        for t, kw in rec:
            q = reconstruct(t, c, **{**kw, "verbose": False})
            r.append([np.asarray(z) for z in work.series(q)] + ([np.asarray(q["t_mpl"])] if kw["epoch"] != "python" else []))
        out.append((values(c), r))
    return out


@contextlib.contextmanager
def changed(rng, what):
    """the environment changed in one way"""
    if what == "time zone":
        old = os.environ.get("TZ")
        os.environ["TZ"] = work.pick(rng, ZONES)
        time.tzset()
        try:
            yield os.environ["TZ"]
        finally:
            if old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = old
            time.tzset()
    elif what == "working directory":
        old = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="rvm30-") as d:
            os.chdir(d)
            try:
                yield d
            finally:
                os.chdir(old)
    elif what == "numpy errors raised":
        with np.errstate(divide="raise", over="raise", invalid="raise"):
            yield
    elif what == "warnings raised":
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            yield
    elif what == "random states":
        s = random.getstate()
        random.seed(int(rng.integers(1000)))
        try:
            yield
        finally:
            random.setstate(s)
    elif what == "streams closed":
        s = sys.stdout, sys.stderr, sys.stdin
        sys.stdout = sys.stderr = sys.stdin = None
        try:
            yield
        finally:
            sys.stdout, sys.stderr, sys.stdin = s
    elif what == "print options":
        with np.printoptions(precision=2, threshold=3, suppress=True, legacy=work.pick(rng, [False, "1.13"])):
            yield
    elif what == "collector":
        g = gc.get_threshold()
        k = rng.integers(2)
        if k:
            gc.disable()
        else:
            gc.set_threshold(5)
        try:
            yield
        finally:
            gc.enable()
            gc.set_threshold(*g)
    elif what == "decimal context":
        with decimal.localcontext() as c:
            c.prec = 3
            c.traps[decimal.Inexact] = True
            yield
    elif what == "locale":
        old = locale.setlocale(locale.LC_ALL)
        locale.setlocale(locale.LC_ALL, work.pick(rng, ["C", "C.utf8", "POSIX"]))
        try:
            yield
        finally:
            locale.setlocale(locale.LC_ALL, old)
    else:
        import pandas as pd

        with pd.option_context("display.precision", 2, "mode.chained_assignment", "raise"):
            yield


KINDS = ["time zone", "time zone", "working directory", "numpy errors raised", "warnings raised", "random states", "streams closed", "print options", "collector", "decimal context", "locale", "pandas options"]


def run_case(ctx):
    rng = ctx.rng
    fresh = ctx.idx % 6 == 5
    jobs = [job(ctx) for _ in range(6 if fresh else 2)]
    base = perform(ctx.solve, ctx.reconstruct, jobs)
    ref = snap.freeze(base)
    kinds = ["time zone"] + [KINDS[int(k)] for k in rng.choice(np.arange(2, len(KINDS)), 4, replace=False)]
    for what in kinds:
        with changed(rng, what):
            err = None
            try:
                got = snap.freeze(perform(ctx.solve, ctx.reconstruct, jobs))
            except Exception as e:
                err = e
        ctx.event("environment changed")
        ctx.check(err is None, what, f"raised {type(err).__name__}: {err}")
        if err is None:
            ctx.check(got == ref, what, snap.diff(ref, got))
    if fresh:
        child(ctx, jobs, base)


def child(ctx, jobs, base):
    rng = ctx.rng
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(int(rng.integers(1, 10**6)))
    e["TZ"] = work.pick(rng, ZONES)
    e["LC_ALL"] = work.pick(rng, ["C", "C.utf8", "POSIX", "de_DE.UTF-8"])
    e["OPENBLAS_NUM_THREADS"] = str(work.pick(rng, [1, 1, 1, 2]))
    e["COLUMNS"] = "7"
    if rng.random() < 0.3:
        e["PYTHONUTF8"] = "0"
    if rng.random() < 0.3:
        e.pop("HOME", None)
    flags = [["-O"], ["-OO"], ["-W", "error"], ["-X", "dev"], ["-I"], []][int(rng.integers(6))]
    if flags == ["-W", "error"] or flags == ["-X", "dev"]:
        # (third-party modules may warn while being imported)
        e["RVM30_WARN"], flags = "error", []
    ctx.note("flags=" + " ".join(flags), "LC_ALL=" + e["LC_ALL"])
    with tempfile.TemporaryDirectory(prefix="rvm30-") as d:
        a, b = os.path.join(d, "in"), os.path.join(d, "out")
        with open(a, "wb") as f:
            pickle.dump(jobs, f)
        r = subprocess.run(
            [sys.executable, "-B", *flags, os.path.join(env.HERE, "props", "c30_child.py"), a, b, env.VERIF],
            cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200,
        )
        ctx.event("fresh process")
        if not ctx.check(r.returncode == 0, "fresh process", (r.stderr or b"").decode()[-500:], flags=flags):
            return
        with open(b, "rb") as f:
            got = pickle.load(f)
    if e["OPENBLAS_NUM_THREADS"] == "1":  # not even the order of a sum may differ
        f, g = snap.freeze(base), snap.freeze(got)
        ctx.check(f == g, "fresh process: bits", snap.diff(f, g))
    for (c0, r0), (c1, r1) in zip(base, got):
        ctx.check(set(c0) == set(c1), "fresh process: fields", f"{sorted(c0)} {sorted(c1)}")
        ctx.check(list(c0["name"]) == list(c1["name"]), "fresh process: names")
        # other BLAS threads sum in another order
        for k in c0:
            if k not in ("name", "aux") and np.size(c0[k]) and np.asarray(c0[k]).dtype.kind == "f":
                x, y = np.asarray(c0[k], float), np.asarray(c1[k], float)
                if k in ("theta", "g"):
                    continue
                s = np.nanmax(np.abs(x)) if np.isfinite(x).any() else 1.0
                ctx.close(y, x, 1e-6 * np.abs(x) + 1e-8 * s, "fresh process: " + ("ci" if k.endswith("_ci") else "values"))
        for u, v in zip(r0, r1):
            for y, z in zip(u, v):
                s = np.nanmax(np.abs(y)) if y.size else 1.0
                ctx.close(z, y, 1e-8 * s, "fresh process: prediction")


