"""C24 solutions are self-contained and portable."""
import copy
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from rvm import env, snap, work
from rvm.props.c18 import values

CASES = {"quick": 102, "thorough": 1600}
CHILDREN = True
TECHNIQUE = "round-trip monitor: predictions recorded from the original solution are compared with those of its copies (pickles of every protocol loaded in a fresh process, deep and shallow copies, plain dictionaries), and with the solution found by re-analysing its own prediction"
RULE = "Random noisy analyses with every option (inference, robust, Monte Carlo, orders, missing values); several solutions per fresh process; predictions with different selections and time forms."
REQUIRED = ("fresh process", "deep copy", "plain dictionaries", "unpickled here", "copy is independent", "re-analysis: amplitudes", "re-analysis: mean", "re-analysis: slope")
PER = 6


def plain(x):
    """plain dictionaries all the way down"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def calls(rng, p, c):
    out = []
    names = list(c["name"])
    has = any(k in c for k in ("A_ci", "Lsmaj_ci"))
    for _ in range(3):
        t = p.tref + rng.uniform(-4000, 4000, int(rng.integers(1, 30)))
        kw = work.pick(rng, [{"min_SNR": 0}, {"constit": names[: max(1, len(names) // 2)]}, {"min_PE": 1.0, "min_SNR": 0}] + ([{}, {"min_SNR": 5.0}] if has else []))
        kw = dict(kw)
        q = rng.random()
        if q < 0.3:
            t = np.round((t - 719163) * 86400e3).astype("datetime64[ms]")
        elif q < 0.5:
            t, kw["epoch"] = t + 366, "matlab"
        else:
            kw["epoch"] = "python"
        out.append((t, kw))
    return out


def run_case(ctx):
    rng = ctx.rng
    jobs, expect = [], []
    for _ in range(PER):
        p, c, extra = work.solution(ctx, nmax=350)
        cs = calls(rng, p, c)
        outs = [ctx.reconstruct(t, c, **kw) for t, kw in cs]
        want = [work.series(o) for o in outs]
        before = snap.freeze(values(c))
        proto = int(rng.integers(0, pickle.HIGHEST_PROTOCOL + 1))
        ctx.note(f"pickle protocol {proto}")
        blob = pickle.dumps(c, protocol=proto)
        jobs.append((blob, cs))
        expect.append(want)
        for what, d in (
            ("unpickled here", pickle.loads(blob)),
            ("deep copy", copy.deepcopy(c)),
            ("plain dictionaries", copy.deepcopy(plain(c))),
            ("shallow copy", copy.copy(c)),
            ("shallow copy", type(c)(c)),
        ):
            for (t, kw), w in zip(cs, want):
                for y, z in zip(work.series(ctx.reconstruct(t, d, **kw)), w):
                    ctx.same(y, z, what)
            if what == "deep copy":
                ctx.check(snap.freeze(values(d)) == before, "deep copy")
                snap.scribble(d, rng)
                ctx.check(snap.freeze(values(c)) == before, "copy is independent")
        reanalyse(ctx, p, c, extra)
    with tempfile.TemporaryDirectory(prefix="rvm24-") as d:
        a, b = os.path.join(d, "in"), os.path.join(d, "out")
        with open(a, "wb") as f:
            pickle.dump(jobs, f)
        e = dict(os.environ, PYTHONPATH=env.VERIF + os.pathsep + env.REPO, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(__file__), "c24_child.py"), a, b], env=e, cwd=d, capture_output=True, text=True, timeout=200)
        ctx.event("fresh process", data=len(jobs))
        if not ctx.check(r.returncode == 0, "fresh process", r.stderr[-500:]):
            return
        with open(b, "rb") as f:
            got = pickle.load(f)
    for g, w in zip(got, expect):
        for y, z in zip(g, w):
            for q, s in zip([y[k] for k in ("h", "u", "v") if k in y], z):
                ctx.same(q, s, "fresh process")


def reanalyse(ctx, p, c, extra):
    """the prediction of a solution, analysed as it was, gives the solution"""
    approx = p.inf is not None and p.inf.approximate
    if approx:
        return
    if p.inf is not None and any(n not in p.all for n in c["name"]):
        return
    S = max(float(np.abs(work.zz(c, list(c["name"]))).max()), float(np.abs(work.means(c)).max()), float(np.abs(work.slopes(c)).max()) * p.lor)
    out = ctx.reconstruct(p.t, c, epoch="python", constit=list(c["name"]))
    y = work.series(out)
    ci = ctx.rng.random() < 0.5
    o = {k: v for k, v in extra.items() if k in ("infer", "white", "method", "order_constit")}
    o["conf_int"] = "linear" if ci else "none"
    if o.get("order_constit") == "SNR":
        o.pop("order_constit")
    names = [n for n in c["name"] if p.inf is None or n not in p.inf.inferred]
    c2 = ctx.solve(p.t, y[0], y[1] if p.dim == 2 else None, c["aux"]["lat"], **{**p.opts, **o, "constit": names})
    work.same_solution(ctx, c, c2, "re-analysis", S, tol=2e-8, ci=False)
