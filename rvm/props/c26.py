"""C26 constituent tables."""
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from rvm import env, ref, snap, work

CASES = {"quick": 512, "thorough": 6000}
CHILDREN = True
TECHNIQUE = "consistency monitor over all entries of the public tables (against one another and against the pinned Matlab tables), re-evaluated after random use, corruption of results, failing calls and unusual imports; monitor of the frequencies and indices reported by each recorded analysis"
RULE = "Every entry of every table in each case; between evaluations random analyses (explicit, automatic, inferred constituents, every order), failing calls and in-place corruption of what was returned; fresh processes importing submodules in different orders, from other directories and with numpy errors raised."
REQUIRED = ("index inverts names", "reciprocal", "frequencies tabulated", "frequencies from Doodson numbers", "pinned values", "reported frequencies", "reported indices", "unchanged by use", "fresh import", "names")
HOW = ["utide", "utide.harmonics", "utide.utilities+utide.astronomy", "utide._ut_constants", "utide.constituent_selection+utide.harmonics", "utide,raise", "utide.harmonics,raise", "utide.periodogram+utide.robustfit"]


def tables(ctx, src=None):
    u = ctx.utide
    t = src or {
        "name": list(u.ut_constants["const"]["name"]),
        "freq": np.array(u.ut_constants["const"]["freq"]),
        "df": np.array(u.ut_constants["const"]["df"]),
        "index": u.constit_index_dict,
        "cph": u.cycles_per_hour,
        "hpc": u.hours_per_cycle,
    }
    names = t["name"]
    ctx.check(names == ref.NAMES and all(type(n) is str and n == n.strip() for n in names) and len(set(names)) == len(names), "names", names[:10])
    ctx.check(all(t["index"][n] == i for i, n in enumerate(names)) and len(t["index"]) == len(names), "index inverts names")
    ctx.check(list(t["cph"]) == names and list(t["hpc"]) == names, "names")
    f = np.array([t["cph"][n] for n in names], float)
    h = np.array([t["hpc"][n] for n in names], float)
    ctx.same(f, t["freq"], "frequencies tabulated")
    nz = f != 0
    ctx.close(f[nz] * h[nz], np.ones(nz.sum()), 1e-13, "reciprocal")
    ctx.check(np.isinf(h[~nz]).all() and [n for n, q in zip(names, nz) if not q] == ["Z0"], "reciprocal", "zero frequency")
    ctx.close(t["freq"], ref.FREQ, 1e-15, "pinned values", names)
    ctx.close(t["df"], ref.DF, 1e-15, "pinned values", names)
    # the tabulated epoch is unspecified: slow secular drift
    y = float(ctx.rng.uniform(1800, 2200)) * 365.2425
    ctx.close(t["freq"], np.array([ref.freq(n, y) for n in names]), 3e-9, "frequencies from Doodson numbers", names)


def full(ctx):
    """every field used by the analysis, against the pinned tables"""
    c = ctx.utide.ut_constants
    T = ref._T

    def arr(x):
        return np.array([np.nan if q is None else q for q in x], float)

    def rows(x):
        return np.array([[np.nan if q is None else q for q in r] for r in x], float)

    k = c["const"]
    for key in ("semi", "ishallow", "nshallow"):
        ctx.close(np.asarray(k[key], float), arr(T[key]), 1e-15, "pinned values")
    ctx.close(np.asarray(k["doodson"], float), rows(T["doodson"]), 1e-15, "pinned values")
    for key in ("iconst", "phcorr", "amprat", "ilatfac"):
        ctx.close(np.asarray(c["sat"][key], float), arr(T["sat"][key]), 1e-15, "pinned values")
    ctx.close(np.asarray(c["sat"]["deldood"], float), rows(T["sat"]["deldood"]), 1e-15, "pinned values")
    for key in ("iconst", "iname", "coef"):
        ctx.close(np.asarray(c["shallow"][key], float), arr(T["shallow"][key]), 1e-15, "pinned values")


def run_case(ctx):
    rng = ctx.rng
    if ctx.idx % 20 == 7:
        return fresh(ctx)
    t0 = snap.tables()
    tables(ctx)
    if ctx.idx % 5 == 0:
        full(ctx)
    for _ in range(int(rng.integers(1, 4))):
        use(ctx)
    t1 = snap.tables()
    bad = [k for k in t0 if t0[k] != t1[k]]
    ctx.check(not bad, "unchanged by use", bad)
    tables(ctx)


def reported(ctx, c):
    names = list(c["name"])
    tr = float(c["aux"]["reftime"])
    ix = np.asarray(c["aux"]["lind"])
    ctx.check([ctx.utide.constit_index_dict[n] for n in names] == ix.tolist(), "reported indices", names)
    ctx.close(np.asarray(c["aux"]["frq"], float), np.array([ref.freq(n, tr) for n in names]), 1e-12, "reported frequencies", names)
    ctx.close(np.asarray(c["aux"]["frq"], float), np.array([ctx.utide.cycles_per_hour[n] for n in names]), 5e-9, "reported frequencies", names)


def use(ctx):
    rng = ctx.rng
    u = ctx.utide
    k = int(rng.integers(5))
    ctx.note(f"use={k}")
    if k <= 1:
        p, c, extra = work.solution(ctx, nmax=250)
        reported(ctx, c)
        out = ctx.reconstruct(p.t[:20], c, epoch="python", min_SNR=0)
        snap.scribble(out, rng)
        snap.scribble(c, rng)
    elif k == 2:  # automatic selection, long record sampled sparsely
        n = 400
        t = work.start_date(rng) + np.sort(rng.random(n)) * float(rng.uniform(10, 400))
        c = ctx.solve(t, rng.normal(size=n), lat=30.0, conf_int="none", epoch="python", order_constit=work.pick(rng, ["PE", "frequency"]))
        reported(ctx, c)
        snap.scribble(c, rng)
    elif k == 3:
        p = work.Problem(rng, nmax=150, ncon=3)
        for o in ({"constit": p.names + ["XX"]}, {"order_constit": ["NO"]}, {"infer": {"inferred_names": ["K2"]}}):
            try:
                ctx.solve(*p.args, **{**p.opts, **o})
                ctx.check(False, "invalid request fails", o)
            except (ValueError, KeyError):
                pass
    else:  # the functions that return pieces of the tables
        from utide.harmonics import FUV

        lind = np.arange(len(ref.NAMES))
        r = FUV(np.array([7e5, 7.1e5]), 7e5, lind, 45.0, [0, 0, 0, 0])
        for q in r:
            q[...] = 0
        ctx.event("FUV")
        q = u.utilities.convert_unicode_arrays(u.ut_constants)
        ctx.check(list(q["const"]["name"]) == ref.NAMES, "names")
        for key in ("name",):
            q["const"][key][:] = "junk"


def fresh(ctx):
    how = HOW[(ctx.idx // 20) % len(HOW)]
    ctx.note("import=" + how)
    with tempfile.TemporaryDirectory(prefix="rvm26-") as d:
        f = os.path.join(d, "out")
        e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(__file__), "c26_child.py"), f, how], env=e, cwd=d, capture_output=True, text=True, timeout=100)
        ctx.event("fresh process", data=how)
        if not ctx.check(r.returncode == 0, "fresh import", r.stderr[-400:]):
            return
        with open(f, "rb") as h:
            out = pickle.load(h)
    ctx.check(os.path.realpath(out["file"]).startswith(os.path.realpath(env.REPO)), "fresh import", out["file"])
    tables(ctx, out)
