"""C32 calls leave nothing behind."""
import gc
import os
import tempfile
import sys
import threading
import tracemalloc
import types
import warnings
import weakref

import numpy as np

from rvm import env, work
from rvm.props import c22
from rvm.props.c18 import clock

CASES = {"quick": 600, "thorough": 9000}
TECHNIQUE = "lifetime and resource monitor: weak references to every argument and returned object must die when the caller drops them; everything reachable from the package's modules, live allocations (tracemalloc), collector-tracked objects, resident memory, descriptors, threads, children and temporary files are measured over long runs of distinct calls, succeeding and failing"
RULE = "Random calls with every option and time form, a fifth of them invalid; each case drops everything and looks for survivors. Every thirtieth case: 350 distinct small calls, the last 100 of which must not grow the process; every fiftieth: records of tens of megabytes."
REQUIRED = ("arguments released", "results released", "failing call releases", "allocations", "package state", "tracked objects", "descriptors", "threads", "children", "files written", "resident memory")
ROOT = os.path.realpath(os.path.join(env.REPO, "utide")) + os.sep


def arrays(x, out, depth=0):
    """weakly referable objects reachable from x"""
    if depth > 6:
        return out
    if isinstance(x, np.ndarray):
        out.append(x)
        if x.base is not None and isinstance(x.base, np.ndarray):
            out.append(x.base)
    elif isinstance(x, dict):
        if type(x) is not dict:
            out.append(x)
        for v in x.values():
            arrays(v, out, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out, depth + 1)
    elif type(x).__module__.startswith("pandas"):
        out.append(x)
    return out


def refs(x):
    return [(weakref.ref(a), f"{type(a).__name__} {getattr(a, 'shape', '')}") for a in arrays(x, [])]


def survivors(rs):
    return [d for r, d in rs if r() is not None]


def request(ctx, small=False):
    """(args, options) of one call with its own objects"""
    rng = ctx.rng
    kw = dict(nmax=45, nmin=40, span=3.0, ncon=2, maxcond=1e4) if small else dict(nmax=300, ncon=int(rng.integers(1, 6)))
    p = work.Problem(rng, **kw)
    o = dict(p.opts)
    t, o["epoch"] = clock(rng, p.t)
    o["conf_int"] = work.pick(rng, ["linear", "linear", "none", "MC"])
    o["white"] = bool(rng.random() < 0.4)
    if rng.random() < 0.2:
        o["method"] = "robust"
    if rng.random() < 0.3:
        o["order_constit"] = work.pick(rng, ["frequency", "PE", list(p.names)])
    if rng.random() < 0.15 and o["conf_int"] != "MC":
        inf = work.add_inference(rng, p)
        if inf is not None:
            o["infer"] = inf.spec()
            o.pop("order_constit", None)
    x = [c.copy() for c in p.x]
    if rng.random() < 0.3:
        for c in x:
            c[1:-1][rng.random(len(c) - 2) < 0.05] = np.nan
    if rng.random() < 0.2:
        x = [np.ma.masked_invalid(c) for c in x]
    return p, [t, x[0], x[1] if p.dim == 2 else None, p.lat], o


def run_case(ctx):
    if ctx.idx % 30 == 3:
        return growth(ctx)
    if ctx.idx % 50 == 7:
        return big(ctx)
    rng = ctx.rng
    p, a, o = request(ctx)
    p.tell(ctx)
    ra = refs([a, o])
    c = ctx.solve(*a, **o)
    tp, ep = clock(rng, p.t[:20] + 0.0)
    kw = dict(epoch=ep, min_SNR=0)
    if rng.random() < 0.4:
        kw["constit"] = list(p.names)[:1]
    rp = refs([tp])
    r = ctx.reconstruct(tp, c, **kw)
    rr = refs([c, r])
    # the prediction and the solution hold what is needed, but not each other's
    del r
    ctx.event("weak references", len(ra) + len(rp) + len(rr))
    # released after a failing call too
    kind = work.pick(rng, [k for k in c22.KINDS if "reconstruct" not in k and k != "time-shape"])
    exc, b, oo = c22.spoil(rng, p, kind)
    # arrays of its own
    b = [np.array(z) if isinstance(z, np.ndarray) else z for z in b]
    rf = refs([b, oo])
    try:
        ctx.solve(*b, **{**p.opts, **oo})
    except Exception:
        ctx.event("failing call")
    del b, oo, exc
    try:
        ctx.reconstruct(np.zeros((2, 2)), c, epoch="python")
    except Exception:
        ctx.event("failing call")
    gc.collect()
    left = survivors(rf)
    ctx.check(not left, "failing call releases", f"{kind}: {left}")
    del a, o, tp, kw
    gc.collect()
    # (the solution may refer to the arguments: it does not say which)
    del c, p
    gc.collect()
    left = survivors(ra) + survivors(rp)
    ctx.check(not left, "arguments released", left)
    left = survivors(rr)
    ctx.check(not left, "results released", left)


def package():
    """(objects, bytes) reachable from the package's modules without passing
    through other modules, their functions or classes"""
    mods = [m for k, m in sys.modules.items() if k == "utide" or k.startswith("utide.")]
    names = {m.__name__ for m in mods}
    todo, seen, size = [m.__dict__ for m in mods], set(), 0
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        if isinstance(x, types.ModuleType):
            continue
        if (isinstance(x, (type, types.FunctionType))) and getattr(x, "__module__", None) not in names:
            continue
        if isinstance(x, (types.FrameType, types.BuiltinFunctionType)):
            continue
        seen.add(id(x))
        size += sys.getsizeof(x)
        if isinstance(x, np.ndarray):
            if x.base is not None:
                todo.append(x.base)
            if x.dtype == object:
                todo.extend(x.ravel().tolist())
            continue
        if isinstance(x, type):
            todo.extend(v for k, v in vars(x).items() if k not in ("__dict__", "__weakref__"))
        elif isinstance(x, types.FunctionType):
            # (its globals are modules' dictionaries, or other packages')
            todo.extend([x.__dict__, x.__defaults__, x.__kwdefaults__, x.__closure__])
        else:
            todo.extend(gc.get_referents(x))
    return len(seen), size


def state():
    d = {}
    d["descriptors"] = len(os.listdir("/proc/self/fd"))
    d["threads"] = threading.active_count()
    pid = os.getpid()
    kids = open(f"/proc/self/task/{pid}/children").read() if os.path.exists(f"/proc/self/task/{pid}/children") else ""
    d["children"] = len(kids.split())
    return d


def growth(ctx):
    rng = ctx.rng
    jobs = [request(ctx, small=True) for _ in range(10)]
    jobs[0][0].tell(ctx)
    bad = []
    for _ in range(4):
        kind = work.pick(rng, [k for k in c22.KINDS if "reconstruct" not in k and k != "time-shape"])
        p = jobs[0][0]
        exc, b, oo = c22.spoil(rng, p, kind)
        bad.append((b, {**p.opts, **oo, "verbose": False}))
    u = ctx.utide

    def one(k):
        p, a, o = jobs[k % len(jobs)]
        s = float(rng.normal()) + 2
        a = [a[0]] + [None if z is None else z * s for z in a[1:3]] + [float(np.clip(p.lat + rng.normal(), -90, 90))]
        if isinstance(a[0], np.ndarray) and a[0].dtype.kind == "f":
            a[0] = a[0] + rng.random()  # other times each call
        c = u.solve(*a, **{**o, "verbose": False})
        u.reconstruct(p.t[:5] + rng.random() * 100, c, epoch="python", verbose=False, min_SNR=0)
        if k % 5 == 0:
            b, oo = bad[(k // 5) % len(bad)]
            try:
                u.solve(*b, **oo)
            except Exception:
                pass

    with tempfile.TemporaryDirectory(prefix="rvm32-") as d:
        cwd, tmp = os.getcwd(), tempfile.tempdir
        os.chdir(d)
        tempfile.tempdir = d
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for k in range(150):  # (small bounded caches may fill)
                    one(k)
                tracemalloc.start(1)
                try:
                    for k in range(100):
                        one(k)
                    gc.collect()
                    s0, n0, q0, t0 = state(), len(gc.get_objects()), package(), tracemalloc.get_traced_memory()[0]
                    for k in range(100):
                        one(k)
                    gc.collect()
                    t1, n1, q1, s1 = tracemalloc.get_traced_memory()[0], len(gc.get_objects()), package(), state()
                finally:
                    tracemalloc.stop()
            left = os.listdir(d)
        finally:
            os.chdir(cwd)
            tempfile.tempdir = tmp
    ctx.event("calls in growth runs", 350)
    ctx.digest.update(repr((jobs[0][1], jobs[1][1])).encode())
    ctx.describe(allocated=(t0, t1), package=(q0, q1), objects=(n0, n1))
    ctx.worst["allocations"] = max(0, t1 - t0) / 30000
    ctx.check(t1 - t0 < 30000, "allocations", f"{t0} -> {t1} bytes in 100 calls")
    ctx.worst["package state"] = max(0, q1[0] - q0[0]) / 40
    ctx.check(q1[0] - q0[0] < 40 and q1[1] - q0[1] < 8000, "package state", f"(objects, bytes) {q0} -> {q1} in 100 calls")
    ctx.worst["tracked objects"] = max(0, n1 - n0) / 40
    ctx.check(n1 - n0 < 40, "tracked objects", f"{n0} -> {n1} in 100 calls")
    for k in s0:
        ctx.check(s1[k] <= s0[k], k, f"{s0[k]} -> {s1[k]}")
    ctx.check(not left, "files written", left)


def resident():
    return int(open("/proc/self/statm").read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 1e6


def big(ctx):
    """records of some ten megabytes (with their model) again and again"""
    rng = ctx.rng
    p = work.Problem(rng, **work.large(rng, hi=25000))
    p.tell(ctx)
    o = dict(p.opts, conf_int="none" if rng.random() < 0.7 else "linear", white=True)

    def one(k):
        a = list(p.args)
        a[1] = a[1] * (1 + k)
        c = ctx.solve(*a, **o)
        ctx.reconstruct(p.t + 0.001 * k, c, epoch="python", min_SNR=0)

    for k in range(6):
        one(k)
    gc.collect()
    r0 = resident()
    for k in range(24):
        one(k)
    gc.collect()
    r1 = resident()
    mb = len(p.t) * 16 * (2 * p.nc + 2) / 1e6  # the model of one call
    ctx.describe(resident_MB=(r0, r1), model_MB=round(mb, 1))
    ctx.check(r1 - r0 < 4 * mb + 40, "resident memory", f"{r0:.0f} -> {r1:.0f} MB in 24 calls with models of {mb:.0f} MB")
