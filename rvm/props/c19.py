"""C19 history and concurrency."""
import ast
import collections
import copy
import hashlib
import os
import pickle
import sys
import threading
import time

import numpy as np

from rvm import env, snap, work

CASES = {"quick": 240, "thorough": 6000}
TECHNIQUE = "schedule exploration and fault injection with result monitors: every call is first recorded alone in a forked process; then histories of colliding calls, exceptions raised at random executed lines inside the package, and threads with injected switches are run, and every result is compared with the recorded one"
RULE = "Families of calls that collide in all but one argument (one sample, an inner time, latitude, one option, arrays reused and overwritten in place), run in random histories with failing calls in between; calls interrupted at a random executed line of utide, several times in a row; and 2 to 6 threads with random switches at executed lines, anywhere or all within one or two functions."
REQUIRED = ("history: result", "after interruption: result", "after interruption: tables", "after interruption: process state", "threads: result", "interrupted", "in-place: result")
CHILDREN = True
TIMEOUT = 300
ROOT = os.path.realpath(os.path.join(env.REPO, "utide")) + os.sep


class Injected(BaseException):
    pass


class InjectedError(Exception):
    pass


def variants(ctx):
    """a family of calls sharing nearly everything: list of (kind, spec)"""
    rng = ctx.rng
    p = work.Problem(rng, nmax=220, maxcond=60, ncon=int(rng.integers(2, 7)))
    p.tell(ctx)
    base = dict(t=p.t, x=p.x, lat=p.lat, opts=dict(p.opts, conf_int=work.pick(rng, ["linear", "none", "MC"])))
    if rng.random() < 0.25:
        base["opts"]["method"] = "robust"
    fam = [base]
    for _ in range(int(rng.integers(2, 5))):
        b = copy.deepcopy(work.pick(rng, fam))
        k = int(rng.integers(0, 15))
        o = b["opts"]
        if k == 0:
            b["lat"] = work.pick(rng, [q for q in work.LATS if q != b["lat"]])
        elif k == 1:
            o["phase"] = work.pick(rng, [q for q in work.PHASES if q != o["phase"]])
        elif k == 2:
            o["nodal"] = work.pick(rng, [q for q in work.NODALS if q != o["nodal"]])
        elif k == 3:
            o["trend"] = not o["trend"]
        elif k == 4 and len(o["constit"]) > 1:
            o["constit"] = o["constit"][:-1]
        elif k == 5:  # an inner time only
            j = int(rng.integers(1, len(p.t) - 1))
            b["t"][j] += 0.3 * (b["t"][j + 1] - b["t"][j])
        elif k == 6:
            j = int(rng.integers(len(p.t)))
            b["x"][0][j] += p.scale
        elif k == 7:
            o["white"] = True
        elif k == 8:
            o["constit"] = o["constit"][::-1]
        elif k == 9:  # the other record of the same times
            b["x"] = [c + p.scale * rng.normal(size=len(c)) for c in b["x"]]
        elif k == 10:
            b["t"] = b["t"] + 3000.0
        elif k == 11:
            o["order_constit"] = "frequency"
        elif k >= 13:  # how the weights are determined
            o["method"] = "robust"
            kw = o.get("robust_kw", {})
            new = dict(kw)
            if rng.random() < 0.5:
                new["tune"] = work.pick(rng, [q for q in (1.2, 1.5, 2.0, 3.0) if q != kw.get("tune")])
            else:
                new["weight_function"] = work.pick(rng, [q for q in ("huber", "bisquare", "fair", "welsch") if q != kw.get("weight_function")])
            o["robust_kw"] = new
        else:
            b["x"][-1][int(rng.integers(1, len(p.t) - 1))] = np.nan
        ctx.note(f"variant {k}")
        fam.append(b)
    for b in fam:
        b["seed"] = int(rng.integers(2**31))
    tp = p.t[0] + np.sort(rng.uniform(-40, 400, 20))
    for b in fam:
        b["tp"] = tp
    return p, fam


def perform(ctx, b):
    """solve and predict; a plain, picklable result"""
    x = b["x"]
    if b["opts"]["conf_int"] == "MC":
        np.random.seed(b["seed"])
    c = ctx.solve(b["t"], x[0], x[1] if len(x) == 2 else None, b["lat"], **b["opts"])
    out = ctx.reconstruct(b["tp"], c, epoch="python", min_SNR=0)
    part = ctx.reconstruct(b["tp"], c, epoch="python", constit=list(b["opts"]["constit"][:1]))
    return plain(c), [np.array(q) for q in work.series(out) + work.series(part)]


def plain(c):
    d = {k: np.array(v) for k, v in c.items() if isinstance(v, (np.ndarray, float)) and k != "weights"}
    d["aux"] = {k: np.array(c["aux"][k]) for k in ("frq", "lind", "reftime")}
    d["weights"] = np.array(c["weights"])
    return d


def alone(ctx, b):
    """the result of the call in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = ("ok", perform(ctx, b))
            except BaseException as e:
                res = ("error", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ctx.event("calls recorded alone in a process")
    kind, res = pickle.loads(data)
    if kind != "ok":
        raise RuntimeError("in its own process: " + res)
    return res


def compare(ctx, p, got, want, what):
    c, o = got
    d, q = want
    S = p.magnitude() + 1e-300
    n1, n2 = list(c["name"]), list(d["name"])
    if not ctx.check(sorted(n1) == sorted(n2), what + ": result", f"{n1} {n2}"):
        return False
    ok = ctx.check(set(c) == set(d), what + ": result", "fields")
    ok &= ctx.close(work.zz(c, n2), work.zz(d, n2), 1e-9 * S, what + ": result", n2)
    ok &= ctx.close(work.means(c), work.means(d), 1e-9 * S, what + ": result")
    ok &= ctx.close(c["aux"]["frq"], d["aux"]["frq"], 1e-13, what + ": result")
    ok &= ctx.close(c["aux"]["reftime"], d["aux"]["reftime"], 1e-9, what + ": result")
    for k in d:
        if k.endswith("_ci"):
            a, b = work.get(c, k, n2), work.get(d, k, n2)
            ok &= ctx.close(a, b, 1e-6 * np.abs(b) + 1e-300, what + ": result", n2)
    for a, b in zip(o, q):
        ok &= ctx.close(a, b, 1e-8 * S * len(n2) * (1 + 100 / (np.ptp(p.t))), what + ": result")
    return ok


def fail_somehow(ctx, b):
    rng = ctx.rng
    x = b["x"]
    k = int(rng.integers(0, 5))
    try:
        if k == 0:
            ctx.solve(b["t"], x[0], None, b["lat"], **dict(b["opts"], constit=["M2", "XX"]))
        elif k == 1:
            ctx.solve(b["t"], x[0], None, b["lat"], **dict(b["opts"], order_constit=["XX"]))
        elif k == 2:
            ctx.solve(b["t"][:4], x[0][:4], None, b["lat"], **b["opts"])
        elif k == 3:
            ctx.solve(b["t"], x[0], None, None, **b["opts"])
        else:
            ctx.solve(b["t"], x[0], None, b["lat"], **dict(b["opts"], method="robust", robust_kw={"weight_function": "none such"}))
    except Exception:
        ctx.event("failed calls in between")


def run_case(ctx):
    mode = ctx.idx % 3
    if mode == 0:
        history(ctx)
    elif mode == 1:
        interrupt(ctx)
    else:
        threads(ctx)


def history(ctx):
    rng = ctx.rng
    p, fam = variants(ctx)
    want = [alone(ctx, b) for b in fam]
    seq = list(rng.integers(0, len(fam), 2 * len(fam))) + list(rng.permutation(len(fam)))
    for i in seq:
        if rng.random() < 0.2:
            fail_somehow(ctx, fam[i])
        compare(ctx, p, perform(ctx, fam[i]), want[i], "history")
    ctx.event("calls in histories", len(seq))
    # the same array objects, overwritten in place
    buf = copy.deepcopy(fam[0])
    for i in rng.permutation(len(fam)):
        b = fam[i]
        buf["t"][:] = b["t"]
        for a, c in zip(buf["x"], b["x"]):
            a[:] = c
        run = dict(buf, lat=b["lat"], opts=b["opts"], seed=b["seed"])
        compare(ctx, p, perform(ctx, run), want[i], "in-place")


class Interrupter:
    """raise at the k-th execution of a line of the package (the given one; with
    none given, count the executions of every line)"""

    def __init__(self, line=None, k=1, exc=None):
        self.line, self.k, self.exc, self.where = line, k, exc, None
        self.counts = collections.Counter()

    def __call__(self, frame, event, arg):
        if not os.path.realpath(frame.f_code.co_filename).startswith(ROOT):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            at = (os.path.relpath(os.path.realpath(frame.f_code.co_filename), ROOT), frame.f_lineno)
            self.counts[at] += 1
            if at == self.line and self.counts[at] == self.k:
                self.where = f"{at[0]}:{at[1]}"
                sys.settrace(None)
                raise self.exc("injected")
        return self.local


_atomic = {}


def atomic(name):
    """Lines where an exception would strike inside Python's own clean-up
    protocol, which no code can be safe against: the header of a with statement
    (traced again before __exit__), that of try, and clean-up blocks."""
    if name not in _atomic:
        out = set()
        with open(ROOT + name) as f:
            tree = ast.parse(f.read())
        for q in ast.walk(tree):
            if isinstance(q, (ast.With, ast.AsyncWith)):
                out.update(range(q.lineno, q.body[0].lineno + (q.body[0].lineno == q.lineno)))
            elif isinstance(q, ast.Try):
                out.add(q.lineno)
                if q.finalbody:
                    out.update(range(q.finalbody[0].lineno, q.end_lineno + 1))
                for h in q.handlers:
                    out.update(range(h.lineno, h.end_lineno + 1))
            elif isinstance(q, ast.FunctionDef) and q.name in ("__exit__", "__enter__", "__del__"):
                out.update(range(q.lineno, q.end_lineno + 1))
        _atomic[name] = out
    return _atomic[name]


def traced(fn, tr):
    sys.settrace(tr)
    try:
        return fn()
    finally:
        sys.settrace(None)


def executed(fn):
    """the functions of the package (file, name, line) that a call executes"""
    out = set()

    def tr(frame, event, arg):
        c = frame.f_code
        if os.path.realpath(c.co_filename).startswith(ROOT):
            out.add((c.co_filename, c.co_name, c.co_firstlineno))

    traced(fn, tr)
    return sorted(q for q in out if not q[1].startswith("<"))


def interrupt(ctx):
    rng = ctx.rng
    p, fam = variants(ctx)
    fam = fam[:2]
    want = [alone(ctx, b) for b in fam]
    counts = []
    for b in fam:
        count = Interrupter()
        traced(lambda: perform(ctx, b), count)
        counts.append(count.counts)
        ctx.event("lines traced", count.counts.total())
    T0 = snap.tables()
    for rep in range(6):
        j = int(rng.integers(len(fam)))
        b = fam[j]
        # any executed line, at its first, last or any execution
        line = work.pick(rng, [q for q in sorted(counts[j]) if q[1] not in atomic(q[0])])
        m = counts[j][line]
        k = work.pick(rng, [1, m, 1 + int(rng.integers(m))])
        exc = Injected if rng.random() < 0.5 else InjectedError
        tr = Interrupter(line, k, exc)
        P0 = snap.process(rng=False)
        try:
            traced(lambda: perform(ctx, b), tr)
        except (Injected, InjectedError):
            ctx.event("exceptions injected")
            ctx.classes["injected in " + tr.where.split(":")[0]] += 1
            ctx.check(True, "interrupted")
        P1 = snap.process(rng=False)
        bad = [q for q in P0 if P0[q] != P1[q]]
        ctx.check(not bad, "after interruption: process state", [(q, str(P0[q])[:100], str(P1[q])[:100]) for q in bad] + [tr.where])
        T1 = snap.tables()
        ctx.check(all(T0[q] == T1[q] for q in T0), "after interruption: tables", tr.where)
        for i in rng.permutation(len(fam)):
            ok = compare(ctx, p, perform(ctx, fam[i]), want[i], "after interruption")
            if not ok:
                ctx.describe(interrupted_at=tr.where)


def threads(ctx):
    rng = ctx.rng
    p, fam = variants(ctx)
    fam = [b for b in fam if b["opts"]["conf_int"] != "MC"]
    for b in fam:
        if b["opts"]["conf_int"] == "MC":
            b["opts"]["conf_int"] = "linear"
    if not fam:
        p, fam = variants(ctx)
        for b in fam:
            b["opts"]["conf_int"] = "linear"
    focus = set()
    if rng.random() < 0.6:
        # calls alike in every size, and different in every value
        b = fam[0]
        fam = [b]
        for _ in range(int(rng.integers(1, 4))):
            c = copy.deepcopy(b)
            ofs = float(rng.uniform(-4000, 4000))
            c.update(t=b["t"] + ofs, tp=b["tp"] + ofs + rng.uniform(-50, 50), x=[q + p.scale * rng.normal(size=len(q)) for q in b["x"]])
            if rng.random() < 0.5:
                c["lat"] = work.pick(rng, [q for q in work.LATS if q != b["lat"]])
            fam.append(c)
        # and a function (or two) within which the threads meet
        codes = executed(lambda: perform(ctx, b))
        focus = {work.pick(rng, codes) for _ in range(int(rng.integers(1, 3)))}
        ctx.describe(focus=sorted(f"{os.path.basename(f)}:{n}" for f, n, _ in focus))
        for f, n, _ in focus:
            ctx.classes[f"threads meet in {os.path.basename(f)}:{n}"] += 1
    want = [alone(ctx, b) for b in fam]
    nt = int(rng.integers(2, 7))
    plan = [list(rng.integers(0, len(fam), int(rng.integers(1, 4)))) for _ in range(nt)]
    rate = float(work.pick(rng, [0.003, 0.02, 0.1]))
    log = []
    results, errors = [], []
    start = threading.Barrier(nt)

    def body(w):
        import random

        rnd = random.Random(f"{ctx.seed} {ctx.idx} {w}")

        def meet(frame, event, arg):
            if event == "line" and rnd.random() < 0.3 and len(log) < 4000:
                log.append(w)
                time.sleep(rnd.choice([0.0001, 0.0003, 0.001]))
            return meet

        def local(frame, event, arg):
            if event == "line" and rnd.random() < rate:
                log.append(w)
                time.sleep(0 if rnd.random() < 0.8 else 0.0002)
            return local

        def tr(frame, event, arg):
            c = frame.f_code
            if focus:
                return meet if (c.co_filename, c.co_name, c.co_firstlineno) in focus else None
            if os.path.realpath(c.co_filename).startswith(ROOT):
                return local
            return None

        start.wait()
        sys.settrace(tr)
        try:
            for i in plan[w]:
                results.append((i, perform(ctx, fam[i])))
        except BaseException as e:
            errors.append(f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    P0, T0 = snap.process(rng=False), snap.tables()
    try:
        ts = [threading.Thread(target=body, args=(w,)) for w in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    P1, T1 = snap.process(rng=False), snap.tables()
    sw = sum(a != b for a, b in zip(log, log[1:]))
    ctx.event("threads run", nt)
    ctx.event("switch points injected", len(log))
    ctx.event("thread switches observed", sw)
    ctx.event("schedule", 1, data=hashlib.sha1(bytes(log)).hexdigest())
    ctx.check(not errors, "threads: result", errors)
    ctx.check(all(T0[q] == T1[q] for q in T0), "threads: tables")
    bad = [q for q in P0 if P0[q] != P1[q]]
    ctx.check(not bad, "threads: process state", [(q, str(P0[q])[:100], str(P1[q])[:100]) for q in bad])
    for i, r in results:
        compare(ctx, p, r, want[i], "threads")
