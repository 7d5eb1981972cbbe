"""Runner: executes the cases of one property against the real package, watches
them with the property's monitors, and gives the three-valued verdict."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue as _queue
import signal
import sys
import time
import traceback

import numpy as np

from rvm import env

VERIF = env.VERIF
NPROC = int(os.environ.get("RVM_PROCS", "8"))
MAXVIOL = 12  # stop exploring after this many violating cases


class Skip(Exception):
    """The generated case is outside the property's premises."""


class CaseTimeout(BaseException):
    pass


def _short(x, n=400):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    """One case: generator state, event recorder and verdict."""

    def __init__(self, prop, tier, seed, idx, ncases, known):
        self.prop, self.tier, self.seed, self.idx, self.ncases = prop, tier, seed, idx, ncases
        self.rng = np.random.default_rng([seed, int(prop[1:]), idx])
        self.fail = []
        self.known_hits = []
        self.known = known
        self.evals = collections.Counter()
        self.events = collections.Counter()
        self.classes = collections.Counter()
        self.worst = {}
        self.sample = {}
        self.digest = hashlib.sha1()
        import utide

        self.utide = utide

    # -- workload side ---------------------------------------------------
    def note(self, *labels):
        for lb in labels:
            self.classes[str(lb)] += 1

    def skip(self, why):
        raise Skip(why)

    def describe(self, **kw):
        for k, v in kw.items():
            if isinstance(v, np.ndarray) and v.size > 8:
                v = f"{type(v).__name__}{v.shape} first={_short(v.ravel()[:2], 80)}"
            self.sample[k] = _short(v, 300)

    def _record(self, what, args, kw):
        self.events[what] += 1
        h = self.digest
        h.update(what.encode())
        for a in list(args) + [kw[k] for k in sorted(kw)]:
            if isinstance(a, np.ndarray) and a.dtype != object:
                h.update(np.ascontiguousarray(a).tobytes())
            elif hasattr(a, "keys"):
                h.update(str(sorted(map(str, a.keys()))).encode())
            else:
                h.update(_short(a, 2000).encode())

    def solve(self, *args, **kw):
        kw.setdefault("verbose", False)
        self._record("solve", args, kw)
        return self.utide.solve(*args, **kw)

    def reconstruct(self, *args, **kw):
        kw.setdefault("verbose", False)
        self._record("reconstruct", args, kw)
        return self.utide.reconstruct(*args, **kw)

    def event(self, what, n=1, data=None):
        self.events[what] += n
        if data is not None:
            self.digest.update(_short(data, 4000).encode())

    # -- oracle side -----------------------------------------------------
    def check(self, cond, what, msg="", **info):
        self.evals[what] += 1
        if not bool(cond):
            extra = ", ".join(f"{k}={_short(v, 200)}" for k, v in info.items())
            self.fail.append(f"{what}: {_short(msg, 600)} {extra}".strip())
            return False
        return True

    def close(self, a, b, tol, what, names=None):
        """|a - b| <= tol elementwise, NaN only where both are NaN."""
        self.evals[what] += 1
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.fail.append(f"{what}: shapes differ {a.shape} {b.shape}")
            return False
        if a.size == 0:
            return True
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            i = int(np.flatnonzero((na != nb).ravel())[0])
            self.fail.append(
                f"{what}: NaN mismatch at {i} ({(na != nb).sum()} of {a.size}):"
                f" got {a.ravel()[i]} expected {b.ravel()[i]}"
            )
            return False
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
            d = np.where(na | (a == b), 0.0, d)
            tol = np.broadcast_to(np.asarray(tol, dtype=float), d.shape)
            r = np.where(d == 0, 0.0, d / tol)
        r = np.where(np.isnan(r), np.inf, r)
        m = float(r.max())
        self.worst[what] = max(self.worst.get(what, 0.0), m)
        if not m <= 1:
            i = int(np.argmax(r.ravel()))
            nm = "" if names is None else f" [{np.ravel(names)[i % len(names)]}]"
            self.fail.append(
                f"{what}: differs at {i}{nm}: got {a.ravel()[i]!r} expected {b.ravel()[i]!r}"
                f" (|diff| {d.ravel()[i]:.3g} > tol {tol.ravel()[i]:.3g}; {(r > 1).sum()} of {a.size})"
            )
            return False
        return True

    def same(self, a, b, what):
        """bitwise equal arrays (NaN equal to NaN)"""
        self.evals[what] += 1
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and a.dtype == b.dtype
        if ok:
            ok = np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
        if not ok:
            self.fail.append(f"{what}: not identical: {_short(a, 200)} / {_short(b, 200)}")
        return ok

    def raises(self, exc, what, fn):
        self.evals[what] += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            self.fail.append(f"{what}: raised {type(e).__name__}: {_short(e, 200)} instead of {exc}")
            return False
        self.fail.append(f"{what}: accepted, returned {_short(r, 120)}")
        return False

    def finding(self, key, msg):
        """A violation with an identified mechanism: a known finding if the
        committed file lists that mechanism, otherwise a violation."""
        self.evals["finding:" + key] += 1
        if key in self.known:
            self.known_hits.append((key, msg))
        else:
            self.fail.append(f"{key}: {msg}")


def load_known(prop):
    """{mechanism: text} of the recorded (unrepaired) findings."""
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return {}
    d = json.load(open(f))
    return {k["mechanism"]: k["what"] for k in d.get("findings", []) if k["property"] == prop}


def run_one(mod, ctx, timeout):
    status = "ok"

    def onalarm(*a):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(timeout))
    t0 = time.time()
    try:
        mod.run_case(ctx)
    except Skip as e:
        status = "skip"
        ctx.classes["skip:" + str(e)] += 1
    except CaseTimeout:
        status = "timeout"
    except MemoryError:
        status = "resource"
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        ctx.evals["no unexpected exception"] += 1
        ctx.fail.append(
            f"unexpected {type(e).__name__}: {_short(e, 300)} | " + " / ".join(x.strip() for x in tb[-8:])
        )
    finally:
        signal.alarm(0)
    if ctx.fail:
        status = "violation"
    return {
        "idx": ctx.idx,
        "status": status,
        "fail": ctx.fail[:6],
        "known": ctx.known_hits[:4],
        "evals": dict(ctx.evals),
        "events": dict(ctx.events),
        "classes": dict(ctx.classes),
        "worst": ctx.worst,
        "sample": ctx.sample,
        "digest": ctx.digest.hexdigest(),
        "dt": time.time() - t0,
    }


# ------------------------------------------------------- coverage evidence
class Lines:
    """Lines of /repo/utide executed (sys.monitoring; each reported once)."""

    def __init__(self):
        self.lines = set()
        self.on = False

    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(m.COVERAGE_ID, "rvm")
            root = os.path.realpath(os.path.join(env.REPO, "utide")) + os.sep

            def line(code, no):
                f = code.co_filename
                if f.startswith(root):
                    self.lines.add((f[len(root):], no))
                return m.DISABLE

            m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
            m.set_events(m.COVERAGE_ID, m.events.LINE)
            self.on = True
        except Exception:
            self.on = False


def _worker(modname, prop, tier, seed, idxs, ncases, known, timeout, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    cov = Lines()
    cov.start()
    mod = importlib.import_module(modname)
    for i in idxs:
        if stop.is_set():
            break
        r = run_one(mod, Ctx(prop, tier, seed, i, ncases, known), timeout)
        q.put(("case", r))
    q.put(("done", sorted(cov.lines)))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int, help="override the number of cases")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    history = None
    if a.replay:
        d = json.load(open(a.replay))
        seed, tier, a.case, history = d["seed"], d["tier"], d["case"], d.get("history")
    t0 = time.time()
    known = load_known(prop)
    modname = "rvm.props." + prop.lower()

    try:
        env.import_utide()
        broken = None
    except Exception as e:  # the package itself does not import
        broken = f"import utide failed: {type(e).__name__}: {e}"
    if broken:
        path = _replay_file(prop, {"prop": prop, "seed": seed, "tier": tier, "case": 0, "fail": [broken]})
        print(broken)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    mod = importlib.import_module(modname)
    ncases = a.cases or mod.CASES[tier]
    timeout = getattr(mod, "TIMEOUT", 240)

    if a.case is not None:
        r = run_one(mod, Ctx(prop, tier, seed, a.case, ncases, known), timeout)
        if r["status"] != "violation" and history:
            for i in history:  # the process history may matter
                r = run_one(mod, Ctx(prop, tier, seed, i, ncases, known), timeout)
        print(json.dumps(r, indent=1))
        return 1 if r["status"] == "violation" else 0

    nproc = max(1, min(getattr(mod, "NPROC", NPROC), ncases))
    mpx = mp.get_context("fork")
    q = mpx.Queue()
    stop = mpx.Event()
    procs = []
    for w in range(nproc):
        p = mpx.Process(
            target=_worker,
            args=(modname, prop, tier, seed, range(w, ncases, nproc), ncases, known, timeout, q, stop),
        )
        p.daemon = not getattr(mod, "CHILDREN", False)
        p.start()
        procs.append(p)

    results, lines, done, lost = [], set(), 0, False
    budget = float(os.environ.get("RVM_BUDGET", 0)) or (780 if tier == "quick" else 6 * 3600)
    overrun = False
    nviol = 0
    while done < nproc:
        try:
            kind, r = q.get(timeout=5)
        except _queue.Empty:
            if not any(p.is_alive() for p in procs) and q.empty():
                lost = True
                break
            if time.time() - t0 > budget:
                overrun = True
                stop.set()
                if time.time() - t0 > budget + 60:
                    break
            continue
        if kind == "done":
            done += 1
            lines.update(map(tuple, r))
        else:
            results.append(r)
            if r["status"] == "violation":
                nviol += 1
                if nviol >= MAXVIOL:
                    stop.set()
            if time.time() - t0 > budget:
                overrun = True
                stop.set()
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    if lost or any(p.exitcode not in (0, None) for p in procs):
        lost = True

    agg = {k: collections.Counter() for k in ("evals", "events", "classes")}
    worst = {}
    digests = set()
    for r in results:
        for k in agg:
            agg[k].update(r[k])
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0), v)
        if r["status"] in ("ok", "violation") and sum(r["evals"].values()):
            digests.add(r["digest"])
    viol = sorted((r for r in results if r["status"] == "violation"), key=lambda r: r["idx"])
    stat = collections.Counter(r["status"] for r in results)
    nevals = sum(agg["evals"].values())
    need = getattr(mod, "REQUIRED", ())  # monitors that must have been reached
    missing = [k for k in need if not agg["evals"].get(k)]
    oks = [r for r in results if r["status"] == "ok" and r["sample"]]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results) - stat["skip"],
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE
            + " A case is non-trivial when at least one monitor was evaluated on it;"
            " cases are distinct when the recorded calls (all arguments and data) differ.",
            "samples": [dict(case=r["idx"], **r["sample"]) for r in oks[:: max(1, len(oks) // 4)][:5]]
            or [{"note": "no completed case"}],
            "case_status": dict(stat),
            "monitor_evaluations": dict(sorted(agg["evals"].items())),
            "monitor_evaluations_total": nevals,
            "events_observed": dict(sorted(agg["events"].items())),
            "strata_seen": dict(sorted(agg["classes"].items())),
            "worst_error_over_tolerance": {k: float(f"{v:.3g}") for k, v in sorted(worst.items())},
            "utide_lines_executed": len(lines),
            "utide_lines_by_file": dict(sorted(collections.Counter(f for f, _ in lines).items())),
            "processes": nproc,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")

    khits = collections.Counter(k for r in results for k, _ in r["known"])
    for k, n in sorted(khits.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {known[k]} (seen {n} times)")
    print(
        f"{prop} {tier} seed={seed}: {len(results)} cases {dict(stat)}, {nevals} monitor evaluations,"
        f" {dict(agg['events'])}, {len(lines)} lines of utide executed, {time.time() - t0:.1f} s"
    )
    if a.v:
        print(json.dumps(ev["coverage"], indent=1, default=str))
        slow = sorted(results, key=lambda r: -r["dt"])[:5]
        print("slowest", [(r["idx"], round(r["dt"], 2)) for r in slow])
    if viol:
        for r in viol[:5]:
            for m in r["fail"][:3]:
                print(f"  case {r['idx']}: {m}")
        r = viol[0]
        path = _replay_file(
            prop,
            {
                "prop": prop,
                "seed": seed,
                "tier": tier,
                "case": r["idx"],
                "history": list(range(r["idx"] % nproc, r["idx"] + 1, nproc)),
                "fail": r["fail"],
                "sample": r["sample"],
                "how": f"VERIF_SEED={seed} VERIF_TIER={tier} ./check {prop} --case {r['idx']}",
                "all_violating_cases": [x["idx"] for x in viol],
            },
        )
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if lost or overrun or stat["timeout"] or stat["resource"] or not digests or missing:
        print(
            f"INCONCLUSIVE property={prop} lost={lost} overrun={overrun} status={dict(stat)}"
            f" distinct={len(digests)} monitors not reached={missing}"
        )
        return 2
    return 0


def _replay_file(prop, d):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-s{d['seed']}-{d['tier']}-{d['case']}.json")
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
        f.write("\n")
    return path
