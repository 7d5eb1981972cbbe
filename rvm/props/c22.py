"""C22 invalid requests are rejected and leave no effect."""
import numpy as np

from rvm import ref, snap, work
from rvm.props.c18 import values

CASES = {"quick": 900, "thorough": 12000}
TECHNIQUE = "exception monitor on recorded hostile calls (each an otherwise valid random request with one defect), with bitwise snapshots of arguments, tables and process state around each, and a valid call repeated after them"
RULE = "Random valid requests, each made invalid in one way drawn from about fifty (names changed by case, spelling, type or position; shapes; missing keys and lengths of inference; epochs), in random containers and with random other options; several in sequence."
KINDS = "latitude shape option constit conf_int method phase nodal order SNR-order order-sequence infer-key infer-twice infer-length infer-name epoch time-shape weights reconstruct-option reconstruct-epoch".split()
REQUIRED = tuple("rejected " + k for k in KINDS) + ("no effect on arguments", "no effect on tables", "no effect on process", "valid call unchanged")
CHECKED = (ValueError, KeyError)


def misspell(rng, s):
    k = int(rng.integers(6))
    out = [s.lower(), s + " ", " " + s, s[:-1], s + s[-1], s.swapcase()][k]
    return out if out != s else s + "_"


def bad_name(rng):
    n = work.pick(rng, work.USABLE)
    for _ in range(20):
        b = work.pick(rng, [misspell(rng, n), "XX", "", "None", n + "0", "auto"])
        if b not in ref.INDEX:
            return b
    return "XX9"


def spoil(rng, p, kind):
    """(exceptions, args, opts changes) of an invalid solve call"""
    t, x = p.t, p.x
    two = p.dim == 2
    a = [t, x[0], x[1] if two else None, p.lat]
    o = {}
    exc = ValueError
    n = len(t)
    if kind == "latitude":
        a[3] = None
    elif kind == "shape":
        k = int(rng.integers(9 if two else 5))
        if k == 0:
            a[1] = x[0][:-1]
        elif k == 1:
            a[0] = t[1:]
        elif k == 2:
            a[0], a[1] = t.reshape(1, -1), x[0].reshape(1, -1)
            if two:
                a[2] = x[1].reshape(1, -1)
        elif k == 3:
            a[1] = x[0].reshape(-1, 1)
        elif k == 4:
            a[0] = t.reshape(-1, 1)
        elif k == 5:
            a[2] = x[1][:-1]
        elif k == 6:
            a[2] = x[1].reshape(-1, 1)
        elif k == 7:
            a[2] = x[1][:1]
        else:
            a[2] = np.append(x[1], 0.0)
        if rng.random() < 0.3:
            a[:3] = [None if q is None else q.tolist() for q in a[:3]]
    elif kind == "option":
        exc = KeyError
        from utide._solve import default_opts

        known = sorted(default_opts)
        k = misspell(rng, work.pick(rng, known)).strip()
        o[k if k not in known else "cnstit"] = work.pick(rng, [None, True, 1, "auto"])
    elif kind == "constit":
        exc = KeyError
        c = list(p.names)
        c.insert(int(rng.integers(len(c) + 1)), bad_name(rng))
        o["constit"] = work.pick(rng, [list, tuple, np.array])(c)
    elif kind == "conf_int":
        o["conf_int"] = work.pick(rng, ["Linear", "mc", "None", None, "bootstrap", "", True, False, 1, "linear "])
    elif kind == "method":
        o["method"] = work.pick(rng, ["OLS", "cauchy", "", None, "lsq", "Robust", 1])
    elif kind == "phase":
        o["phase"] = work.pick(rng, ["greenwich", "", None, "RAW", "linear", True, False, "linear time"])
    elif kind == "nodal":
        o["nodal"] = work.pick(rng, ["linear", "true", "False", "", "Linear_time", "exact", "none"])
    elif kind == "order":
        o["order_constit"] = work.pick(rng, ["pe", "snr", "energy", "", "freq", "Frequency", 3, True, p.names[:-1] + ["XX9"], ["NOPE"], np.array(["m2"])])
    elif kind == "order-sequence":  # not each constituent once
        seq = [str(n) for n in rng.permutation(p.names)]
        k = int(rng.integers(5))
        if k == 0:
            seq.pop()
        elif k == 1:
            seq.append(work.pick(rng, seq))
        elif k == 2:
            seq = seq[:-1] + [seq[0]] if len(seq) > 1 else seq * 2
        elif k == 3:
            seq.insert(int(rng.integers(len(seq) + 1)), work.pick(rng, [q for q in work.USABLE if q not in seq]))
        else:
            seq = []
        o["order_constit"] = work.pick(rng, [list, tuple, np.array])(seq)
    elif kind == "SNR-order":
        o.update(order_constit="SNR", conf_int="none")
    elif kind.startswith("infer"):
        d = p.dim
        pool = [q for q in work.USABLE if q not in p.names]
        inf = work.Infer([work.pick(rng, pool)], [work.pick(rng, p.names)], rng.uniform(0.1, 0.4, d), rng.uniform(0, 90, d), d, approximate=work.pick(rng, [None, True, False]))
        lists = work.pick(rng, [list, tuple, np.array])
        s = inf.spec(lists=lists)
        if kind == "infer-key":
            s.pop(work.pick(rng, ["inferred_names", "reference_names", "amp_ratios", "phase_offsets"]))
            if rng.random() < 0.2:
                s = {}
        elif kind == "infer-length":
            k = work.pick(rng, ["inferred_names", "reference_names", "amp_ratios", "phase_offsets"])
            v = list(s[k])
            v = v + v if d == 1 or rng.random() < 0.5 or len(v) == 1 else v[:1]
            if k in ("inferred_names", "reference_names"):
                v = list(s[k]) + [work.pick(rng, pool)]
            s[k] = lists(v)
        elif kind == "infer-twice":  # or a reference
            i, r, k = s["inferred_names"][0], s["reference_names"][0], int(rng.integers(4))
            if k == 0:
                s["inferred_names"] = lists([r])
            else:
                new = [[i, i], [i, work.pick(rng, pool)], [i, r]][k - 1]
                refs = [[r, work.pick(rng, p.names)], [r, i], [r, work.pick(rng, p.names)]][k - 1]
                flip = slice(None, None, work.pick(rng, [1, -1]))
                s.update(inferred_names=lists(new[flip]), reference_names=lists(refs[flip]))
                for q in ("amp_ratios", "phase_offsets"):
                    s[q] = lists([s[q][0]] * (2 * d))
        else:
            exc = KeyError
            s[work.pick(rng, ["inferred_names", "reference_names"])] = lists([bad_name(rng)])
        from utide.utilities import Bunch

        o["infer"] = work.pick(rng, [dict, Bunch])(s)
        o["conf_int"] = work.pick(rng, ["linear", "none"])
    elif kind == "epoch":
        o["epoch"] = work.pick(rng, ["not a date", "Python", "2000-13-01", "2000-02-30", "matlab ", "01/02/2003", "yesterday"])
    elif kind == "weights":
        exc = Exception
        o["method"] = "robust"
        o["robust_kw"] = work.pick(rng, [{"weight_function": "nonesuch"}, {"weight_function": "Cauchy"}, {"weight": "cauchy"}, {"weight_function": None}])
    return exc, a, o


def run_case(ctx):
    rng = ctx.rng
    p = work.Problem(rng, nmax=200, ncon=int(rng.integers(1, 5)), maxcond=100)
    p.tell(ctx)
    base = dict(p.opts, conf_int=work.pick(rng, ["linear", "none", "linear"]), white=True)
    if rng.random() < 0.3:
        base["method"] = "robust"
    good = ctx.solve(*p.args, **base)
    before = snap.freeze(values(good))
    kinds = [KINDS[(ctx.idx + 7 * j) % len(KINDS)] for j in range(3)]
    for kind in kinds:
        one(ctx, p, kind, base, good)
        if rng.random() < 0.5:
            c = ctx.solve(*p.args, **base)
            ctx.check(snap.freeze(values(c)) == before, "valid call unchanged", kind)
    c = ctx.solve(*p.args, **base)
    ctx.check(snap.freeze(values(c)) == before, "valid call unchanged", kinds)
    ctx.check(snap.freeze(values(good)) == before, "valid call unchanged", "earlier solution")
    # the valid forms nearest to the rejected ones are accepted
    ctx.solve(*p.args, **dict(base, order_constit=list(p.names)))
    ctx.reconstruct(p.t.tolist(), good, epoch="python", min_SNR=0)


def one(ctx, p, kind, base, good):
    rng = ctx.rng
    ctx.note("kind=" + kind)
    if kind == "time-shape":
        tp = p.t[:20].reshape(work.pick(rng, [(4, 5), (20, 1), (1, 20), (2, 2, 5)]))
        if rng.random() < 0.3:
            tp = tp.tolist()
        elif rng.random() < 0.3:
            tp = ((tp - 719163) * 86400e3).astype("datetime64[ms]")
        exc, held = ValueError, [tp, good]
        kw = {"epoch": None if getattr(tp, "dtype", None) is not None and tp.dtype.kind == "M" else "python", "min_SNR": 0}
        fn = lambda: ctx.reconstruct(tp, good, **kw)  # noqa: E731
        what = str(np.shape(tp))
    elif kind == "reconstruct-option":
        k = misspell(rng, work.pick(rng, ["constit", "min_SNR", "min_PE", "epoch", "verbose"])).strip()
        if k in ("constit", "min_SNR", "min_PE", "epoch", "verbose"):
            k = "minsnr"
        exc, held = (ValueError, KeyError, TypeError), [p.t, good]
        fn = lambda: ctx.reconstruct(p.t, good, epoch="python", **{k.replace(" ", "") or "x": 1})  # noqa: E731
        what = k
    elif kind == "reconstruct-epoch":
        e = work.pick(rng, ["not a date", "Python", "2000-13-01", "matlab ", "yesterday"])
        tp = work.pick(rng, [p.t, p.t, p.t[:1], p.t[:0], float(p.t[0]), p.t.tolist(), np.full(3, np.nan)])
        exc, held = ValueError, [tp, good]
        fn = lambda: ctx.reconstruct(tp, good, epoch=e)  # noqa: E731
        what = e
    else:
        exc, a, o = spoil(rng, p, kind)
        kw = {**base, **o}
        if rng.random() < 0.3:
            kw = dict(reversed(list(kw.items())))
        if kind == "option" and rng.random() < 0.5:  # nothing else is asked for
            a[0] = ((a[0] - 719163) * 86400e3).astype("datetime64[ms]")
            kw = dict(o)
        held = [a, kw]
        what = str(o)[:200] if o else str([None if q is None else np.shape(q) for q in a])
        fn = lambda: ctx.solve(a[0], a[1], a[2], a[3], **kw)  # noqa: E731
        if a[3] is None and rng.random() < 0.5:
            fn = lambda: ctx.solve(a[0], a[1], **kw) if a[2] is None else ctx.solve(a[0], a[1], a[2], **kw)  # noqa: E731
    ctx.describe(**{kind: what})
    a0, t0, p0 = snap.freeze(held), snap.tables(), snap.process()
    ctx.raises(exc, "rejected " + kind, fn)
    a1, t1, p1 = snap.freeze(held), snap.tables(), snap.process()
    ctx.check(a0 == a1, "no effect on arguments", f"{kind} {what}: {snap.diff(a0, a1)}")
    ctx.check(t0 == t1, "no effect on tables", f"{kind} {what}")
    bad = [k for k in p0 if p0[k] != p1[k]]
    ctx.check(not bad, "no effect on process", f"{kind} {what} {bad}")
