"""C06 the same instants in any representation."""
import datetime as dtm
import zoneinfo

import numpy as np
import pandas as pd

from rvm import work

CASES = {"quick": 640, "thorough": 8000}
TECHNIQUE = "metamorphic monitor over paired executions (every representation of the same instants)"
RULE = "Random records at whole-millisecond (or second, minute) times are analysed and predicted with the times given as datetime64 of each unit, datetimes (naive, and aware of one or several time zones), pandas datetimes, and numbers with each kind of epoch, some of the times missing."
REQUIRED = ("solution: amplitudes", "prediction", "normalised time")
UNIX = 719163


def zone(rng):
    """of a datetime"""
    if rng.random() < 0.3:
        return dtm.timezone.utc
    if rng.random() < 0.5:
        return dtm.timezone(dtm.timedelta(minutes=int(rng.integers(-840, 841))))
    return zoneinfo.ZoneInfo(work.pick(rng, ["America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Australia/Lord_Howe", "Europe/London"]))


def aware(rng, py, ns_ok, gone):
    """[(label, times)] of datetimes with time zones, one or several"""
    utc = [None if g else q.replace(tzinfo=dtm.timezone.utc) for q, g in zip(py, gone)]
    z = zone(rng)
    one = [q and q.astimezone(z) for q in utc]
    many = [q and q.astimezone(zone(rng)) for q in utc]
    out = [("list of aware datetimes", one), ("datetimes of several zones", many), ("object array of aware datetimes", np.array(one, dtype=object))]
    if ns_ok:
        s = pd.Series(pd.to_datetime([None if q is None else q.replace(tzinfo=None) for q in utc])).dt.tz_localize("UTC").dt.tz_convert(z)
        out += [("aware Series", s), ("aware DatetimeIndex", pd.DatetimeIndex(s)), ("list of aware Timestamps", list(s))]
    return out


def representations(rng, ms, gone=None):
    """[(label, times, epoch)] of instants given as int64 ms since 1970, some of them missing"""
    out = present(rng, ms, np.zeros(len(ms), bool) if gone is None else gone)
    if gone is None:
        return out
    res = []
    for lb, t, ep in out:
        how = work.pick(rng, ["empty", "empty", "masked"])
        kind = getattr(getattr(t, "dtype", None), "kind", "O")
        if ep is None and ("aware" in lb or "zones" in lb):
            pass
        elif isinstance(t, list):
            none = [None, np.datetime64("NaT")] + ([pd.NaT] if "Timestamps" in lb else [])
            t = [work.pick(rng, none) if g else q for q, g in zip(t, gone)]
        elif isinstance(t, pd.Series):
            t = t.where(~gone)
        elif isinstance(t, pd.Index):
            t = t.where(~gone)
        elif how == "masked" or kind in "iu":
            t = np.ma.array(t, mask=gone)
        else:
            t = t.copy()
            t[gone] = None if kind == "O" else np.datetime64("NaT") if kind == "M" else np.nan
        res.append((lb, t, ep))
    return res


def present(rng, ms, gone):
    out = []
    d = ms.astype("datetime64[ms]")
    years = 1970 + ms / 86400e3 / 365.25
    days = ms / 86400e3
    out.append(("datetime64[ms]", d, None))
    out.append(("datetime64[us]", d.astype("datetime64[us]"), None))
    ns_ok = years.min() > 1680 and years.max() < 2260
    if ns_ok:
        out.append(("datetime64[ns]", d.astype("datetime64[ns]"), None))
        out.append(("DatetimeIndex", pd.DatetimeIndex(d.astype("datetime64[ns]")), None))
        out.append(("Series of datetimes", pd.Series(d.astype("datetime64[ns]")), None))
        out.append(("list of Timestamps", [pd.Timestamp(x) for x in d], None))
    if (ms % 1000 == 0).all():
        out.append(("datetime64[s]", d.astype("datetime64[s]"), None))
    if (ms % 60000 == 0).all():
        out.append(("datetime64[m]", d.astype("datetime64[m]"), None))
    if (ms % 3600000 == 0).all():
        out.append(("datetime64[h]", d.astype("datetime64[h]"), None))
    py = d.astype("datetime64[us]").astype(object)
    out.append(("object array of datetimes", py, None))
    out.append(("list of datetimes", list(py), None))
    out.append(("list of datetime64", list(d), None))
    if years.min() > 2 and years.max() < 9998:
        out += [(lb, t, None) for lb, t in aware(rng, py, ns_ok, gone)]
    out.append(("number, 'python'", days + UNIX, "python"))
    out.append(("number, 'matlab'", days + UNIX + 366, "matlab"))
    for _ in range(2):
        y = int(rng.integers(1600, 2400)) if rng.random() < 0.7 else int(rng.integers(1, 9999))
        mo, dd = int(rng.integers(1, 13)), int(rng.integers(1, 29))
        if rng.random() < 0.4:
            y, mo, dd = work.pick(rng, [(1970, 1, 1), (1900, 1, 1), (2000, 2, 29), (1950, 1, 1), (1858, 11, 17), (1, 1, 1), (9999, 12, 31)])
        date = dtm.date(y, mo, dd)
        off = date.toordinal() - UNIX
        x = days - off
        s = f"{y:04d}-{mo:02d}-{dd:02d}"
        out.append((f"number, epoch string {s}", x, s))
        out.append((f"number, epoch date {s}", x, date))
        hh, mi = int(rng.integers(24)), int(rng.integers(60))
        x2 = x - (hh * 60 + mi) / 1440
        out.append(("number, epoch datetime", x2, dtm.datetime(y, mo, dd, hh, mi)))
        out.append(("number, epoch string with time", x2, f"{s} {hh:02d}:{mi:02d}:00"))
        out.append(("number, epoch ISO string", x2, f"{s}T{hh:02d}:{mi:02d}"))
        u = work.pick(rng, ["m", "s", "ms"])
        out.append((f"number, epoch datetime64[{u}]", x2, np.datetime64(f"{s}T{hh:02d}:{mi:02d}", u)))
        out.append(("number, epoch datetime64[D]", x, np.datetime64(s, "D")))
        if 2 < y < 9998:
            out.append(("number, epoch aware datetime", x2, dtm.datetime(y, mo, dd, hh, mi, tzinfo=dtm.timezone.utc).astimezone(zone(rng))))
        if 1700 < y < 2250:
            out.append(("number, epoch Timestamp", x2, pd.Timestamp(y, mo, dd, hh, mi)))
    if (days == np.floor(days)).all():
        out.append(("integers, 'python'", (days + UNIX).astype(int), "python"))
        out.append(("integers, 'matlab'", (days + UNIX + 366).astype(np.int32), "matlab"))
        out.append(("integers, epoch string", (days - 10957).astype(np.int64), "2000-01-01"))
    return out


def run_case(ctx):
    rng = ctx.rng
    size = dict(nmax=400, nmin=100)
    if ctx.idx % 12 == 5:  # any year that has a name
        size["start"] = float(rng.uniform(370, 500000) if rng.random() < 0.6 else rng.uniform(940000, 3500000))
    elif ctx.idx % 40 == 7:
        size = dict(nmax=7000, nmin=5500, ncon=3, kind=work.pick(rng, ["regular", "segments"]), dt=work.pick(rng, [1 / 288, 1 / 144]))
    p = work.Problem(rng, maxcond=50, **size)
    q = work.pick(rng, [1, 1000, 60000, 3600000])
    ms = np.round((p.t - UNIX) * 86400e3 / q).astype(np.int64) * q
    ms = np.unique(ms)
    if len(ms) < len(p.t):
        ms = np.unique(np.round((p.t - UNIX) * 86400e3).astype(np.int64))
    n = min(len(ms), len(p.t))
    ms = ms[:n]
    x = [c[:n] for c in p.x]
    p.tell(ctx)
    ctx.note(f"resolution {q} ms")
    opts = p.opts
    opts.pop("epoch")
    opts["conf_int"] = work.pick(rng, ["linear", "none", "none"])
    opts["white"] = bool(rng.random() < 0.5)
    gone = None
    t0 = ms / 86400e3 + UNIX
    if rng.random() < 0.3:
        gone = rng.random(n) < 0.05
        gone[int(rng.integers(n))] = True
        t0[gone] = np.nan
        ctx.note("missing times")
    reps = representations(rng, ms, gone)
    v = x[1] if p.dim == 2 else None
    base = ctx.solve(t0, x[0], v, p.lat, epoch="python", **opts)
    S = p.magnitude()
    tol = 2e-7 * S * max(1, p.cond)
    for k in rng.permutation(len(reps))[:5]:
        lb, tt, ep = reps[k]
        kw = dict(opts)
        if ep is not None or rng.random() < 0.5:
            kw["epoch"] = ep
        c = ctx.solve(tt, x[0], v, p.lat, **kw)
        ctx.note("solve " + lb.split(" string")[0].split(" date ")[0])
        work.same_solution(ctx, base, c, "solution", 1.0, tol=tol, citol=1e-5, ci=opts["white"])
        ctx.close(c["aux"]["reftime"], base["aux"]["reftime"], 2e-9, "reference time")
    # prediction; integer times too
    if rng.random() < 0.3:
        ms2 = (np.floor(p.tref) - UNIX + rng.integers(-360, 400, 30)).astype(np.int64) * 86400000
    else:
        far = 500 if ctx.idx % 12 != 5 else min(500, p.t[0] - 2, 3652000 - p.t[-1])
        ms2 = np.round((p.tref - UNIX + rng.uniform(-far, far, 40 if rng.random() < 0.95 else 6000)) * 86400e3 / q).astype(np.int64) * q
    t2 = ms2 / 86400e3 + UNIX
    gone = None
    if rng.random() < 0.3:
        gone = rng.random(len(ms2)) < 0.2
        gone[3] = False
        t2[gone] = np.nan
    out = ctx.reconstruct(t2, base, epoch="python", min_SNR=0)
    pt = 3e-8 * (np.abs(work.zz(base, p.names)).sum() * 10 + np.abs(work.slopes(base)).sum())
    reps = representations(rng, ms2, gone)
    for k in rng.permutation(len(reps))[:7]:
        lb, tt, ep = reps[k]
        kw = {} if ep is None and rng.random() < 0.5 else {"epoch": ep}
        o = ctx.reconstruct(tt, base, min_SNR=0, **kw)
        ctx.note("predict " + lb.split(" string")[0].split(" date ")[0])
        for g, w in zip(work.series(o), work.series(out)):
            ctx.close(g, w, pt, "prediction", [lb])
        tm = o["t_mpl"]
        tm = tm.astype(float).filled(np.nan) if isinstance(tm, np.ma.MaskedArray) else np.asarray(tm, dtype=float)
        ctx.close(tm, t2, 2e-9, "normalised time", [lb])
        ctx.check(o["t_in"] is tt, "t_in is the argument", lb)
    # one instant
    lb, tt, ep = reps[int(rng.integers(len(reps)))]
    one = tt.iloc[3] if isinstance(tt, pd.Series) else tt[3]
    o = ctx.reconstruct(one, base, min_SNR=0, epoch=ep)
    for g, w in zip(work.series(o), work.series(out)):
        ctx.close(g, w[3:4], pt, "prediction at one instant", [lb])
