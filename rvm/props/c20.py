"""C20 astronomical arguments."""
import numpy as np

from rvm import ref, work

CASES = {"quick": 1000, "thorough": 12000}
TECHNIQUE = "metamorphic monitors over recorded evaluations: rates against differences, continuity and advance of every argument between neighbouring times, tangency of the linearised options at the reference time, and invariance under time shifts"
RULE = "Random dates over eight centuries (with midnight, the astronomical epoch, 1970 and wrap-arounds of the arguments oversampled), all constituents, all latitudes; and raw analyses of shifted records."
REQUIRED = ("astron rates", "astron continuous", "astron shape", "argument advances", "argument continuous", "nodal continuous", "linear phase at reference", "linear nodal at reference", "linear phase departs gradually", "linear nodal departs gradually", "shift: amplitudes", "frequency is the rate", "linear_time near exact: amplitudes", "nodal linear near exact: amplitudes")
ALL = [i for i, n in enumerate(ref.NAMES) if np.isfinite(ref.FREQ[i]) and n != "Z0"]
M7 = {i for i in ALL if ref.NAMES[i] in ref.HALF_NAMES}


def dates(rng, n):
    k = rng.random(n)
    d = rng.uniform(584755, 875000, n)
    d = np.where(k < 0.3, np.floor(d) + rng.choice([0, 1e-7, -1e-7, 0.5, 0.99999], n), d)
    d = np.where((k > 0.3) & (k < 0.45), 693595.5 + rng.uniform(-40, 40, n), d)
    return np.where((k > 0.45) & (k < 0.6), 719163 + rng.uniform(-40, 40, n), d)


def frac(x):
    return x - np.round(x)


def run_case(ctx):
    k = ctx.idx % 5
    (astron, arguments, linear, shift, options)[k](ctx)


def astron(ctx):
    from utide.astronomy import ut_astron

    rng = ctx.rng
    n = int(rng.integers(1, 40))
    d = dates(rng, n)
    ctx.event("ut_astron", 3, data=d.tolist())
    ctx.describe(dates=d, what="ut_astron")
    h = float(10 ** rng.uniform(-2, 3))
    a, r = ut_astron(d)
    a0, _ = ut_astron(d - h)
    a1, _ = ut_astron(d + h)
    for q in (a, r, a0):
        ctx.check(q.shape == (6, n), "astron shape", q.shape)
    # the third derivatives of the polynomials bound the error of the difference
    c3 = np.array([4e-8, 4e-8, 3e-7, 6e-8, 8e-8, 8e-8])[[5, 0, 3, 2, 3, 4]][:, None]
    tol = 2 * np.abs(c3) * (h / 1e4) ** 3 / 360 + 5e-9
    ctx.close(frac(a1 - a0 - 2 * h * r), 0 * r, np.broadcast_to(tol, r.shape), "astron rates")
    e = 1e-4
    b, _ = ut_astron(d + e)
    ctx.close(frac(b - a - e * r), 0 * r, 2e-9, "astron continuous")
    L, R = ref.longitudes(d), ref.rates(d)
    for i, q in enumerate(("tau", "s", "h", "p", "n", "pp")):
        ctx.close(frac(a[i] - L[q]), 0 * a[i], 2e-9, "astron values")
        ctx.close(r[i], R[q], 1e-12, "astron rate values")
    if rng.random() < 0.3:
        s, sr = ut_astron(float(d[0]))
        ctx.check(s.shape == (6, 1), "astron shape", s.shape)
        ctx.close(s[:, 0], a[:, 0], 1e-8, "astron scalar")


def arguments(ctx):
    from utide.harmonics import FUV

    rng = ctx.rng
    lind = np.sort(rng.choice(ALL, int(rng.integers(10, len(ALL) + 1)), replace=False))
    if rng.random() < 0.3 and not M7 & set(lind.tolist()):
        lind = np.r_[lind, sorted(M7)]
    names = [ref.NAMES[i] for i in lind]
    half = np.array([i in M7 for i in lind])
    lat = float(work.pick(rng, work.LATS))
    n = int(rng.integers(2, 20))
    t = dates(rng, n)
    h = float(10 ** rng.uniform(-4, 0.5))
    t1 = t + h
    tref = float(dates(rng, 1)[0])
    ctx.event("FUV", 2, data=(lind.tolist(), lat, t.tolist(), h))
    ctx.describe(dates=t, step=h, lat=lat, constituents=len(lind), what="FUV")
    ctx.note("lat=" + work.lat_class(lat), "step=" + str(int(np.floor(np.log10(h)))))
    F0, U0, V0 = FUV(t, tref, lind, lat, [0, 0, 0, 0])
    F1, U1, V1 = FUV(t1, tref, lind, lat, [0, 0, 0, 0])
    for q in (F0, U0, V0):
        ctx.check(q.shape == (n, len(lind)), "shape", q.shape)
    fr = np.array([[ref.freq(q, tm) for q in names] for tm in 0.5 * (t + t1)])
    adv = frac(V1 - V0 - 24 * h * fr)
    ctx.close(adv[:, ~half], 0 * adv[:, ~half], 3e-8, "argument advances" if h > 0.01 else "argument continuous", np.array(names)[~half])
    for i in np.flatnonzero(half):
        bad = np.abs(adv[:, i]) > 3e-8
        if bad.any():
            if (np.abs(np.abs(adv[bad, i]) - 0.5) < 1e-7).all():
                ctx.finding("M7-noninteger-multiple", f"{names[i]} at {t[bad][0]}: half a cycle between t and t+{h}")
            else:
                ctx.check(False, "argument continuous", f"{names[i]} {adv[bad, i][0]}")
    # complex nodal factors move slowly: bounded by the satellites' rates
    z0, z1 = F0 * np.exp(2j * np.pi * U0), F1 * np.exp(2j * np.pi * U1)
    fm = np.maximum(np.maximum(F0, F1), 1)
    # the satellites are combinations (up to +-4) of p (8.85 y), n (18.6 y), pp
    rate = 2 * np.pi * 4 * (1 / 3231 + 1 / 6798 + 1e-7)
    shallow = np.array([sum(abs(c) for _, c in ref.SHALLOW.get(i, [(0, 1)])) for i in lind])
    amp = np.array([max([sum(abs(s[2]) * latfac(s[3], lat) for s in ref.SATS.get(j, [])) for j in ([i] if i not in ref.SHALLOW else [q for q, _ in ref.SHALLOW[i]])] + [0]) for i in lind])
    bound = rate * h * amp * shallow * (1 + amp) ** np.maximum(shallow - 1, 0) + 1e-9 * fm
    ctx.close(np.abs(z1 - z0), 0 * F0, bound, "nodal continuous", names)
    ctx.check(np.isfinite(F0).all() and (F0 >= 0).all() and np.isfinite(V0).all() and np.isfinite(U0).all(), "finite")


def latfac(il, lat):
    if abs(lat) < 5:
        lat = -5 if lat < 0 else 5
    s = np.sin(np.radians(lat))
    return abs(0.36309 * (1 - 5 * s * s) / s) if il == 1 else abs(2.59808 * s) if il == 2 else 1.0


def linear(ctx):
    from utide.harmonics import FUV

    rng = ctx.rng
    lind = np.array([i for i in ALL if i not in M7])
    names = [ref.NAMES[i] for i in lind]
    lat = float(work.pick(rng, work.LATS))
    tref = float(dates(rng, 1)[0])
    d = np.r_[0.0, rng.normal(size=8) * 10 ** rng.uniform(-3, 2.5, 8)]
    t = tref + d
    ctx.event("FUV", 3, data=(tref, lat, d.tolist()))
    ctx.describe(tref=tref, lat=lat, offsets=d, what="linearised FUV")
    ctx.note("lat=" + work.lat_class(lat))
    F, U, V = FUV(t, tref, lind, lat, [0, 0, 0, 0])
    Fn, Un, Vn = FUV(t, tref, lind, lat, [1, 0, 0, 0])
    Fp, Up, Vp = FUV(t, tref, lind, lat, [0, 0, 1, 0])
    ctx.close(np.exp(2j * np.pi * Vp[0]), np.exp(2j * np.pi * V[0]), 1e-7, "linear phase at reference", names)
    z, zn = F * np.exp(2j * np.pi * U), Fn * np.exp(2j * np.pi * Un)
    zn = np.broadcast_to(zn, z.shape)
    ctx.close(zn[0], z[0], 1e-9 * np.maximum(F[0], 1), "linear nodal at reference", names)
    ctx.close(frac(Vn - V), 0 * V, 1e-8, "nodal option leaves the argument")
    ctx.close(np.broadcast_to(Fp, F.shape), F, 1e-10 * np.maximum(F, 1), "phase option leaves the nodal factor")
    # second derivatives of the longitudes: at most 2e-4 deg per (10^4 d)^2 times
    # Doodson numbers below 50
    bound = 2 * np.pi * (50 * 1e-3 * (np.abs(d) / 1e4) ** 2 / 360 + 1e-8)
    ctx.close(np.exp(2j * np.pi * Vp), np.exp(2j * np.pi * V), np.broadcast_to(bound[:, None], V.shape), "linear phase departs gradually", names)
    rate = 2 * np.pi * 4 * (1 / 3231 + 1 / 6798 + 1e-7)
    shallow = np.array([sum(abs(c) for _, c in ref.SHALLOW.get(i, [(0, 1)])) for i in lind])
    amp = np.array([max([sum(abs(s[2]) * latfac(s[3], lat) for s in ref.SATS.get(j, [])) for j in ([i] if i not in ref.SHALLOW else [q for q, _ in ref.SHALLOW[i]])] + [0]) for i in lind])
    b = rate * np.abs(d)[:, None] * amp * shallow * (1 + amp) ** np.maximum(shallow - 1, 0) + 1e-9 * np.maximum(F, 1)
    ctx.close(np.abs(zn - z), 0 * F, b, "linear nodal departs gradually", names)


def shift(ctx):
    """raw phases: a record and the same record at another time"""
    rng = ctx.rng
    p = work.Problem(rng, phase="raw", nodal=False, nmax=500, maxcond=30, m7=True)
    p.tell(ctx)
    S = p.magnitude()
    d = float(work.pick(rng, [1.0, -1.0, 0.5, 1 / 24, 365.25, -20000.0, 40000.0, rng.uniform(-1e5, 1e5), rng.uniform(-1, 1)]))
    ctx.note("shift " + ("day" if abs(d) <= 1 else "year" if abs(d) < 400 else "century"))
    ci = work.pick(rng, ["none", "linear"])
    o = dict(p.opts, conf_int=ci)
    a = ctx.solve(*p.args, **o)
    v = p.x[1] if p.dim == 2 else None
    b = ctx.solve(p.t + d, p.x[0], v, p.lat, **o)
    # the frequencies themselves drift by up to 1e-9 cycles per day per century
    tol = S * p.cond * (1e-7 + 2 * np.pi * p.lor * 2e-8 * abs(d) / 36525)
    ctx.close(work.zz(b, p.names), work.zz(a, p.names), tol, "shift: amplitudes", p.names)
    ctx.close(work.means(b), work.means(a), tol, "shift: mean")
    ctx.close(work.slopes(b) * p.lor, work.slopes(a) * p.lor, 4 * tol, "shift: slope")
    f = work.get(a, "frq", p.names)
    ctx.close(work.get(b, "frq", p.names), f, 1e-9, "shift: frequencies")
    ctx.close(f, np.array([ref.freq(q, p.tref) for q in p.names]), 1e-12, "frequency is the rate", p.names)


def options(ctx):
    """analyses of one record under the exact and the linearised options agree"""
    rng = ctx.rng
    p = work.Problem(rng, phase="Greenwich", nodal=work.pick(rng, [False, True]), nmax=500, maxcond=30, span=float(np.exp(rng.uniform(np.log(2), np.log(40)))))
    p.tell(ctx)
    S = p.magnitude()
    a = ctx.solve(*p.args, **dict(p.opts, conf_int="none"))
    b = ctx.solve(*p.args, **dict(p.opts, conf_int="none", phase="linear_time"))
    ctx.close(work.zz(b, p.names), work.zz(a, p.names), 1e-6 * p.cond * S, "linear_time near exact: amplitudes", p.names)
    if p.nodal is True:
        c = ctx.solve(*p.args, **dict(p.opts, conf_int="none", nodal="linear_time"))
        far = max(np.abs(ref.basis(p.names, p.t, p.tref, p.lat, True, "raw") - ref.basis(p.names, p.t, p.tref, p.lat, "linear_time", "raw")).max(), 1e-9)
        ctx.close(work.zz(c, p.names), work.zz(a, p.names), 4 * far * p.cond * S * len(p.names), "nodal linear near exact: amplitudes", p.names)
