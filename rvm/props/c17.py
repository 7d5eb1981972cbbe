"""C17 residual spectra."""
import numpy as np

from rvm import ref, spectra, work

CASES = {"quick": 1000, "thorough": 12000}
RULE = "Real and complex residual-like series (white, red, with lines and offsets; even and odd lengths; regular and irregular sampling) are given to band_psd and compared with independently computed Hann periodograms, and with transformed copies of themselves."
REQUIRED = ("Puu FFT", "Pvv FFT", "Puv FFT", "Puu Lomb", "Puv Lomb", "scales quadratically", "ignores the mean", "rotates as a tensor", "FFT and Lomb agree", "white noise level", "time origin")
ASSUMPTIONS = ["a band reaches up to the first frequency at or beyond its upper edge, and Lomb-Scargle bands hold at most 500 frequencies, as in the pinned commit"]


def run_case(ctx):
    from utide.periodogram import band_psd

    rng = ctx.rng
    equi = bool(ctx.idx % 2)
    cplx = bool(rng.random() < 0.6)
    big = ctx.idx % 10 in (3, 4)
    n = int(rng.integers(100, 500)) if not big else int(rng.integers(1200, 3000))
    if equi and ctx.idx % 16 == 1:
        n = int(rng.integers(3000, 20000)) if rng.random() < 0.7 else int(rng.integers(20000, 90000))
    dt = float(work.pick(rng, [1, 0.5, 2, 0.25, 0.4321])) / 24
    t0 = work.pick(rng, [0.0, 700000.3, -50.0, work.start_date(rng)])
    if equi:
        t = t0 + np.arange(n) * dt
    else:
        kind = work.pick(rng, ["jitter", "random", "segments", "dropout", "burst"])
        t, kind = work.times(rng, span=n * dt, nmax=n, kind=kind, start=t0, dt=dt)
        n = len(t)
        ctx.note("times=" + kind)
    scale = float(10 ** rng.uniform(-3, 3))

    def noise():
        x = rng.normal(size=n)
        k = rng.integers(0, 4)
        if k == 1:
            for i in range(1, n):
                x[i] += 0.9 * x[i - 1]
        elif k == 2:
            x += 3 * np.sin(2 * np.pi * 24 * (t - t[0]) * rng.uniform(0.03, 0.2) + 1)
        return scale * (x + work.pick(rng, [0, 1, 50]))

    e = noise()
    if cplx:
        e = e + 1j * noise()
    nf = int(rng.integers(1, 20))
    cf = np.array([ref.FREQ[ref.INDEX[c]] for c in rng.choice(work.USABLE, nf, replace=False)])
    ctx.describe(n=n, dt_hours=dt * 24, equi=equi, complex=cplx, start=t[0], nfreq=nf)
    ctx.note("FFT" if equi else "Lomb", "complex" if cplx else "real", "n=" + work.size_class(n))
    # oversampling reaches the Nyquist frequency, where regular pieces are degenerate
    ofac = int(work.pick(rng, [1, 2])) if not equi and kind == "random" else 1

    def psd(tt, ee, eq=equi):  # noqa
        ctx.event("band_psd", data=(n, dt, equi, cplx, float(np.real(ee[3])), nf))
        a, b = tt.copy(), ee.copy()
        kw = {} if ofac == 1 else dict(frqosamp=ofac)
        P = band_psd(tt, ee, cf, equi=eq, **kw)
        ctx.check(np.array_equal(a, tt) and np.array_equal(b, ee), "arguments unchanged")
        if ee.dtype.kind == "c":
            return np.array([P["Puu"], P["Pvv"], P["Puv"]])
        ctx.check("Pvv" not in P and "Puv" not in P, "only Puu for real residuals")
        return np.array([P["Puu"]])

    base = psd(t, e)
    want, ambiguous = spectra.band_psd(t, e, cf, equi, ofac)
    tag = " FFT" if equi else " Lomb"
    mx = np.nanmax(np.abs(base))
    off = abs(e.mean()) / scale
    # the sample interval itself is uncertain by the spacing of the times
    tol = (1e-9 + 1e-13 * off**2 + 8 * np.spacing(abs(t0) + n * dt) / dt) * mx
    if not equi:
        tol = 1e-5 * mx if abs(t[0]) > 1e5 else 1e-8 * mx  # arguments of 1e7 radians
    if not ambiguous:
        for nm, b, w in zip(("Puu", "Pvv", "Puv"), base, want):
            ctx.close(b, w, tol, nm + tag)
    # transformations
    k = float(work.pick(rng, [2, -1, 1e-3, -37.5]))
    ctx.close(psd(t, k * e), k * k * base, 1e-9 * k * k * (mx + off**2 * 1e-4 * mx), "scales quadratically")
    ctx.close(psd(t, e + scale * 7), base, (1e-8 + 1e-12 * off**2) * mx + 1e-12 * scale**2, "ignores the mean")
    ctx.close(psd(t, -e), base, 1e-9 * mx, "ignores the sign")
    sh = float(work.pick(rng, [1.0, 365.25, -1234.567, 0.0417]))
    if not ambiguous:
        ctx.close(psd(t + sh, e), base, (1e-6 if equi else 1e-5) * mx, "time origin")
    if cplx:
        th = rng.uniform(0, 2 * np.pi)
        c, s = np.cos(th), np.sin(th)
        uu, vv, uv = base
        exp = np.array([c * c * uu + s * s * vv - 2 * c * s * uv, s * s * uu + c * c * vv + 2 * c * s * uv, c * s * (uu - vv) + (c * c - s * s) * uv])
        got = psd(t, e * np.exp(1j * th))
        ctx.close(got, exp, (1e-8 + 1e-12 * off**2) * mx, "rotates as a tensor")
        ctx.close(psd(t, np.ascontiguousarray(e.real))[0], uu, 1e-9 * mx, "real part alone")
        ok = np.isfinite(uu)
        ctx.check((base[:2, ok] >= 0).all() and (uv[ok] ** 2 <= uu[ok] * vv[ok] * (1 + 1e-9)).all(), "co-spectrum within the auto-spectra")
    else:
        ctx.check((base[np.isfinite(base)] >= 0).all(), "auto-spectrum not negative")
    if equi and n < 900 and n * dt > 5 and t0 == 0.0 and not ambiguous:
        # the two methods agree on regular data away from the frequency limits
        m = n - n % 2
        # the Lomb grid has no bins between the bands for constituents there
        f1 = 1.5 / (24 * m * dt)
        cf_all = cf
        cf = np.array([f for f in cf_all if ((spectra.BANDS[:, 0] + f1 < f) & (f < spectra.BANDS[:, 1] - f1)).any()] or [0.08])
        got = psd(t[:m], e[:m], eq=False)
        base = psd(t[:m], e[:m])
        fny = 0.5 / (24 * dt)
        inner = spectra.BANDS[:, 1] < fny * 0.9
        inner[0] = False  # the FFT bins of the lowest band begin at zero
        ctx.close(got[:, inner], base[:, inner], 1e-6 * mx, "FFT and Lomb agree")
    # level for white noise: 2 sigma^2 dt
    if ctx.idx % 5 == 0:
        m = 4000 if equi else 1500
        tt = t0 + np.arange(m) / 24 if equi else np.sort(t0 + rng.random(m) * m / 24)
        w = scale * rng.normal(size=m)
        P = psd(tt, w)[0]
        lev = 2 * scale**2 * 24 * np.ptp(tt) / (m - 1)
        for b in (1, 2, 8):
            lo, hi = spectra.BANDS[b]
            nb = min((hi - lo) * 24 * np.ptp(tt), 10**9 if equi else 500)
            tolr = 7 * np.sqrt(2 / nb)
            ctx.close(P[b] / lev, 1.0, tolr if tolr < 0.9 else 0.9 + tolr, "white noise level")
