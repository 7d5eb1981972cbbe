"""Independent spectral estimates (oracle of C15 and C17)."""
import numpy as np

BANDS = np.array(
    [
        [0.00010, 0.00417],
        [0.03192, 0.04859],
        [0.07218, 0.08884],
        [0.11243, 0.12910],
        [0.15269, 0.16936],
        [0.19295, 0.20961],
        [0.23320, 0.25100],
        [0.26000, 0.29000],
        [0.30000, 0.50000],
    ]
)


def hann(n):
    return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)


def _fft(x, dt):
    n = len(x)
    w = hann(n)
    y = (x - x.mean()) * w
    if n <= 400:  # plain discrete Fourier sums
        k = np.arange(n // 2 + 1)
        ph = np.exp(-2j * np.pi * ((np.outer(k, np.arange(n))) % n) / n)
        X, Y = ph @ y.real, ph @ y.imag
    else:
        F = np.fft.fft(y)
        G = np.conj(np.roll(F[::-1], 1))
        X, Y = ((F + G) / 2)[: n // 2 + 1], ((F - G) / 2j)[: n // 2 + 1]
    f = np.arange(n // 2 + 1) / (n * dt)
    c = np.full(n // 2 + 1, 2.0)
    c[0] = c[-1] = 1
    c *= dt / (w**2).sum()
    return f, c * np.abs(X) ** 2, c * np.abs(Y) ** 2, c * (np.conj(X) * Y).real


def lomb_grid(t, ofac=1, max_per_band=500):
    n = len(t)
    rec = n * (t[-1] - t[0]) / (n - 1)
    f = np.arange(1, n * ofac // 2) / rec
    out = []
    for lo, hi in BANDS:
        inside = np.flatnonzero((f >= lo) & (f < hi))
        i0 = inside[0] if len(inside) else int((f < lo).sum())
        i1 = min(len(f), i0 + len(inside) + 1)
        if i1 - i0 > max_per_band:
            out.append(f[i0] + (f[i1 - 1] - f[i0]) * np.arange(max_per_band) / (max_per_band - 1))
        else:
            out.append(f[i0:i1])
    return np.concatenate(out)


def _lomb(x, t, ofac=1):
    n = len(t)
    grid = np.linspace(t.min(), t.max(), n)
    w = np.interp(t, grid, hann(n))
    y = (x - x.mean()) * w
    f = lomb_grid(t, ofac)
    dt = (t[-1] - t[0]) / (n - 1)
    norm = 2 * dt * n / (w**2).sum()
    t0 = t - t.mean()
    P = np.empty((3, len(f)))
    for k, fk in enumerate(f):
        om = 2 * np.pi * fk
        tau = np.arctan2(np.sin(2 * om * t0).sum(), np.cos(2 * om * t0).sum()) / (2 * om)
        c, s = np.cos(om * (t0 - tau)), np.sin(om * (t0 - tau))
        cc, ss = (c**2).sum(), (s**2).sum()
        xc, xs, yc, ys = y.real @ c, y.real @ s, y.imag @ c, y.imag @ s
        P[:, k] = (
            0.5 * (xc**2 / cc + xs**2 / ss),
            0.5 * (yc**2 / cc + ys**2 / ss),
            0.5 * (xc * yc / cc + xs * ys / ss),
        )
    return (f, *(norm * P))


def band_psd(t, e, cfrq, equi, ofac=1):
    """(Puu, Pvv, Puv) per band; t in days, NaN where the band has no value.
    Also returns whether the nearest-bin choice was ambiguous."""
    e = np.asarray(e, dtype=complex)
    if len(e) % 2:
        e, t = e[:-1], t[:-1]
    th = 24 * np.asarray(t, dtype=float)
    f, uu, vv, uv = _fft(e, 24 * (t[1] - t[0])) if equi else _lomb(e, th, ofac)
    keep = np.ones(len(f), bool)
    pos = np.interp(cfrq, f, np.arange(len(f)))
    ambiguous = bool((np.abs(np.abs(pos - np.floor(pos)) - 0.5) < 1e-6).any())
    keep[np.rint(pos).astype(int)] = False
    out = np.full((3, len(BANDS)), np.nan)
    for b, (lo, hi) in enumerate(BANDS):
        i0, i1 = int((f < lo).sum()), int((f < hi).sum())
        sel = np.zeros(len(f), bool)
        sel[i0 : min(len(f), i1 + 1)] = True  # up to the first bin at or past hi
        if (np.abs(f - lo) < 1e-9 * lo).any() or (np.abs(f - hi) < 1e-9 * hi).any():
            ambiguous = True
        sel &= keep
        if sel.any():
            out[:, b] = uu[sel].mean(), vv[sel].mean(), uv[sel].mean()
    return out, ambiguous


def at(frq, bands):
    """band value at each frequency: (n, 3), zero outside all bands"""
    out = np.zeros((len(frq), 3))
    for b, (lo, hi) in enumerate(BANDS):
        out[(frq >= lo) & (frq <= hi)] = bands[:, b]
    return out
