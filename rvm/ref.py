"""Independent executable model of the harmonic tide (the oracle of the
prediction and recovery monitors).

Written from the published formulas (Foreman 1977, Codiga 2011, Explanatory
Supplement 1961) and the pinned tables; shares no code with the repository.
"""
import json
import math
import os

import numpy as np

_T = json.load(open(os.path.join(os.path.dirname(__file__), "data", "tables.json")))
NAMES = _T["name"]
INDEX = {n: i for i, n in enumerate(NAMES)}
FREQ = np.array(_T["freq"], dtype=float)
DF = np.array(_T["df"], dtype=float)
_SAT = _T["sat"]
_SH = _T["shallow"]

# satellites of each main constituent
SATS = {}
for _k, _ic in enumerate(_SAT["iconst"]):
    SATS.setdefault(int(_ic) - 1, []).append(
        (_SAT["deldood"][_k], _SAT["phcorr"][_k], _SAT["amprat"][_k], int(_SAT["ilatfac"][_k]))
    )
# shallow-water combinations
SHALLOW = {}
for _k in range(len(NAMES)):
    if _T["ishallow"][_k] is not None:
        i0 = int(_T["ishallow"][_k]) - 1
        n = int(_T["nshallow"][_k])
        SHALLOW[_k] = [(int(_SH["iname"][i]) - 1, float(_SH["coef"][i])) for i in range(i0, i0 + n)]

# The only combination with a non-integer multiplier (3.5 M2): its argument is
# defined only up to half a cycle.  See DESIGN.md, finding K1.
HALF = {k for k, v in SHALLOW.items() if any(c != round(c) for _, c in v)}
HALF_NAMES = {NAMES[k] for k in HALF}

# mean longitudes, degrees: polynomial in d (days) and D = d/10000,
# d counted from 1899-12-31 12:00.
_POLY = {
    "s": (270.434164, 13.1763965268, -0.0000850, 0.000000039),
    "h": (279.696678, 0.9856473354, 0.00002267, 0.0),
    "p": (334.329556, 0.1114040803, -0.0007739, -0.00000026),
    "n": (-259.183275, 0.0529539222, -0.0001557, -0.000000050),
    "pp": (281.220844, 0.0000470684, 0.0000339, 0.000000070),
}
_EPOCH = 693595.5


def longitudes(t):
    """dict of tau, s, h, p, n, pp in cycles, not wrapped except tau's day."""
    d = np.asarray(t, dtype=float) - _EPOCH
    D = d / 1e4
    out = {}
    for k, (a, b, c, e) in _POLY.items():
        out[k] = (a + b * d + c * D**2 + e * D**3) / 360.0
    day = np.asarray(t, dtype=float) - np.floor(t)
    out["tau"] = day + out["h"] - out["s"]
    return out


def rates(t):
    """time derivatives of the above, cycles per day"""
    d = np.asarray(t, dtype=float) - _EPOCH
    D = d / 1e4
    out = {}
    for k, (a, b, c, e) in _POLY.items():
        out[k] = (b + 2e-4 * c * D + 3e-4 * e * D**2) / 360.0
    out["tau"] = 1.0 + out["h"] - out["s"]
    return out


_ORDER = ("tau", "s", "h", "p", "n", "pp")


def freq(name, tref):
    """cycles per hour at the reference time"""
    return _freq(INDEX[name], rates(tref))


def _freq(k, r):
    if k in SHALLOW:
        return sum(c * _freq(j, r) for j, c in SHALLOW[k])
    return sum(m * r[q] for m, q in zip(_T["doodson"][k], _ORDER) if m) / 24.0


def _arg(k, L):
    """astronomical argument, cycles; main constituents wrapped"""
    if k in SHALLOW:
        return sum(c * _arg(j, L) for j, c in SHALLOW[k])
    v = 0.0
    for m, q in zip(_T["doodson"][k], _ORDER):
        if m:
            v = v + m * L[q]
    v = v + _T["semi"][k]
    return v - np.floor(v)


def _nodal(k, L, lat, cache):
    """complex nodal factor f*exp(2 pi i u), as (f, u) with u in cycles"""
    if k in cache:
        return cache[k]
    if k in SHALLOW:
        f, u = 1.0, 0.0
        for j, c in SHALLOW[k]:
            fj, uj = _nodal(j, L, lat, cache)
            f = f * fj ** abs(c)
            u = u + c * uj
    elif k in SATS:
        if abs(lat) < 5:
            lat = -5.0 if lat < 0 else 5.0
        sl = math.sin(math.radians(lat))
        z = 1.0 + 0j
        for dd, ph, r, il in SATS[k]:
            if il == 1:
                r = r * 0.36309 * (1 - 5 * sl * sl) / sl
            elif il == 2:
                r = r * 2.59808 * sl
            a = dd[0] * L["p"] + dd[1] * L["n"] + dd[2] * L["pp"] + ph
            z = z + r * np.exp(2j * np.pi * (a - np.floor(a)))
        f, u = np.abs(z), np.angle(z) / (2 * np.pi)
    else:
        f, u = 1.0, 0.0
    cache[k] = (f, u)
    return f, u


def basis(names, t, tref, lat, nodal=True, phase="Greenwich"):
    """complex basis E (nt, nc): signal = Re(sum A exp(-i g) E)"""
    t = np.atleast_1d(np.asarray(t, dtype=float))
    tr = np.array([float(tref)])
    E = np.empty((len(t), len(names)), dtype=complex)
    Lt = longitudes(t)
    Lr = longitudes(tr)
    rr = rates(float(tref))
    ct, cr = {}, {}
    for i, n in enumerate(names):
        k = INDEX[n]
        if nodal == "linear_time":
            f, u = _nodal(k, Lr, lat, cr)
        elif nodal:
            f, u = _nodal(k, Lt, lat, ct)
        else:
            f, u = 1.0, 0.0
        if phase == "raw":
            v = 24.0 * (t - tref) * _freq(k, rr)
        elif phase == "linear_time":
            v = _arg(k, Lr) + 24.0 * (t - tref) * _freq(k, rr)
        else:
            v = _arg(k, Lt)
        w = u + v
        E[:, i] = f * np.exp(2j * np.pi * (w - np.round(w)))
    return E


def amplitudes(coef):
    """complex amplitudes of a reported solution, in its own order:
    scalar (nc, 1): A exp(-ig); vector (nc, 2): ap, am with
    u+iv = sum ap E + am conj(E)."""
    rpd = np.pi / 180
    if "Lsmaj" in coef:
        ap = 0.5 * (coef["Lsmaj"] + coef["Lsmin"]) * np.exp(1j * rpd * (coef["theta"] - coef["g"]))
        am = 0.5 * (coef["Lsmaj"] - coef["Lsmin"]) * np.exp(1j * rpd * (coef["theta"] + coef["g"]))
        return np.stack([ap, am], axis=1)
    return (coef["A"] * np.exp(-1j * rpd * coef["g"]))[:, None]


def signal(E, z):
    """series of complex amplitudes z as returned by amplitudes()"""
    if z.shape[1] == 1:
        return (E @ z[:, 0]).real
    return E @ z[:, 0] + E.conj() @ z[:, 1]


def real_design(E, t, tref, trend, lor):
    cols = [E.real, E.imag, np.ones((len(t), 1))]
    if trend:
        cols.append(((t - tref) / lor)[:, None])
    return np.hstack(cols)


def cond(D):
    n = np.linalg.norm(D, axis=0)
    if not np.all(n > 0):
        return np.inf
    s = np.linalg.svd(D / n, compute_uv=False)
    return s[0] / s[-1] if s[-1] > 0 else np.inf
