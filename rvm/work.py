"""Workload generation: records of observations that resolve their constituents.

All times here are days since 0000-12-31 (epoch='python')."""
import numpy as np

from rvm import ref

LATS = [0.0, 3.0, -3.0, 4.999, -4.999, 5.0, -5.0, 90.0, -90.0, 21.0, -33.5, 45, -60.25, 72.5, 1e-9]
MAIN = "M2 S2 N2 K2 K1 O1 P1 Q1 M4 MS4 MN4 M6 MF MM MSF SSA L2 NU2 2N2 MU2 T2 J1 OO1 M3 MK3 S4 2SM2".split()
PHASES = ["Greenwich", "linear_time", "raw"]
NODALS = [True, "linear_time", False]
USABLE = [n for n in ref.NAMES if np.isfinite(ref.FREQ[ref.INDEX[n]]) and ref.FREQ[ref.INDEX[n]] > 0]
SATNAMES = [n for n in USABLE if ref.INDEX[n] in ref.SATS]
SHALLOWN = [n for n in USABLE if ref.INDEX[n] in ref.SHALLOW]
LAT12 = [n for n in SATNAMES if any(s[3] for s in ref.SATS[ref.INDEX[n]])]  # latitude dependent


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def start_date(rng):
    k = rng.random()
    if k < 0.5:
        d = rng.uniform(711858, 741000)  # 1950..2029
    elif k < 0.65:
        d = 693595.5 + rng.uniform(-200, 50)  # around the astronomical epoch
    elif k < 0.75:
        d = 719163 + rng.uniform(-100, 50)  # around 1970
    elif k < 0.88:
        d = rng.uniform(584755, 693000)  # 1602..1898
    else:
        d = rng.uniform(741000, 875000)  # ..2396
    q = rng.random()
    if q < 0.4:
        d = np.floor(d)
    elif q < 0.6:
        d = np.floor(d * 24) / 24
    return float(d)


def times(rng, span=None, nmax=1500, kind=None, start=None, dt=None, nmin=60):
    """ascending sample times; returns (t, kind)"""
    if kind is None:
        kind = pick(rng, ["regular", "regular", "regular", "jitter", "random", "segments", "burst", "dropout"])
    t0 = start_date(rng) if start is None else start
    if span is None:
        span = float(np.exp(rng.uniform(np.log(3), np.log(400))))
    if dt is None:
        dt = pick(rng, [1 / 144, 1 / 96, 1 / 48, 1 / 24, 1 / 24, 1 / 24, 1 / 12, 37.3 / 1440, 0.5 / 24 + 1e-5])
    n = int(span / dt) + 1
    if n > nmax:
        if dt < 1 / 12 and rng.random() < 0.5 and span * 12 < nmax:
            dt = pick(rng, [d for d in (1 / 24, 1 / 12) if span / d < nmax])
            n = int(span / dt) + 1
        else:
            n = nmax
            if kind in ("regular", "jitter"):
                span = n * dt
    n = max(n, nmin)
    n += int(rng.integers(0, 2))
    if kind == "regular":
        t = t0 + np.arange(n) * dt
    elif kind == "jitter":
        # (of a large part of the interval down to fractions of a second)
        by = 0.35 if rng.random() < 0.6 else min(0.35, 10 ** rng.uniform(-5.5, -3.3) / dt)
        t = t0 + (np.arange(n) + rng.uniform(-by, by, n)) * dt
    elif kind == "random":
        t = np.sort(t0 + rng.random(n) * span)
    elif kind == "segments":  # regular pieces separated by long breaks
        k = int(rng.integers(2, 6))
        full = max(int(span / dt), n)
        starts = np.sort(rng.integers(0, full, k))
        starts[0] = 0
        m = n // k + 1
        i = np.unique(np.concatenate([s + np.arange(m) for s in starts]))
        t = t0 + i * dt
    elif kind == "burst":  # short bursts every few hours
        m = int(rng.integers(2, 6))
        nb = n // m + 1
        per = max(span / nb, 2 * m / 1440)
        t = t0 + (np.arange(nb)[:, None] * per + np.arange(m)[None] / 1440).ravel()
    else:  # dropout: regular grid, random samples absent
        full = int(n * 1.4)
        keep = np.sort(rng.choice(full, n, replace=False))
        t = t0 + keep * dt
    return np.asarray(t, dtype=float), kind


def round_size(rng, lo, hi):
    """a size between lo and hi, at or next to a round number, where blocks end"""
    c = [b * k for b in (512, 1000, 1024, 4096, 5000, 8192, 10000, 16384, 32768) for k in range(1, 8)]
    return int(pick(rng, [q for q in c if lo < q < hi]) + pick(rng, [-1, 0, 1, 1]))


def large(rng, hi=40000, kind="regular", ncon=None):
    """keywords of a Problem with a record far longer than any other"""
    n = int(np.exp(rng.uniform(np.log(10500), np.log(hi)))) if rng.random() < 0.5 else round_size(rng, 10100, hi)
    return dict(
        nmax=n, nmin=n, kind=kind, span=1.0, dt=pick(rng, [1 / 288, 1 / 144, 1 / 96, 1 / 48, 1 / 24]), ncon=ncon or int(rng.integers(1, 6)), scale=float(10 ** rng.uniform(-1, 1.5))
    )


def eff_dt(t):
    """typical sample spacing in hours, the base of the frequency limit"""
    return 24 * float(np.median(np.diff(t)))


def constituents(rng, t, n, pool=None, m7=False, sep=1.3, low=1.5, fmax=None):
    """greedy choice of at most n names separated by sep/LOR (at their tabulated
    frequencies) and away from zero frequency by low/LOR"""
    lor = 24 * float(np.ptp(t))
    if fmax is None:
        fmax = min(0.4 / eff_dt(t), 0.4 * len(t) / lor)
    if pool is None:
        q = rng.random()
        pool = MAIN if q < 0.45 else USABLE if q < 0.7 else LAT12 + MAIN if q < 0.85 else SHALLOWN + MAIN[:6]
    pool = [p for p in dict.fromkeys(pool) if p != "Z0" and (m7 or p not in ref.HALF_NAMES)]
    chosen, fr = [], []
    for i in rng.permutation(len(pool)):
        f = ref.FREQ[ref.INDEX[pool[i]]]
        if low / lor <= f <= fmax and all(abs(f - g) >= sep / lor for g in fr):
            chosen.append(pool[i])
            fr.append(f)
            if len(chosen) >= n:
                break
    return chosen


class Problem:
    """A record t, u(, v) with its model and (noise-free) truth."""

    def __init__(self, rng, **kw):
        self.rng = rng
        self.gen(**kw)

    def gen(
        self,
        dim=None,
        nmax=1200,
        ncon=None,
        kind=None,
        span=None,
        start=None,
        lat=None,
        phase=None,
        nodal=None,
        trend=None,
        pool=None,
        noise=None,
        scale=None,
        maxcond=200.0,
        dt=None,
        nmin=60,
        style=None,
        m7=False,
        few=False,
        sep=1.3,
        mincond=0.0,
    ):
        rng = self.rng
        self.dim = dim or int(rng.integers(1, 3))
        for attempt in range(60 if mincond else 40):
            self.phase = phase or pick(rng, PHASES)
            self.nodal = nodal if nodal is not None else pick(rng, NODALS)
            self.trend = bool(rng.random() < 0.6) if trend is None else trend
            self.lat = lat if lat is not None else (pick(rng, LATS) if rng.random() < 0.7 else round(rng.uniform(-90, 90), 3))
            sp, kd, st = span, kind, dt
            if mincond:
                sp = float(np.exp(rng.uniform(np.log(1.5), np.log(60))))
            q = rng.random()
            if span is None and dt is None and q < 0.08:
                if q < 0.04:  # hours
                    sp, st = float(rng.uniform(0.3, 2)), pick(rng, [1 / 144, 1 / 288, 1 / 720])
                elif kind is None:  # decades
                    sp, kd = float(rng.uniform(1500, 20000)), pick(rng, ["random", "segments", "burst"])
            few = few or (span is None and dt is None and ncon is None and nmin == 60 and 0.08 < q < 0.12)
            size = (12, int(rng.integers(16, 70))) if few else (nmin, nmax)  # few degrees of freedom
            self.t, self.kind = times(rng, span=sp, nmax=size[1], kind=kd, start=start, dt=st, nmin=size[0])
            self.lor = float(np.ptp(self.t))
            self.tref = 0.5 * (self.t[0] + self.t[-1])
            if mincond:  # barely resolved
                sep = float(np.exp(rng.uniform(np.log(0.03), np.log(0.6))))
                ncon = int(rng.integers(2, 12))
            n = 30 if few else ncon or int(pick(rng, [1, 2, 3, 5, 8, 8, 12, 20]))
            self.names = constituents(rng, self.t, n, pool=pool, m7=m7 and self.phase == "raw", sep=sep)
            if not self.names:
                continue
            # many fewer unknowns than samples
            self.names = self.names[: max(1, int(len(self.t) / (2.7 if few else 8)))]
            self.E = ref.basis(self.names, self.t, self.tref, self.lat, self.nodal, self.phase)
            self.D = ref.real_design(self.E, self.t, self.tref, self.trend, self.lor)
            self.cond = ref.cond(self.D)
            if self.cond <= maxcond and (self.cond >= mincond or attempt > 50):
                break
        else:
            raise RuntimeError("no resolvable problem generated")
        nc = len(self.names)
        self.nc = nc
        self.scale = scale if scale is not None else float(10 ** (rng.uniform(-1, 1.5) if rng.random() < 0.85 else rng.uniform(-9, 9)))
        dec = rng.uniform(-2.5, 0, nc)
        dec[int(rng.integers(nc))] = 0
        amp = 10**dec * self.scale
        ph = rng.uniform(0, 360, nc)
        q = rng.random(nc)
        ph = np.where(q < 0.06, 0.0, np.where(q < 0.1, 359.99999, np.where(q < 0.14, 180.0, ph)))
        if self.dim == 1:
            self.z = (amp * np.exp(-1j * np.radians(ph)))[:, None]
        else:
            self.style = style or pick(rng, ["any", "any", "rect", "circ+", "circ-", "retro", "xaxis"])
            ecc = rng.uniform(-1, 1, nc)
            th = rng.uniform(0, 180, nc)
            th = np.where(rng.random(nc) < 0.15, pick(rng, [0.0, 90.0, 179.9999]), th)
            if self.style == "rect":
                ecc = np.zeros(nc)
            elif self.style == "circ+":
                ecc = np.ones(nc) * 0.999
            elif self.style == "circ-":
                ecc = -np.ones(nc) * 0.999
            elif self.style == "retro":
                ecc = -np.abs(ecc)
            elif self.style == "xaxis":
                th = np.zeros(nc) + pick(rng, [0.0, 1e-7, 180 - 1e-7])
            self.z = ellipse_to_rotary(amp, amp * ecc, th, ph)
        nd = self.dim
        off = pick(rng, [0.0, 1.0, 1.0, 30.0])
        self.mean = rng.normal(size=nd) * self.scale * off
        self.slope = (
            rng.normal(size=nd) * self.scale / self.lor * pick(rng, [0.1, 1.0, 3.0]) if self.trend else np.zeros(nd)
        )
        self.sigma = 0.0
        self.clean = self.model(self.t)
        self.x = [c.copy() for c in self.clean]
        if noise is None:
            noise = pick(rng, [0.02, 0.1, 0.3])
        if noise:
            self.sigma = noise * self.scale
            red = rng.random() < 0.3
            for c in self.x:
                e = rng.normal(size=len(self.t))
                if red:
                    for k in range(1, len(e)):
                        e[k] = 0.9 * e[k - 1] + 0.44 * e[k]
                c += self.sigma * e

    def restrict(self, keep):
        """the same tide sampled at fewer times (before use of x)"""
        self.t = self.t[keep]
        self.lor = float(np.ptp(self.t))
        self.tref = 0.5 * (self.t[0] + self.t[-1])
        self.E = ref.basis(self.names, self.t, self.tref, self.lat, self.nodal, self.phase)
        self.D = ref.real_design(self.E, self.t, self.tref, self.trend, self.lor)
        self.cond = ref.cond(self.D)
        self.clean = self.model(self.t)
        self.x = [c.copy() for c in self.clean]
        return self

    def model(self, t):
        """noise-free series at t: list of 1 or 2 arrays"""
        E = ref.basis(self.names, t, self.tref, self.lat, self.nodal, self.phase)
        y = ref.signal(E, self.z)
        if self.dim == 1:
            return [y + self.mean[0] + self.slope[0] * (t - self.tref)]
        return [
            y.real + self.mean[0] + self.slope[0] * (t - self.tref),
            y.imag + self.mean[1] + self.slope[1] * (t - self.tref),
        ]

    @property
    def opts(self):
        return dict(constit=list(self.names), phase=self.phase, nodal=self.nodal, trend=self.trend, epoch="python")

    @property
    def args(self):
        return (self.t, self.x[0]) + ((self.x[1],) if self.dim == 2 else (None,)) + (self.lat,)

    def magnitude(self):
        return float(max(np.abs(self.z).max(), np.abs(self.mean).max(), np.abs(self.slope).max() * self.lor, self.sigma))

    def tell(self, ctx):
        ctx.describe(
            dim=self.dim,
            n=len(self.t),
            kind=self.kind,
            start=self.t[0],
            days=round(self.lor, 2),
            lat=self.lat,
            phase=self.phase,
            nodal=self.nodal,
            trend=self.trend,
            names=",".join(self.names),
            cond=round(self.cond, 1),
            scale=self.scale,
            sigma=self.sigma,
        )
        ctx.note(
            f"dim={self.dim}",
            f"times={self.kind}",
            f"phase={self.phase}",
            f"nodal={self.nodal}",
            f"trend={self.trend}",
            "lat=" + lat_class(self.lat),
            "date=" + date_class(self.t[0]),
            "n=" + size_class(len(self.t)),
            "days=" + size_class(self.lor),
            "constituents=" + size_class(self.nc),
        )
        if len(self.t) % 2:
            ctx.note("odd n")


def ellipse_to_rotary(maj, mnr, th, g):
    th, g = np.radians(th), np.radians(g)
    ap = 0.5 * (maj + mnr) * np.exp(1j * (th - g))
    am = 0.5 * (maj - mnr) * np.exp(1j * (th + g))
    return np.stack([ap, am], axis=1)


def lat_class(lat):
    a = abs(lat)
    return "equator" if a == 0 else "<5" if a < 5 else "pole" if a == 90 else ("N" if lat > 0 else "S")


def date_class(d):
    y = d / 365.2425
    return "<1899" if d < 693595 else "1899-1970" if d < 719163 else "1970-2030" if y < 2030 else ">2030"


def size_class(n):
    for k in (1, 3, 10, 30, 100, 300, 1000, 3000, 10000, 30000, 100000):
        if n <= k:
            return f"<={k}"
    return ">100000"


def by_name(coef):
    return {n: i for i, n in enumerate(coef["name"])}


def get(coef, key, names):
    """per-constituent field in the order of names"""
    ix = by_name(coef)
    a = coef["aux"][key] if key in ("frq", "lind") else coef[key]
    return np.asarray(a)[[ix[n] for n in names]]


def zz(coef, names):
    """complex amplitudes in the order of names"""
    ix = by_name(coef)
    return ref.amplitudes(coef)[[ix[n] for n in names]]


def means(coef):
    return np.array([coef["umean"], coef["vmean"]]) if "umean" in coef else np.array([coef["mean"]])


def slopes(coef):
    if "uslope" in coef:
        return np.array([coef["uslope"], coef["vslope"]])
    if "slope" in coef:
        return np.array([coef["slope"]])
    return np.zeros(2 if "umean" in coef else 1)


def series(out):
    """list of predicted components"""
    return [out["u"], out["v"]] if "u" in out else [out["h"]]


FIELDS = "A A_ci g g_ci Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci PE SNR".split()
CIS1 = ("A_ci", "g_ci")
CIS2 = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci")
VALS1 = ("A", "g")
VALS2 = ("Lsmaj", "Lsmin", "theta", "g")


def cis(coef):
    return CIS2 if "Lsmaj" in coef else CIS1


def vals(coef):
    return VALS2 if "Lsmaj" in coef else VALS1


def same_solution(ctx, c1, c2, what, scale, tol=1e-9, citol=1e-6, ci=True, order=False):
    """c2 equals c1, compared by name, to rounding error."""
    n1, n2 = list(c1["name"]), list(c2["name"])
    if not ctx.check(sorted(n1) == sorted(n2), what + ": same constituents", f"{n1} / {n2}"):
        return False
    if order:
        ctx.check(n1 == n2, what + ": same order", f"{n1} / {n2}")
    ok = ctx.close(zz(c2, n1), zz(c1, n1), tol * scale, what + ": amplitudes", n1)
    ok &= ctx.close(means(c2), means(c1), tol * scale, what + ": mean")
    lor = max(1.0, 1.0)
    ok &= ctx.close(slopes(c2) * lor, slopes(c1) * lor, tol * scale, what + ": slope")
    if ci:
        for k in cis(c1):
            if k in c1:
                if not ctx.check(k in c2, what + ": has " + k):
                    return False
                a, b = get(c1, k, n1), get(c2, k, n1)
                ok &= ctx.close(b, a, citol * np.abs(a) + 1e-300, what + ": " + k, n1)
            else:
                ctx.check(k not in c2, what + ": lacks " + k)
    return ok


# ------------------------------------------------------------- inference
class Infer:
    """An inference specification and its meaning."""

    def __init__(self, inferred, reference, ratios, offsets, dim, approximate=None):
        self.inferred, self.reference = list(inferred), list(reference)
        self.ratios, self.offsets = np.asarray(ratios, float), np.asarray(offsets, float)
        self.dim, self.approximate = dim, approximate
        n = len(self.inferred)
        R = self.ratios * np.exp(1j * np.radians(self.offsets))
        self.Rp = R[:n]
        self.Rm = np.conj(R[n:]) if dim == 2 else np.conj(self.Rp)

    def spec(self, container=dict, lists=list):
        d = dict(
            inferred_names=lists(self.inferred),
            reference_names=lists(self.reference),
            amp_ratios=lists(self.ratios.tolist()),
            phase_offsets=lists(self.offsets.tolist()),
        )
        if self.approximate is not None:
            d["approximate"] = self.approximate
        return container(d)

    def permuted(self, order):
        order = np.asarray(order)
        n = len(self.inferred)
        both = np.r_[order, order + n] if self.dim == 2 else order
        return Infer(
            [self.inferred[i] for i in order],
            [self.reference[i] for i in order],
            self.ratios[both],
            self.offsets[both],
            self.dim,
            self.approximate,
        )

    def apply(self, zref):
        """inferred complex amplitudes from those of the references (n, dim)"""
        if self.dim == 1:
            return zref * self.Rp[:, None]
        return np.stack([zref[:, 0] * self.Rp, zref[:, 1] * self.Rm], axis=1)


def add_inference(rng, p, nmax=3, close=None, zero=False, same_offsets=False):
    """Choose inferences for problem p: references among p.names, inferred names
    not in it.  None if there is no candidate."""
    lor = 24 * p.lor
    pool = [n for n in USABLE if n not in p.names and n not in ref.HALF_NAMES]
    inferred, reference = [], []
    for _ in range(int(rng.integers(1, nmax + 1))):
        r = pick(rng, p.names)
        fr = ref.FREQ[ref.INDEX[r]]
        w = close if close is not None else pick(rng, [0.5, 1.0, 2.0])
        cand = [n for n in pool if n not in inferred and abs(ref.FREQ[ref.INDEX[n]] - fr) < w / lor]
        if not cand:
            continue
        inferred.append(pick(rng, cand))
        reference.append(r)
    if not inferred:
        return None
    n = len(inferred)
    m = n * p.dim
    ratios = np.zeros(m) if zero else rng.uniform(0.05, 0.45, m)
    offsets = rng.uniform(-180, 360, m) if not same_offsets else np.tile(rng.uniform(-180, 360, n), p.dim)
    q = rng.random()  # coinciding values
    if q < 0.3:
        ratios = np.tile(ratios[:n], p.dim)
    if 0.15 < q < 0.45:
        offsets = np.tile(offsets[:n], p.dim)
    if q > 0.93:
        offsets = 0 * offsets
    elif q > 0.86:
        ratios = ratios * 0 + ratios[0]
    return Infer(inferred, reference, ratios, offsets, p.dim)


def infer_design(p, inf):
    """complex columns (plus side, minus side) of the constrained model, for the
    non-reference then the reference constituents; and these names"""
    nr = [n for n in p.names if n not in set(inf.reference) | set(inf.inferred)]
    refs = list(dict.fromkeys(inf.reference))
    names = nr + refs
    B = lambda ns: ref.basis(ns, p.t, p.tref, p.lat, p.nodal, p.phase)  # noqa: E731
    Ep = B(names)
    Em = Ep.conj().copy()
    EI = B(inf.inferred)
    for k, (i, r) in enumerate(zip(inf.inferred, inf.reference)):
        j = names.index(r)
        Ep[:, j] += inf.Rp[k] * EI[:, k]
        Em[:, j] += inf.Rm[k] * EI[:, k].conj()
    return Ep, Em, names


def design_cond(Ep, Em, t, tref, trend, lor):
    cols = [Ep, Em, np.ones((len(t), 1))]
    if trend:
        cols.append(((t - tref) / lor)[:, None])
    return ref.cond(np.hstack(cols))


def solution(ctx, infer=None, mc=True, robust=True, ci=None, order=None, **kw):
    """A random analysis of noisy data with random options: (p, coef, extra)."""
    rng = ctx.rng
    p = Problem(rng, **kw)
    extra = {}
    q = rng.random()
    extra["conf_int"] = ci or ("linear" if q < 0.6 else "none" if q < 0.85 or not mc else "MC")
    if rng.random() < 0.4:
        extra["white"] = True
    if robust and rng.random() < 0.2 and len(p.t) < 3000:
        extra["method"] = "robust"
    orders = ["PE", "frequency", None, "names"] + (["SNR"] if extra["conf_int"] != "none" else [])
    o = order if order is not None else pick(rng, orders)
    p.inf = None
    if infer is None:
        infer = rng.random() < 0.2
    if infer and extra["conf_int"] != "MC":
        p.inf = add_inference(rng, p)
        if p.inf is not None:
            Ep, Em, _ = infer_design(p, p.inf)
            if design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) > 300:
                p.inf = None
        if p.inf is not None:
            p.inf.approximate = bool(rng.random() < 0.3) if rng.random() < 0.5 else None
            extra["infer"] = p.inf.spec()
    p.all = list(p.names) + (p.inf.inferred if p.inf else [])
    if o == "names":
        o = [str(n) for n in rng.permutation(p.all)]
    if o is not None:
        extra["order_constit"] = o
    p.tell(ctx)
    ctx.note(
        f"method={extra.get('method', 'ols')}",
        f"conf_int={extra['conf_int']}",
        f"order={o if o is None or isinstance(o, str) else 'sequence'}",
        f"white={extra.get('white', False)}",
        "infer=%s" % ("none" if p.inf is None else "approx" if p.inf.approximate else "exact"),
    )
    if extra["conf_int"] == "MC":
        np.random.seed(int(rng.integers(2**31)))
    coef = ctx.solve(*p.args, **{**p.opts, **extra})
    return p, coef, extra


def predict_ref(p, coef, t, names=None):
    """the prediction of the independent model from the reported values"""
    names = list(coef["name"]) if names is None else list(names)
    tr = float(coef["aux"]["reftime"])
    m, s = means(coef), slopes(coef)
    if names:
        y = ref.signal(ref.basis(names, t, tr, p.lat, p.nodal, p.phase), zz(coef, names))
    else:
        y = np.zeros(len(t), dtype=complex)
    if p.dim == 1:
        return [np.real(y) + m[0] + s[0] * (t - tr)]
    return [np.real(y) + m[0] + s[0] * (t - tr), np.imag(y) + m[1] + s[1] * (t - tr)]


def pred_tol(coef, t, rel=3e-9):
    """tolerance for predictions: relative to the sum of all terms"""
    tr = float(coef["aux"]["reftime"])
    far = np.abs(t - tr) if len(t) else np.zeros(0)
    s = np.abs(zz(coef, list(coef["name"]))).sum() + np.abs(means(coef)).sum()
    return rel * s * (1 + far / 3e4) + 1e-11 * np.abs(slopes(coef)).sum() * far
