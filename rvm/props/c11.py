"""C11 reconstruct uses exactly the constituents selected."""
from copy import deepcopy

import numpy as np

from rvm import work

CASES = {"quick": 840, "thorough": 10000}
RULE = "Solutions with amplitudes over several decades; random thresholds straddling the SNR and PE values (and, on solutions with exactly representable values, equal to them), random constituent lists; the prediction is compared with the independent model's sum over the constituents that satisfy the definition."
REQUIRED = ("selected by SNR", "selected by PE", "selected by both", "selected by name", "default selection", "additive", "threshold reached exactly", "min_PE without intervals", "everything", "any numbers")


def run_case(ctx):
    rng = ctx.rng
    ci = work.pick(rng, ["linear", "linear", "linear", "MC", "none"])
    p, coef, extra = work.solution(ctx, ci=ci, nmax=500, noise=work.pick(rng, [0.1, 0.5, 1.5]), ncon=int(work.pick(rng, [1, 3, 6, 12])), infer=rng.random() < 0.15)
    names = list(coef["name"])
    t = p.tref + rng.uniform(-1, 1, 25) * p.lor
    tol = work.pred_tol(coef, t, 2e-8)
    seen = set()

    def expect(sel, what, c=coef, **kw):
        out = ctx.reconstruct(t, c, epoch="python", **kw)
        want = work.predict_ref(p, c, t, [n for n in list(c["name"]) if n in sel])
        for g, w in zip(work.series(out), want):
            ctx.close(g, w, work.pred_tol(c, t, 2e-8), what)
        seen.add(len(sel))
        return work.series(out)

    full = expect(set(names), "everything", min_SNR=0)
    E = coef["Lsmaj"] ** 2 + coef["Lsmin"] ** 2 if p.dim == 2 else coef["A"] ** 2
    PE = dict(zip(names, 100 * E / E.sum()))

    def between(vals):
        v = np.sort(np.asarray([x for x in vals if np.isfinite(x)]))
        if not len(v):
            return 1.0
        k = int(rng.integers(len(v)))
        return float(v[k] * work.pick(rng, [1 - 1e-6, 1 + 1e-6, 0.5, 2.0]))

    if ci != "none":
        SNR = dict(zip(names, coef["SNR"]))
        if not np.isfinite(list(SNR.values())).all():
            # above the last band of the residual spectrum there is no interval,
            # and whether such a constituent "reaches" 0 is not defined
            ctx.skip("constituent without an interval")
        if all(abs(s - 2) > 1e-6 for s in SNR.values()):
            expect({n for n in names if SNR[n] >= 2}, "default selection")
        for _ in range(2):
            ms = between(SNR.values())
            expect({n for n in names if SNR[n] >= ms}, "selected by SNR", min_SNR=ms)
            mp = between(PE.values())
            expect({n for n in names if PE[n] >= mp}, "selected by PE", min_SNR=0, min_PE=mp)
            expect({n for n in names if SNR[n] >= ms and PE[n] >= mp}, "selected by both", min_SNR=ms, min_PE=mp)
    else:
        mp = between(PE.values())
        expect({n for n in names if PE[n] >= mp}, "min_PE without intervals", min_SNR=0, min_PE=mp)
        expect(set(names), "everything", min_SNR=0, min_PE=0)
    # by name; other criteria are ignored, absent names too
    for _ in range(2):
        k = int(rng.integers(0, len(names) + 1))
        sel = [str(n) for n in rng.permutation(names)[:k]]
        arg = list(sel)
        if rng.random() < 0.4:
            extra_n = [n for n in ("M2", "S2", "MKS2", "SSA", "XYZ", "S", "M") if n not in names]
            arg += extra_n[:2]
        if arg and rng.random() < 0.3:  # a name listed twice is still one constituent
            arg += [work.pick(rng, arg) for _ in range(int(rng.integers(1, 4)))]
            ctx.note("repeated names")
        arg = [str(n) for n in rng.permutation(arg)] if arg else []
        arg = work.pick(rng, [list, tuple, np.array])(arg)
        if len(arg) == 0:
            arg = []
        expect(set(sel), "selected by name", constit=arg, **work.pick(rng, [{}, dict(min_SNR=1e30), dict(min_PE=99.9), dict(min_SNR=0)]))
    # additivity of disjoint selections
    perm = [str(n) for n in rng.permutation(names)]
    k1, k2 = np.sort(rng.integers(0, len(perm) + 1, 2))
    parts = [perm[:k1], perm[k1:k2], perm[k2:]]
    R = lambda s: work.series(ctx.reconstruct(t, coef, epoch="python", constit=s))  # noqa: E731
    zero = R([])
    acc = [z.copy() for z in zero]
    for s in parts:
        for a, y, z in zip(acc, R(s), zero):
            a += y - z
    for a, f in zip(acc, full):
        ctx.close(a, f, 4 * tol, "additive")
    m, s = work.means(coef), work.slopes(coef)
    for j, z in enumerate(zero):
        ctx.close(z, m[j] + s[j] * (t - float(coef["aux"]["reftime"])), tol, "mean and trend remain")

    # any positive numbers can be amplitudes and intervals
    if ci != "none":
        c = deepcopy(coef)
        n = len(names)
        amp, wid = 10 ** rng.uniform(-5, 1, n) * E.max() ** 0.5, 10 ** rng.uniform(-5, 3, n) * E.max() ** 0.5
        if p.dim == 1:
            c["A"], c["A_ci"] = amp, wid
            e, nn = amp**2, (wid / 1.96) ** 2
        else:
            mnr, wd2 = amp * rng.uniform(-1, 1, n), wid * rng.uniform(0.1, 10, n)
            c["Lsmaj"], c["Lsmin"], c["Lsmaj_ci"], c["Lsmin_ci"] = amp, mnr, wid, wd2
            e, nn = amp**2 + mnr**2, (wid / 1.96) ** 2 + (wd2 / 1.96) ** 2
        pe, snr = 100 * e / e.sum(), e / nn
        c["PE"], c["SNR"] = pe.copy(), snr.copy()
        order = rng.permutation(n)[:4]
        for j in order:
            f, g = work.pick(rng, [1 - 1e-6, 1 + 1e-6, 0.7, 1.4]), work.pick(rng, [1 - 1e-6, 1 + 1e-6, 0.7, 1.4])
            ms, mp = work.pick(rng, [(snr[j] * f, 0), (0, pe[j] * g), (snr[j] * f, pe[j] * g)])
            sel = {nm for nm, a, b in zip(names, snr, pe) if a >= ms and b >= mp}
            expect(sel, "any numbers", c=c, min_SNR=float(ms), min_PE=float(mp))

    # thresholds met exactly: values for which every formula is exact
    if len(names) >= 5 and ci == "linear":
        c = deepcopy(coef)
        n = len(names)
        A = np.zeros(n)
        A[:5] = [2, 1, 1, 1, 1]  # PE 50 12.5 12.5 12.5 12.5
        ciw = np.full(n, 1.96)
        ciw[:5] = 1.96 * np.array([1, 1, 0.5, 2, 4])  # SNR 4 1 4 .25 .0625
        if p.dim == 1:
            c["A"], c["A_ci"] = A, ciw
            snr = np.array([4, 1, 4, 0.25, 0.0625] + [0] * (n - 5))
        else:
            c["Lsmaj"], c["Lsmin"] = A, 0 * A
            c["Lsmaj_ci"], c["Lsmin_ci"] = ciw, ciw.copy()
            snr = np.array([2, 0.5, 2, 0.125, 0.03125] + [0] * (n - 5))
        pe = np.array([50.0, 12.5, 12.5, 12.5, 12.5] + [0] * (n - 5))
        c["PE"], c["SNR"] = pe.copy(), snr.copy()
        for ms, mp in ((snr[0], 0), (snr[1], 0), (0, 50.0), (0, 12.5), (snr[3], 12.5), (snr[0] * 1.001, 0), (0, 50.001)):
            sel = {nm for nm, a, b in zip(names, snr, pe) if a >= ms and b >= mp}
            expect(sel, "threshold reached exactly", c=c, min_SNR=float(ms), min_PE=float(mp))
    if len(names) >= 5 and ci == "none":
        c = deepcopy(coef)
        c["Lsmaj" if p.dim == 2 else "A"] = np.array([2.0, 1, 1, 1, 1] + [0] * (len(names) - 5))
        if p.dim == 2:
            c["Lsmin"] = np.zeros(len(names))
        pe = np.array([50.0, 12.5, 12.5, 12.5, 12.5] + [0] * (len(names) - 5))
        c["PE"] = pe.copy()
        for mp in (50.0, 12.5, 50.001, 12.501):
            expect({nm for nm, b in zip(names, pe) if b >= mp}, "threshold reached exactly", c=c, min_SNR=work.pick(rng, [0, 2]), min_PE=mp)
    ctx.note(*[f"selected {len(names) and ('none' if k == 0 else 'all' if k == len(names) else 'some')}" for k in seen])
