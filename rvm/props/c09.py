"""C09 ordering permutes, every field stays aligned."""
import numpy as np

from rvm import guest, ref, work

CASES = {"quick": 960, "thorough": 10000}
TECHNIQUE = "metamorphic monitor over paired executions (every ordering of the same analysis) and an online alignment invariant"
RULE = "The same noisy record is analysed with every order_constit and with permuted constituent lists; all fields are compared by name, and the requested order is verified."
REQUIRED = ("PE order", "SNR order", "frequency order", "sequence order", "by name A", "by name Lsmaj_ci", "by name PE", "table index", "permuted request: by name A")


def guests(ctx, what, fn, a, kw):
    """every solution of any other workload is aligned"""
    c = fn(*a, **kw)
    if what == "solve":
        nm = list(c["name"])
        ctx.check(len(set(nm)) == len(nm), "names are distinct", nm)
        for k in work.FIELDS:
            if k in c:
                ctx.check(np.shape(c[k]) == (len(nm),), "one value per name", k)
        ctx.check([int(i) for i in c["aux"]["lind"]] == [ref.INDEX[n] for n in nm], "table index", f"{nm} {c['aux']['lind']}")
        f = np.array([ref.freq(n, float(c["aux"]["reftime"])) for n in nm])
        ctx.close(c["aux"]["frq"], f, 1e-11, "frequency", nm)
        ask = kw.get("order_constit")
        E = (np.abs(work.ref.amplitudes(c)) ** 2).sum(axis=1)
        if ask in (None, "PE") if not hasattr(ask, "__len__") or isinstance(ask, str) else False:
            ctx.check((np.diff(E) <= 1e-9 * E[:-1]).all() or not np.isfinite(100 * E / E.sum()).all() or E[0] < 1e-280, "PE order", E)
    return c


def run_case(ctx):
    rng = ctx.rng
    if ctx.idx % 8 == 7:
        return guest.run(ctx, lambda *a: guests(ctx, *a))
    kw = dict(nmax=600)
    if ctx.idx % 24 == 3:
        kw = dict(nmax=4000, nmin=3000, kind="regular", span=150.0, dt=1 / 24, ncon=40, mc=False)
    elif ctx.idx % 24 == 11:
        # nothing but noise: many small and close ratios
        kw = dict(nmax=1600, nmin=1200, span=60.0, dt=1 / 24, ncon=40, noise=float(work.pick(rng, [30, 1e3, 1e6])), ci="linear", mc=False)
        ctx.note("noise only")
    p, base, extra = work.solution(ctx, **{**dict(mc=True, order="frequency", ci=work.pick(rng, ["linear", "linear", "none", "MC" if "mc" not in kw else "none"]), maxcond=60), **kw})
    names = p.all
    opts = {**p.opts, **extra}
    mcseed = int(rng.integers(2**31))
    mc = extra["conf_int"] == "MC"
    S = p.magnitude()

    def run(**kw):
        if mc:
            np.random.seed(mcseed)
        return ctx.solve(*p.args, **{**opts, **kw})

    base = run()
    fields = [k for k in work.FIELDS if k in base]
    must = list(work.vals(base)) + ([] if extra["conf_int"] == "none" else list(work.cis(base)) + ["PE", "SNR"])
    for k in must:
        ctx.check(k in base, "field present", k)

    def aligned(c):
        ctx.check(sorted(c["name"]) == sorted(names), "names are those requested and inferred", f"{list(c['name'])} / {names}")
        for k in fields:
            ctx.check(len(c[k]) == len(names), "one value per name", k)
        nm = list(c["name"])
        ctx.check([int(i) for i in c["aux"]["lind"]] == [ref.INDEX[n] for n in nm], "table index", f"{nm} {c['aux']['lind']}")
        f = np.array([ref.freq(n, float(c["aux"]["reftime"])) for n in nm])
        ctx.close(c["aux"]["frq"], f, 1e-11, "frequency", nm)

    def compare(c, what, tol=0.0, citol=0.0):
        if not ctx.check(sorted(c["name"]) == sorted(names), what + ": names"):
            return
        for k in fields:
            a, b = work.get(base, k, names), work.get(c, k, names)
            if k in ("g", "theta"):
                continue
            t = tol * S if k in ("A", "Lsmaj", "Lsmin") else citol * np.abs(a) + tol
            ctx.close(b, a, t, f"{what} {k}", names)
        ctx.close(work.zz(c, names), work.zz(base, names), tol * S + 1e-12 * S, what + " amplitudes", names)
        ctx.close(work.means(c), work.means(base), tol * S, what + " mean")
        ctx.close(work.slopes(c), work.slopes(base), tol * S, what + " slope")

    aligned(base)
    for order in ["PE", None, "frequency", "SNR", "seq", "seq"]:
        kw = dict(order_constit=order)
        if order == "SNR" and extra["conf_int"] == "none":
            continue
        if order == "seq":
            seq = [str(n) for n in rng.permutation(names)]
            kw["order_constit"] = work.pick(rng, [list, tuple, np.array])(seq)
        elif order is None and rng.random() < 0.5:
            kw = {}
            opts.pop("order_constit", None)
        c = run(**kw)
        opts["order_constit"] = "frequency"
        aligned(c)
        compare(c, "by name")
        if order in ("PE", None):
            E = c["Lsmaj"] ** 2 + c["Lsmin"] ** 2 if p.dim == 2 else c["A"] ** 2
            d = np.diff(100 * E / E.sum())
            ctx.check((d <= 1e-9 * 100).all(), "PE order", E)
        elif order == "SNR":
            q = c["SNR"][np.isfinite(c["SNR"])]
            ctx.check((np.diff(q) <= 1e-9 * np.abs(q[:-1])).all(), "SNR order", q)
        elif order == "frequency":
            ctx.check((np.diff(c["aux"]["frq"]) >= 0).all(), "frequency order", c["aux"]["frq"])
        else:
            ctx.check(list(c["name"]) == seq, "sequence order", f"{list(c['name'])} / {seq}")
    # the order of the request, reported in the same final order
    for _ in range(2):
        req = [str(n) for n in rng.permutation(p.names)]
        if rng.random() < 0.25:  # a name listed twice is still one constituent
            req.insert(int(rng.integers(len(req) + 1)), work.pick(rng, req))
            ctx.note("repeated names")
        c = run(constit=req)
        aligned(c)
        ctx.check(list(c["name"]) == list(base["name"]), "permuted request: same reported order")
        if not mc:  # the draws are assigned in the order of the request
            tight = extra.get("method", "ols") == "ols"
            compare(c, "permuted request: by name", tol=1e-10 * p.cond if tight else 1e-6, citol=1e-5 if tight else 1e-3)
