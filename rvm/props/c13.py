"""C13 inference."""
import numpy as np

from rvm import ref, work

CASES = {"quick": 840, "thorough": 10000}
TECHNIQUE = "metamorphic and model-based monitors on paired executions with inference (noise-free recovery, relation, zero ratio, permutation, container, approximate against exact)"
RULE = "Random problems with one to four inferred constituents of one or several references (equal, unresolved or resolved frequencies; scalar and vector; exact and approximate; every nodal and phase option), noise-free and noisy."
REQUIRED = ("relation", "recovery: amplitudes", "recovery: slope", "zero ratio: amplitudes", "zero ratio: ci A_ci", "zero ratio: ci Lsmaj_ci", "listing order: amplitudes", "container: A_ci", "approximate: relation", "approximate near exact", "names", "unlisted reference: amplitudes", "listed inferred: amplitudes", "inferred ci")


def make(ctx, close=None, **kw):
    rng = ctx.rng
    for _ in range(20):
        p = work.Problem(rng, **{**dict(nmax=600, maxcond=60), **kw})
        inf = work.add_inference(rng, p, nmax=4, close=close)
        if inf is None or (close and apart(p, inf) < 2.5):
            continue
        Ep, Em, names = work.infer_design(p, inf)
        if work.design_cond(Ep, Em, p.t, p.tref, p.trend, p.lor) <= 100:
            return p, inf
    ctx.skip("no inference generated")


def apart(p, inf):
    """least distance of an inferred constituent from the others (not its
    reference), in 1/LOR"""
    fr = lambda n: ref.FREQ[ref.INDEX[n]] * 24 * p.lor  # noqa: E731
    return min([abs(fr(i) - fr(n)) for i, r in zip(inf.inferred, inf.reference) for n in p.names if n != r] or [99.0])


def relation(ctx, inf, c, what, S):
    zr = work.zz(c, inf.reference)
    zi = work.zz(c, inf.inferred)
    ctx.close(zi, inf.apply(zr), 1e-10 * S, what, inf.inferred)


def run_case(ctx):
    rng = ctx.rng
    mode = ctx.idx % 4
    kw = {}
    if mode == 0:
        kw["noise"] = 0
    elif mode == 3:  # regular, well-resolved: approximate inference
        kw = dict(close=0.7, kind="regular", span=float(rng.uniform(12, 40)), noise=0, maxcond=4, dt=1 / 24, nmax=1000, ncon=int(rng.integers(1, 7)), pool=["M2", "K1", "M4", "M6", "S2", "O1", "N2", "MS4"], phase="raw" if rng.random() < 0.3 else None)
    if mode < 3 and ctx.idx % 59 == 5:
        kw.update(work.large(rng, 20000))
    p, inf = make(ctx, **kw)
    p.tell(ctx)
    lor = 24 * p.lor
    for i, r in zip(inf.inferred, inf.reference):
        d = abs(ref.FREQ[ref.INDEX[i]] - ref.FREQ[ref.INDEX[r]]) * lor
        ctx.note("separation x length " + ("<0.1" if d < 0.1 else "<0.5" if d < 0.5 else "<1" if d < 1 else ">=1"))
    ctx.describe(infer=",".join(f"{i}<-{r}" for i, r in zip(inf.inferred, inf.reference)), mode=mode)
    ctx.note(f"inferred={len(inf.inferred)}", f"references={len(set(inf.reference))}")
    opts = p.opts
    S = p.magnitude()
    ti = np.array([p.names.index(r) for r in inf.reference])

    def run(x=None, **over):
        x = p.x if x is None else x
        return ctx.solve(p.t, x[0], x[1] if p.dim == 2 else None, p.lat, **{**opts, **over})

    allnames = p.names + inf.inferred
    if mode in (0, 3):
        # data that satisfy the relation
        zi = inf.apply(p.z[ti])
        y = ref.signal(ref.basis(inf.inferred, p.t, p.tref, p.lat, p.nodal, p.phase), zi)
        x = [p.x[0] + y.real] + ([p.x[1] + y.imag] if p.dim == 2 else [])
        truth = np.concatenate([p.z, zi])
        S = max(S, np.abs(truth).max())
        c = run(x, infer=inf.spec(), conf_int=work.pick(rng, ["linear", "none"]))
        ctx.check(sorted(c["name"]) == sorted(allnames), "names", f"{list(c['name'])} / {allnames}")
        ctx.close(work.zz(c, allnames), truth, 1e-8 * S, "recovery: amplitudes", allnames)
        ctx.close(work.means(c), p.mean, 1e-8 * S, "recovery: mean")
        ctx.close(work.slopes(c) * p.lor, p.slope * p.lor, 1e-7 * S, "recovery: slope")
        relation(ctx, inf, c, "relation", S)
        if mode == 3:
            approximate(ctx, p, inf, run, x, truth, allnames, S)
        return

    # noisy data
    opts["conf_int"] = "linear"
    opts["white"] = white = bool(rng.random() < 0.6)
    if rng.random() < 0.2:
        opts["method"] = "robust"
    approx = bool(rng.random() < 0.3)
    inf.approximate = approx if approx or rng.random() < 0.5 else None
    ctx.note("approximate=%s" % inf.approximate, "white=%s" % white)
    c = run(infer=inf.spec())
    ctx.check(sorted(c["name"]) == sorted(allnames), "names", f"{list(c['name'])} / {allnames}")
    relation(ctx, inf, c, "approximate: relation" if approx else "relation", S)
    ctx.check(np.isfinite(work.zz(c, allnames)).all(), "finite")
    # intervals of inferred constituents: those of the reference, carried over
    for k, (i, r) in enumerate(zip(inf.inferred, inf.reference)):
        a = {q: work.get(c, q, [i, r]) for q in work.cis(c)}
        if not all(np.isfinite(v[1]) for v in a.values()):
            continue
        for q in ("g_ci", "theta_ci"):
            if q in a:
                ctx.close(a[q][0], a[q][1], 1e-9 * a[q][1], "inferred ci", [i])
        if p.dim == 1:
            w = abs(inf.Rp[k]) * a["A_ci"][1]
            ctx.close(a["A_ci"][0], w, 1e-9 * w, "inferred ci", [i])
        else:
            s, d = 0.5 * (abs(inf.Rp[k]) + abs(inf.Rm[k])), 0.5 * (abs(inf.Rp[k]) - abs(inf.Rm[k]))
            mj, mn = a["Lsmaj_ci"][1], a["Lsmin_ci"][1]
            ctx.close(a["Lsmaj_ci"][0], np.hypot(s * mj, d * mn), 1e-9 * mj, "inferred ci", [i])
            ctx.close(a["Lsmin_ci"][0], np.hypot(d * mj, s * mn), 1e-9 * mj, "inferred ci", [i])

    def same(c2, what):
        work.same_solution(ctx, c, c2, what, S, tol=1e-9, citol=1e-6)

    # listing order and containers
    q = inf.permuted(rng.permutation(len(inf.inferred)))
    q.approximate = inf.approximate
    same(run(infer=q.spec()), "listing order")
    Bunch = ctx.utide.utilities.Bunch
    cont = work.pick(rng, [dict, Bunch])
    lists = work.pick(rng, [list, tuple, np.array])
    c2 = run(infer=inf.spec(cont, lists))
    work.same_solution(ctx, c, c2, "container", S, tol=1e-13, citol=1e-13)
    for k in work.cis(c):
        ctx.close(work.get(c2, k, allnames), work.get(c, k, allnames), 1e-12 * np.abs(work.get(c, k, allnames)) + 1e-300, "container: " + k, allnames)
    # inferred names also listed as constituents, references not listed
    same(run(constit=[str(n) for n in rng.permutation(allnames)], infer=inf.spec()), "listed inferred")
    rest = [n for n in p.names if n not in inf.reference]
    if rest:
        same(run(constit=rest, infer=inf.spec()), "unlisted reference")
    # ratio zero
    z = work.Infer(inf.inferred, inf.reference, 0 * inf.ratios, inf.offsets, p.dim, inf.approximate)
    cz, cn = run(infer=z.spec(), white=True), run(white=True)
    ctx.close(work.zz(cz, p.names), work.zz(cn, p.names), 1e-9 * S, "zero ratio: amplitudes", p.names)
    ctx.close(work.zz(cz, inf.inferred), 0 * inf.apply(p.z[ti]), 1e-12 * S, "zero ratio: inferred", inf.inferred)
    ctx.close(work.means(cz), work.means(cn), 1e-9 * S, "zero ratio: mean")
    ctx.close(work.slopes(cz), work.slopes(cn), 1e-9 * S, "zero ratio: slope")
    for k in work.cis(cn):
        a = work.get(cn, k, p.names)
        ctx.close(work.get(cz, k, p.names), a, 1e-6 * np.abs(a) + 1e-300, "zero ratio: ci " + k, p.names)


def approximate(ctx, p, inf, run, x, truth, allnames, S):
    """The approximation neglects the leakage of the inferred constituents into
    anything but their references, and their different modulation in time."""
    inf.approximate = True
    c = run(x, infer=inf.spec(), conf_int="none")
    relation(ctx, inf, c, "approximate: relation", S)
    err = np.abs(work.zz(c, allnames) - truth).max()
    zi = np.abs(truth[len(p.names) :]).sum()
    # leakage to the others, which the approximation neglects
    tol = 0.1 if apart(p, inf) > 5 else 0.25
    ctx.close(err / zi, 0.0, tol, "approximate near exact")
