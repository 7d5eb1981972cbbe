"""C25 the Bunch container, against a plain dictionary."""
import copy
import os
import pickle
import tempfile
import warnings

import numpy as np

from rvm import snap

CASES = {"quick": 6000, "thorough": 120000}
TECHNIQUE = "model-based monitor: random operation histories on a Bunch are mirrored on a plain dictionary and compared after every operation, exceptions included"
RULE = "Histories of 1-60 operations (creation from mappings, pairs, keywords and files, item and attribute reads, writes and deletions, update, update_values and update_None with and without strict, pop, setdefault, clear, copies, pickling, printing) over a small set of names so that collisions are frequent, with values of every kind, on Bunch and subclasses."
REQUIRED = ("items", "attributes", "attribute write", "item write", "unknown attribute", "unknown item", "update", "update_values", "update_None", "strict rejects", "strict rejection leaves", "strict accepts", "prints", "prints sorted", "types printed", "copies", "file", "default attribute")
NAMES = ["a", "b", "c", "aux", "name", "A", "A_ci", "_x", "theta", "white", "a1", "B"]
UNKNOWN = ["zz", "q", "t_mpl", "missing", "_none"]


def value(rng, Bunch):
    k = int(rng.integers(11))
    return [
        lambda: None,
        lambda: None,
        lambda: int(rng.integers(100)),
        lambda: float(rng.normal()),
        lambda: np.arange(int(rng.integers(4))),
        lambda: "text",
        lambda: ["l", 1],
        lambda: Bunch(x=1),
        lambda: {"y": None},
        lambda: False,
        lambda: "x" * int(rng.integers(60)),
    ][k]()


def same(b, d):
    return list(b.keys()) == list(d.keys()) and all(b[k] is d[k] for k in d)


def mapping(rng, Bunch, names):
    ks = [str(k) for k in rng.choice(names, int(rng.integers(0, 4)), replace=False)]
    return {k: value(rng, Bunch) for k in ks}


def form(rng, Bunch, m, pairs=True):
    k = int(rng.integers(3 if pairs else 2))
    return [m, Bunch(m), list(m.items())][k]


def run_case(ctx):
    from utide.utilities import Bunch

    rng = ctx.rng
    cls = Bunch
    if rng.random() < 0.2:

        class cls(Bunch):  # a documented customisation
            str_fmt = "{0!s:>{klen}}={1!s:<{vlen}};\n"

    nops = int(rng.integers(1, 60))
    b, d = create(ctx, rng, cls, Bunch)
    log = []
    ctx.describe(operations=nops, kind=cls.__name__)
    for _ in range(nops):
        op = int(rng.integers(19))
        k = str(rng.choice(NAMES))
        ctx.event("operation")
        log.append((op, k))
        v = value(rng, Bunch)
        if op == 0:
            b[k] = v
            d[k] = v
            ctx.check(same(b, d), "item write", log[-5:])
        elif op == 1:
            setattr(b, k, v)
            d[k] = v
            ctx.check(same(b, d), "attribute write", log[-5:])
        elif op == 2:
            m = mapping(rng, Bunch, NAMES)
            kw = mapping(rng, Bunch, NAMES)
            b.update(form(rng, Bunch, m), **kw)
            d.update(m, **kw)
            ctx.check(same(b, d), "update", log[-5:])
        elif op in (3, 4, 5, 6):
            updates(ctx, rng, b, d, Bunch, "update_values" if op < 5 else "update_None")
        elif op == 7:
            x, y = b.pop(k, "gone"), d.pop(k, "gone")
            ctx.check(x is y or x == "gone", "pop")
        elif op == 8 and rng.random() < 0.5:
            if k in d:
                del b[k]
                del d[k]
            else:
                ctx.raises(KeyError, "unknown item", lambda: b.__delitem__(k))
        elif op == 9:
            x, y = b.setdefault(k, v), d.setdefault(k, v)
            ctx.check(x is y, "setdefault")
        elif op == 10:
            u = str(rng.choice(UNKNOWN))
            absent(ctx, b, u)
            if rng.random() < 0.2:  # the one name with a property of its own
                e, w = cls(b, t_mpl=v), value(rng, Bunch)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    ctx.check(e.t_mpl is v and e["t_mpl"] is v, "attributes", "t_mpl")
                    e.t_mpl = w
                    ctx.check(e.t_mpl is w and e["t_mpl"] is w, "attributes", "t_mpl")
        elif op == 11 and rng.random() < 0.15:
            b.clear()
            d.clear()
        elif op == 12:
            q = int(rng.integers(4))
            e = [lambda: copy.copy(b), lambda: copy.deepcopy(b), lambda: pickle.loads(pickle.dumps(b, int(rng.integers(6)))) if cls is Bunch else copy.copy(b), lambda: cls(b)][q]()
            ctx.check(type(e) is cls and snap.freeze(dict(e)) == snap.freeze(d), "copies", q)
            e["only copy"] = 1
            e.a = "changed"
            ctx.check("only copy" not in b, "copies")
            if rng.random() < 0.3:
                e.pop("only copy")
                if "a" in d:
                    e["a"] = d["a"]
                else:
                    e.pop("a")
                if q in (0, 3):
                    b = e
        elif op == 13:
            prints(ctx, rng, b, d, cls)
        elif op == 14:
            ctx.check(b == d and not (b != d) and len(b) == len(d) and bool(b) == bool(d), "equality") if plain_values(d) else None
        elif op == 15 and rng.random() < 0.3:
            fromfile(ctx, rng, b, d)
        elif op == 16:
            ctx.check(getattr(b, k, "dflt") is d.get(k, "dflt") and hasattr(b, k) == (k in d), "default attribute", k)
        elif op == 17:
            ctx.check(b.get(k) is d.get(k) and (k in b) == (k in d), "items")
        elif op == 18 and rng.random() < 0.2:
            b, d = create(ctx, rng, cls, Bunch)
        compare(ctx, b, d, log)
        if ctx.fail:
            ctx.describe(log=log[-10:])
            return


def plain_values(d):
    return not any(isinstance(v, (np.ndarray, dict)) for v in d.values())


def create(ctx, rng, cls, Bunch):
    args = [mapping(rng, Bunch, NAMES) for _ in range(int(rng.integers(0, 4)))]
    kw = mapping(rng, Bunch, NAMES)
    d = {}
    for m in args:
        d.update(m)
    d.update(kw)
    b = cls(*[form(rng, Bunch, m) for m in args], **kw)
    ctx.check(same(b, d) and isinstance(b, dict), "created", list(d))
    return b, d


def compare(ctx, b, d, log):
    ctx.check(same(b, d), "items", f"{list(b.keys())} {list(d.keys())} after {log[-5:]}")
    for k in d:
        ctx.check(getattr(b, k) is d[k], "attributes", f"{k} after {log[-5:]}")
    ctx.check(list(b) == list(d) and list(map(id, b.values())) == list(map(id, d.values())), "items")


def absent(ctx, b, u):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises(AttributeError, "unknown attribute", lambda: getattr(b, u))
        ctx.check(getattr(b, u, 77) == 77 and not hasattr(b, u), "default attribute", u)
        ctx.raises(KeyError, "unknown item", lambda: b[u])


def updates(ctx, rng, b, d, Bunch, which):
    known = list(d)
    some = known + UNKNOWN[:2] if rng.random() < 0.6 else known
    if not some:
        some = UNKNOWN
    args = [mapping(rng, Bunch, some[: int(rng.integers(4, 15))]) if len(some) > 4 else {str(k): value(rng, Bunch) for k in some} for _ in range(int(rng.integers(0, 3)))]
    kw = {k: value(rng, Bunch) for k in some if rng.random() < 0.2}
    new = {}
    for m in args:
        new.update(m)
    new.update(kw)
    strict = [None, False, True][int(rng.integers(3))]
    call = dict(kw)
    if strict is not None:
        call["strict"] = strict
    unknown = [k for k in new if k not in d]
    fargs = [form(rng, Bunch, m) for m in args]
    held = snap.freeze(fargs)
    f = lambda: getattr(b, which)(*fargs, **call)  # noqa: E731
    if strict and unknown:
        ctx.raises(KeyError, "strict rejects", f)
        ctx.check(same(b, d), "strict rejection leaves", f"{which} {list(new)} {unknown}")
    else:
        f()
        for k, v in new.items():
            if k in d and (which == "update_values" or d[k] is None):
                d[k] = v
        ctx.check(same(b, d), which, f"strict={strict} {list(new)}: {dict(b)} / {d}")
        if strict:
            ctx.check(True, "strict accepts")
    ctx.check(snap.freeze(fargs) == held, "arguments unchanged")


def prints(ctx, rng, b, d, cls):
    s = str(b)
    ctx.check(isinstance(s, str), "prints")
    f = b.formatted(types=True)
    ctx.check(isinstance(f, str) and b.formatted() == s, "prints")
    keys = sorted(d)
    # one entry per key, in key order; long values only widen their entry
    sep = "=" if cls.__name__ == "cls" else " : "
    simple = {k: v for k, v in d.items() if not isinstance(v, dict) and "\n" not in str(v)}
    if simple.keys() == d.keys():
        lines = s.splitlines()
        got = [ln.split(sep)[0].strip() for ln in lines]
        ctx.check(got == keys, "prints sorted", f"{got} {keys}")
        ctx.check(all(str(d[k]) in ln for k, ln in zip(keys, lines)), "prints values")
    else:
        pos = [s.find(k) for k in keys]
        ctx.check(all(q >= 0 for q in pos), "prints")
    lines = f.splitlines()
    ctx.check([ln.split(sep)[0].strip() for ln in lines] == keys, "prints sorted")
    ctx.check(all(type(d[k]).__name__ in ln for k, ln in zip(keys, lines)), "types printed")
    # a format of one's own
    s = b.formatted(fmt="<{0}>")
    ctx.check(s == "".join(f"<{k}>" for k in keys), "own format", s[:100])
    ctx.check(isinstance(repr(b), str), "prints")


def fromfile(ctx, rng, b, d):
    new = {k: int(rng.integers(100)) for k in mapping(rng, dict, NAMES)}
    with tempfile.TemporaryDirectory(prefix="rvm25-") as t:
        f = os.path.join(t, "conf.py")
        with open(f, "w") as h:
            h.write("# settings\n" + "".join(f"{k} = {v}\n" for k, v in new.items()))
            if "a" in new:
                h.write("A_ci = [a for _ in range(2)]\n")
                new["A_ci"] = None
        r = b.from_pyfile(f)
    ctx.check(r is b, "file")
    for k, v in new.items():
        if k == "A_ci" and v is None:
            v = [new["a"]] * 2
        if not ctx.check(k in b and b[k] == v, "file", f"{k} {b.get(k)} {v}"):
            return
        d[k] = b[k]
