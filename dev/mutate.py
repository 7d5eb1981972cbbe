"""Development helper: mechanical mutants of the package.

mutate.py gen OUT       writes the mutants as JSON lines {id, file, line, old, new, start, end}
mutate.py test IN OUT   keeps those which pass the repository's tests
mutate.py run IN OUT    runs reduced checks on each until one reports it"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
FILES = "_solve _reconstruct _time_conversion _ut_constants astronomy confidence constituent_selection diagnostics ellipse_params harmonics periodogram robustfit utilities".split()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
CALLS = {"sin": "cos", "cos": "sin", "real": "imag", "imag": "real", "floor": "ceil", "min": "max", "max": "min", "mean": "median", "median": "mean", "sum": "mean", "conj": "array", "abs": "array", "hstack": None, "any": "all", "all": "any", "zeros": "ones", "ones": "zeros", "copy": "view", "sqrt": "abs", "isfinite": "isnan", "ceil": "floor", "var": "std", "ptp": "max", "arctan2": "hypot", "round": "floor", "sort": "array", "unique": "array", "diff": "array", "nanmean": "mean"}


def gen(out):
    res = []
    for name in FILES:
        f = f"utide/{name}.py"
        s = open(f"{REPO}/{f}").read()
        lines = s.splitlines(True)
        off = [0]
        for ln in lines:
            off.append(off[-1] + len(ln.encode()))
        b = s.encode()
        pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)  # noqa: E731
        tree = ast.parse(s)
        doc = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                doc.add(id(n.value))

        def add(a, e, new, why):
            old = b[a:e].decode()
            if new != old:
                res.append(dict(id=len(res), file=f, line=b[:a].count(b"\n") + 1, old=old, new=new, start=a, end=e, why=why))

        def between(l, r):
            a, e = pos(l)[1], pos(r)[0]
            t = b[a:e].decode()
            m = re.search(r"[^\s()\\]+(\s+(in|not)\b)?", t)
            return a, e, t

        for n in ast.walk(tree):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, e, t = between(n.left, n.comparators[0])
                src = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}[type(n.ops[0])]
                if t.count(src) == 1:
                    for new in CMP[type(n.ops[0])]:
                        add(a, e, t.replace(src, new), "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, e, t = between(n.left, n.right)
                src = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|"}[type(n.op)]
                if t.count(src) == 1 and "#" not in t:
                    add(a, e, t.replace(src, BIN[type(n.op)]), "op")
                    a2, e2 = pos(n)
                    add(a2, e2, "(" + ast.unparse(n.left) + ")", "left only")
            elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                a, e, t = between(n.target, n.value)
                src = t.strip()
                add(a, e, t.replace(src, BIN[type(n.op)] + "="), "aug")
            elif isinstance(n, ast.BoolOp):
                for l, r in zip(n.values, n.values[1:]):
                    a, e, t = between(l, r)
                    w = "and" if isinstance(n.op, ast.And) else "or"
                    if t.count(w) == 1:
                        add(a, e, t.replace(w, "or" if w == "and" else "and"), "bool")
            elif isinstance(n, ast.UnaryOp):
                a, e = pos(n)
                if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                    add(a, e, "(" + ast.unparse(n.operand) + ")", "unary")
            elif isinstance(n, ast.Constant) and id(n) not in doc:
                a, e = pos(n)
                v = n.value
                if v is True or v is False:
                    add(a, e, str(not v), "const")
                elif isinstance(v, int):
                    add(a, e, str(v + 1), "const")
                    if v:
                        add(a, e, str(v - 1), "const")
                elif isinstance(v, float):
                    add(a, e, repr(v * 1.01 + (1e-3 if v == 0 else 0)), "const")
                    add(a, e, repr(v * (1 + 1e-6)), "const small")
            elif isinstance(n, ast.Attribute) and n.attr in CALLS and CALLS[n.attr]:
                a, e = pos(n)
                t = b[a:e].decode()
                if t.endswith("." + n.attr):
                    add(a, e, t[: -len(n.attr)] + CALLS[n.attr], "call")
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg:
                        m = ast.unparse(ast.Call(n.func, n.args, [q for q in n.keywords if q is not k]))
                        add(*pos(n), m, "kwarg dropped")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                add(*pos(n), "pass", "deleted")
            elif isinstance(n, ast.If):
                add(*pos(n.test), "True", "if")
                add(*pos(n.test), "False", "if")
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                sl = n.slice
                for q in ("lower", "upper", "step"):
                    if getattr(sl, q) is not None:
                        c = ast.Slice(sl.lower, sl.upper, sl.step)
                        setattr(c, q, None)
                        add(*pos(n), ast.unparse(ast.Subscript(n.value, c, n.ctx)), "slice")
    seen, uniq = set(), []
    for m in res:
        k = (m["file"], m["start"], m["end"], m["new"])
        if k not in seen:
            seen.add(k)
            m["id"] = len(uniq)
            uniq.append(m)
    with open(out, "w") as fo:
        for m in uniq:
            fo.write(json.dumps(m) + "\n")
    print(len(uniq), "mutants")


def copy(tag, m):
    w = f"/tmp/mut/w-{tag}"
    if not os.path.exists(w):
        shutil.copytree(REPO, w, symlinks=True, ignore=shutil.ignore_patterns(".git", "notebooks", "docs"))
    subprocess.run(["cp", "-r", f"{REPO}/utide", w + "/"], check=True)
    b = open(f"{REPO}/{m['file']}", "rb").read()
    open(f"{w}/{m['file']}", "wb").write(b[: m["start"]] + m["new"].encode() + b[m["end"] :])
    return w


def pool(fn, items, out, n):
    import queue

    tags = queue.Queue()
    for k in range(n):
        tags.put(k)
    fo = open(out, "a")

    def one(m):
        k = tags.get()
        try:
            r = fn(k, m)
        finally:
            tags.put(k)
        fo.write(json.dumps(r) + "\n")
        fo.flush()

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, items))


def test_one(k, m):
    w = copy(k, m)
    env = dict(os.environ, PYTHONPATH=w, PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    try:
        r = subprocess.run("/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider tests 2>&1 | tail -3", shell=True, cwd=w, env=env, capture_output=True, text=True, timeout=120)
        ok = "22 passed" in r.stdout and "failed" not in r.stdout
    except subprocess.TimeoutExpired:
        ok = False
    return dict(m, passes=ok)


ORDER = {
    "astronomy": "C20 C02 C26", "harmonics": "C02 C01 C21 C03 C20", "confidence": "C15 C16 C21 C07 C13 C08", "periodogram": "C17 C15",
    "robustfit": "C14 C28 C22", "_solve": "C01 C04 C13 C31 C05 C22 C28 C09 C10 C06 C15", "_reconstruct": "C11 C03 C02 C31", "constituent_selection": "C12 C13 C31",
    "_time_conversion": "C06 C03 C31", "utilities": "C25 C27 C18 C26", "_ut_constants": "C26", "diagnostics": "C10", "ellipse_params": "C01 C08",
}
REST = "C01 C02 C04 C10 C12 C13 C14 C15 C17 C21 C22 C31 C05 C06 C11 C16 C28 C09 C08 C07 C03 C20 C29 C23 C24 C25 C27 C26 C18".split()
SHARE = float(os.environ.get("MUT_SHARE", "0.06"))


def run_one(k, m):
    sys.path.insert(0, VERIF)
    w = copy(k, m)
    man = {c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]}
    order = ORDER[m["file"][6:-3]].split()
    order += [c for c in (REST if SHARE < 0.5 else sorted(man)) if c not in order]
    env = dict(os.environ, RVM_REPO=w, RVM_PROCS="1" if SHARE < 0.5 else "8")
    for c in order:
        src = open(f"{VERIF}/rvm/props/{c.lower()}.py").read()
        n = max(24, int(SHARE * int(re.search(r'"quick": (\d+)', src).group(1))))
        cmd = f"./check {c}" + ("" if SHARE >= 1 else f" --cases {n}")
        try:
            r = subprocess.run(cmd, shell=True, cwd=VERIF, env=env, capture_output=True, text=True, timeout=700)
        except subprocess.TimeoutExpired:
            return dict(m, caught=c + " TIMEOUT")
        if "VIOLATION property=" in r.stdout:
            why = [q.strip() for q in r.stdout.splitlines() if q.startswith("  case")][:1]
            return dict(m, caught=c, msg=(why or [""])[0][:300])
    return dict(m, caught=None)


def main():
    cmd = sys.argv[1]
    if cmd == "gen":
        return gen(sys.argv[2])
    items = [json.loads(q) for q in open(sys.argv[2])]
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {json.loads(q)["id"] for q in open(sys.argv[3])}
    items = [m for m in items if m["id"] not in done]
    if cmd == "test":
        pool(test_one, items, sys.argv[3], int(os.environ.get("MUT_N", 8)))
    else:
        items = [m for m in items if m.get("passes", True) and not m.get("caught")]
        pool(run_one, items, sys.argv[3], int(os.environ.get("MUT_N", 8)) if SHARE < 0.5 else 1)


main()
