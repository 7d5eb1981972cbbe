"""Development helper: plant.py SPEC.py ... : builds /verif/seeded/<id>/ from a
spec (variables ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO),
after confirming in a scratch copy that tests pass and the demonstration
discriminates.  plant.py --check ID... runs the property's check against it."""
import json
import os
import shutil
import subprocess
import sys

SEEDED = "/verif/seeded"
SH = """#!/bin/bash
D=$(dirname "$(readlink -f "$0")")
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def scratch(name):
    w = f"/tmp/scratch-{name}-{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    return w


def test(w):
    env = dict(os.environ, PYTHONPATH=w, PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONPYCACHEPREFIX=w + "/.pyc")
    r = run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -5", w, env=env)
    return "22 passed" in r.stdout and "failed" not in r.stdout, r.stdout


def plant(path):
    g = {}
    exec(open(path).read(), g)
    i = g["ID"]
    w = scratch(i)
    try:
        for f, old, new in g["EDITS"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return print(i, "REJECTED: edit matches", s.count(old), old[:50])
            open(p, "w").write(s.replace(old, new))
        diff = run("git diff", w).stdout
        d = os.path.join(SEEDED, i)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(g["DEMO"].lstrip())
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        # lines the patch removes must be those of the original repository
        base = run("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
        bad = run("bash %s/demo.sh" % d, w)
        ok, out = test(w)
        run("git checkout -- .", w)
        good = run("bash %s/demo.sh" % d, w)
        err = []
        orig = set()
        for f, _, _ in g["EDITS"]:
            orig |= set(run(f"git show {base}:{f}", "/repo").stdout.splitlines())
        rem = [q[1:] for q in diff.splitlines() if q.startswith("-") and not q.startswith("---")]
        if rem and not any(q in orig and q.strip() for q in rem):
            err.append("changes no original line")
        if not ok:
            err.append("tests: " + out[-300:])
        if good.returncode:
            err.append("demo on clean: " + (good.stdout + good.stderr)[-400:])
        if not bad.returncode:
            err.append("demo does not fail with the patch")
        print(i, g["PROPERTY"], "REJECTED " + "; ".join(err) if err else "ok", "|", (bad.stdout + bad.stderr).strip().splitlines()[-1:] )
        if err:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(w)


def check(i, allprops=False):
    d = os.path.join(SEEDED, i)
    m = json.load(open(d + "/meta.json"))
    w = scratch(i)
    try:
        r = run(f"git apply {d}/patch.diff", w)
        if r.returncode:
            return print(i, "patch does not apply", r.stderr)
        r = run(f"RVM_REPO={w} ./check {m['property']}", "/verif")
        v = [q for q in r.stdout.splitlines() if q.startswith(("VIOLATION", "INCON"))]
        c = [q for q in r.stdout.splitlines() if q.startswith("  case")]
        print(i, m["property"], "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", (c[:1] or [""])[0][:200], flush=True)
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for i in ids:
            check(i)
    else:
        for p in sys.argv[1:]:
            plant(p)
