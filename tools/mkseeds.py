"""Writes /verif/seeded/<id>/ from the table below and confirms each change.

usage: mkseeds.py [--tests] [id ...]

For each planted change: applies it in a scratch copy of /repo, runs its demo
on both trees, and (with --tests) the existing test suite on the changed one.
"""
import json, os, subprocess, sys, shutil, pathlib, concurrent.futures as cf

V = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
PRE = '''import os, sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.path.insert(0, os.getcwd())
import numpy as np, jax, jax.numpy as jnp
from differt2d import geometry as g, logic as L, scene as S, optimize as O, utils as U, abc as A
import differt2d
def ck(c, *m):
    if not c:
        print("FAIL", *m); sys.exit(1)
def close(a, b, tol=1e-4):
    return bool(np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), atol=tol, rtol=tol))
W = lambda a, b, c, d: g.Wall(xys=jnp.array([[a, b], [c, d]], dtype=float))
P = lambda x, y: g.Point(xy=jnp.array([x, y], dtype=float))
'''
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

exec((pathlib.Path(__file__).with_name("seeds_table.py")).read_text())

def make(id, tests):
    s = SEEDS[id]
    d = pathlib.Path(f"/tmp/w/seedrepo_{id}")
    subprocess.run(["rm", "-rf", str(d)]); subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    for f, old, new in s["edits"]:
        p = d / "differt2d" / f
        t = p.read_text()
        if t.count(old) != 1:
            return id, f"EDIT does not match once in {f}: {t.count(old)}: {old!r}"
        p.write_text(t.replace(old, new))
    out = V / "seeded" / id
    out.mkdir(parents=True, exist_ok=True)
    diff = subprocess.run(["git", "-C", str(d), "diff"], capture_output=True, text=True).stdout
    (out / "patch.diff").write_text(diff)
    (out / "demo.py").write_text(PRE + s["demo"].strip("\n") + "\nprint('ok')\n")
    (out / "demo.sh").write_text('#!/bin/bash\n' f'exec env PYTHONDONTWRITEBYTECODE=1 timeout 280 {PY} "$(dirname "$0")/demo.py"\n')
    os.chmod(out / "demo.sh", 0o755)
    (out / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    a = subprocess.run(["bash", str(out / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", str(out / "demo.sh")], cwd=str(d), capture_output=True, text=True)
    r = f"clean {a.returncode} patched {b.returncode}"
    if a.returncode: r += "\n  CLEAN: " + (a.stdout + a.stderr)[-300:]
    if b.returncode and "FAIL" not in b.stdout: r += "\n  PATCHED: " + (b.stdout + b.stderr)[-300:]
    if tests:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mpl", PYTHONPATH=str(d))
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "4", "--no-cov"], cwd=d, env=env, capture_output=True, text=True)
        r += "\n  tests: " + (t.stdout.strip().splitlines() or ["?"])[-1]
        for l in t.stdout.splitlines():
            if l.startswith(("FAILED", "ERROR")): r += "\n    " + l[:200]
    subprocess.run(["rm", "-rf", str(d)])
    return id, r

if __name__ == "__main__":
    a = sys.argv[1:]; tests = "--tests" in a
    ids = [x for x in a if x != "--tests"] or list(SEEDS)
    with cf.ThreadPoolExecutor(2 if tests else 4) as ex:
        for id, r in ex.map(lambda i: make(i, tests), ids):
            print(id, r, flush=True)
