#!/usr/bin/env python3
"""python3 check.py Cxx [--tier quick|thorough]   (re-executes itself with the repository's interpreter)"""
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PY):
    os.execv(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]])
os.environ.setdefault("JAX_PLATFORM_NAME", "cpu")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["MPLBACKEND"] = "Agg"
os.environ.pop("ENABLE_APPROX", None)
os.environ.pop("JAX_DISABLE_JIT", None); os.environ.pop("JAX_ENABLE_X64", None)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import warnings
warnings.filterwarnings("ignore")


def shard(prop, tier, i, n, out):
    import importlib
    try:
        import differt2d
        assert os.path.realpath(differt2d.__file__).startswith(os.path.realpath(REPO)), differt2d.__file__
        import differt2d.scene, differt2d.geometry, differt2d.logic, differt2d.utils, differt2d.optimize, differt2d.abc
    except Exception as e:
        print("the package cannot be imported:", e); sys.exit(2)
    from engine.verify import Runner
    r = Runner(prop, tier, (i, n), out)
    m = importlib.import_module(f"props.{prop.lower()}")
    try: rc = m.check(r, tier)
    except Exception as e:
        import traceback
        if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
        r.add_violation({"contract": f"check of {prop}", "failed": ["the obligations could not be generated"], "inputs": None, "outputs": None, "verifier": traceback.format_exc()[-3000:]}, False)
        rc = r.finish()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--shard" in sys.argv:
        i, n, out = sys.argv[sys.argv.index("--shard") + 1].split("/", 2)
        return shard(prop, tier, int(i), int(n), out)
    t0 = time.time()
    src = open(os.path.join(HERE, "props", prop.lower() + ".py")).read()
    m = re.search(r"^SHARDS = (\d+)", src, re.M)
    n = int(os.environ.get("VERIF_SHARDS", m.group(1) if m else 8))
    import pickle
    with tempfile.TemporaryDirectory(prefix=f"vc{prop}") as tmp:
        outs = [os.path.join(tmp, f"s{i}") for i in range(n)]
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, "--tier", tier, "--shard", f"{i}/{n}/{o}"], start_new_session=True) for i, o in enumerate(outs)]
        limit = float(os.environ.get("VERIF_LIMIT", "780" if tier == "quick" else "86400"))
        def end(*_):
            for q in ps:
                if q.poll() is None: os.killpg(q.pid, signal.SIGKILL)
            sys.exit(2)
        signal.signal(signal.SIGTERM, end); signal.signal(signal.SIGINT, end)
        # a violation confirmed on the real code ends the other workers after a grace period
        rcs = [None] * n; stop = False
        while None in rcs:
            for k, p in enumerate(ps):
                if rcs[k] is None: rcs[k] = p.poll()
            now = time.time() - t0
            if not stop and any(os.path.exists(o + ".viol") for o in outs): stop = True; limit = min(limit, now + 60.0)
            if now > limit:
                for k, p in enumerate(ps):
                    if rcs[k] is None: rcs[k] = "timeout"; os.killpg(p.pid, signal.SIGKILL); p.wait()
            time.sleep(0.05)
        late = rcs.count("timeout")
        if any(x not in (0, "timeout") for x in rcs) or (late == n and not stop):
            print("a worker of the check failed:", rcs); sys.exit(2)
        dumps = []
        for o, x in sorted(zip(outs, rcs), key=lambda q: q[1] != 0):
            if x == 0:
                with open(o, "rb") as f: dumps.append(pickle.load(f))
            elif os.path.exists(o + ".viol"):
                with open(o + ".viol", "rb") as f: dumps.append(pickle.load(f))
        if late and not stop: dumps[0]["violations"].append(({"contract": "all", "failed": [f"{late} workers did not finish within {limit} s"], "inputs": None, "outputs": None}, False))
    from engine import report
    sys.exit(report.report(prop, tier, dumps, t0))


main()
