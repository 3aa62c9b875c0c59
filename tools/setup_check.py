"""Nothing to build: check that the interpreters and solvers the checks use are present."""
import shutil, subprocess, sys
for x in ("z3-new", "cvc5"):
    if not shutil.which(x): sys.exit(f"missing {x}")
subprocess.check_call(["/opt/venv/bin/python", "-c", "import jax, equinox, numpy"])
print("ok")
