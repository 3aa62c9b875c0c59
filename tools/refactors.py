"""Behaviour-preserving edits of /repo, applied to scratch copies: every check named must stay quiet.

usage: refactors.py [--tests] [id ...]
"""
import ast, os, subprocess, sys, textwrap, pathlib, time
import concurrent.futures as cf

R = {}
def ref(id, props, file, fn, body, pre=None, imports=None): R[id] = (props, [(file, fn, body)], pre, imports)
def many(id, props, edits): R[id] = (props, edits, None, None)

exec((pathlib.Path(__file__).with_name("refactors_table.py")).read_text())


def replace_body(src, qual, body):
    tree = ast.parse(src)
    names = qual.split(".")
    idx = 0
    if "#" in names[-1]: names[-1], k = names[-1].split("#"); idx = int(k)
    nodes = [tree]
    for n in names:
        nodes = [c for p in nodes for c in ast.walk(p) if c is not p and isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == n]
    node = nodes[idx]
    lines = src.splitlines(keepends=True)
    st = node.body
    if isinstance(st[0], ast.Expr) and isinstance(getattr(st[0], "value", None), ast.Constant) and isinstance(st[0].value.value, str): st = st[1:]
    a = st[0].lineno - 1
    if hasattr(st[0], "decorator_list") and st[0].decorator_list: a = min(d.lineno for d in st[0].decorator_list) - 1
    b = st[-1].end_lineno
    ind = " " * (node.col_offset + 4)
    new = textwrap.indent(textwrap.dedent(body).strip("\n") + "\n", ind)
    return "".join(lines[:a]) + new + "".join(lines[b:])


def build(id):
    props, edits, pre, imports = R[id]
    d = pathlib.Path(f"/tmp/w/ref_{id}")
    subprocess.run(["rm", "-rf", str(d)]); subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    for f, fn, body in edits:
        p = d / "differt2d" / f
        s = p.read_text()
        if fn is None:
            assert s.count(body[0]) >= 1, body[0]
            s = s.replace(body[0], body[1])
        else: s = replace_body(s, fn, body)
        if imports: s = s.replace("\nimport jax\n", "\nimport jax\n" + imports + "\n", 1)
        if pre and f == edits[0][0]: s = s + "\n\n" + textwrap.dedent(pre)
        p.write_text(s)
    return props, d


def run(id, tests):
    props, d = build(id)
    out = []
    if tests:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mpl", PYTHONPATH=str(d))
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "8", "--no-cov"], cwd=d, env=env, capture_output=True, text=True)
        out.append("tests: " + (t.stdout.strip().splitlines() or ["?"])[-1])
        out += ["   " + l[:200] for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
    for p in props.split():
        t0 = time.time()
        r = subprocess.run(["python3", "check.py", p], cwd="/verif", env=dict(os.environ, VERIF_REPO=str(d)), capture_output=True, text=True, timeout=1000)
        ok = r.returncode == 0
        out.append(f"{p} rc={r.returncode} {time.time() - t0:.0f}s " + ("" if ok else "\n      " + "\n      ".join(x[:300] for x in (r.stdout + r.stderr).splitlines()[-6:])))
    subprocess.run(["rm", "-rf", str(d)])
    return out


if __name__ == "__main__":
    a = sys.argv[1:]; tests = "--tests" in a
    for id in [x for x in a if x != "--tests"] or list(R):
        print(id, flush=True)
        try:
            for l in run(id, tests): print("  ", l, flush=True)
        except Exception as e: print("   ERROR", type(e).__name__, e, flush=True)
