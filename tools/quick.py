"""Run checks on hand-written one-line changes.  usage: quick.py FILE [WORKERS]
FILE: python list MUT of (file, old, new, "C01 C02"); prints the changes no check reports."""
import ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/venv/bin/python"


def one(a):
    i, (f, old, new, checks) = a
    d = tempfile.mkdtemp(prefix="quick", dir="/tmp")
    try:
        shutil.copytree("/repo/surface_potential_analysis", d + "/surface_potential_analysis", ignore=shutil.ignore_patterns("__pycache__"))
        p = f"{d}/surface_potential_analysis/{f}"
        s = open(p).read()
        if old not in s:  # in the normal form of the source instead
            s, old, new = ast.unparse(ast.parse(s)), old.replace('"', "'"), new.replace('"', "'")
            if old not in s:
                return i, "NOT FOUND " + old
        open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, SYMX_REPO=d, PYTHONPATH=d, SYMX_EVIDENCE=d + "/ev", SYMX_FAIL_FAST="1", PYTHONDONTWRITEBYTECODE="1")
        out = []
        for c in checks.split():
            try:
                r = subprocess.run([PY, "-m", "symx.run", c, "--jobs", "3"], cwd="/verif", env=env, capture_output=True, text=True, timeout=700)
            except subprocess.TimeoutExpired:
                out.append(f"{c} timeout")
                continue
            if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                return i, f"caught by {c}: " + next((q for q in r.stdout.splitlines() if "violated" in q), "")[:150]
            out.append(f"{c} rc={r.returncode}" + (" " + r.stdout[-150:] if r.returncode else ""))
        return i, "MISSED " + "; ".join(out)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    M = ns["MUT"]
    with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 4) as ex:
        for i, r in ex.map(one, enumerate(M)):
            print(("   " if r.startswith("caught") else "** "), i, M[i][0], "|", M[i][2][:70].replace("\n", " "), "|", r, flush=True)
