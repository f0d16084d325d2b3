"""Build and try the planted bugs of tools/seeds_src*.py.

tools/seed.py [ID-regex] [--no-check]   verifies each bug in a scratch copy, writes seeded/<id>/, runs the
property's quick check against the copy and records the outcome in tools/seed_results.json
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
PKG = "surface_potential_analysis/"
STABLE = json.loads(Path("/opt/vp/BASELINE.json").read_text())


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def loose(a):
    """a, whatever its layout, quotes and annotations of trailing commas"""
    out = []
    for tok in re.findall(r"\w+|[^\w\s]", a):
        if tok in "'\"":
            tok = "['\"]"
        elif tok in ")]}":
            tok = r",?\s*" + re.escape(tok)
        else:
            tok = re.escape(tok)
        out.append(tok)
    return r"\s*(?:#[^\n]*\n\s*)*".join(out)


def orig(path):
    return subprocess.run(["git", "-C", "/repo", "show", f"2e80664:{path}"], capture_output=True, text=True).stdout.splitlines()


def one(s, check=True):
    d = Path(tempfile.mkdtemp(prefix="seed_"))
    c = d / "repo"
    try:
        sh(["git", "clone", "-q", "/repo", str(c)], "/tmp")
        demo = d / "demo"
        demo.mkdir()
        (demo / "demo.py").write_text(s["demo"].lstrip())
        (demo / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        env = {"PYTHONPATH": str(c), "PYTHONDONTWRITEBYTECODE": "1"}
        rc, o = sh(["bash", str(demo / "demo.sh")], c, env, 300)
        if rc:
            return s["id"], "demo fails on the unchanged tree", o[-600:]
        for f, *prs in s["edits"]:
            p = c / PKG / f
            t = p.read_text()
            for a, b in prs:
                if t.count(a) == 1:
                    t = t.replace(a, b)
                    continue
                m = list(re.finditer(loose(a), t))
                if len(m) != 1:
                    return s["id"], f"edit matches {len(m)} times", a
                t = t[: m[0].start()] + b.lstrip() + t[m[0].end() :]
            compile(t, f, "exec")
            p.write_text(t)
        diff = sh(["git", "diff"], c)[1]
        was = {PKG + f: orig(PKG + f) for f, *_ in s["edits"]}
        minus = [x[1:] for x in diff.splitlines() if x.startswith("-") and not x.startswith("---") and x[1:].strip()]
        if not any(m in o for m in minus for o in was.values()):
            return s["id"], "changes no original line", diff
        rc, o = sh(["bash", str(demo / "demo.sh")], c, env, 300)
        if rc == 0:
            return s["id"], "demo passes with the change", ""
        rep = d / "junit.xml"
        rc, o2 = sh([PY, "-m", "pytest", "-q", "-p", "vp_seed_rng", "-p", "no:cacheprovider", "-p", "no:xdist", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={rep}", "tests"], c, {"PYTHONPATH": f"{c}:/opt/vp/plugins"})
        m = re.search(r"(\d+) passed", o2)
        if not m or int(m.group(1)) < 26:
            return s["id"], "stable tests fail", o2[-500:]
        out = V / "seeded" / s["id"]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        (out / "patch.diff").write_text(diff)
        (out / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        if not check:
            return s["id"], "built", ""
        rc, o = sh([PY, "-m", "symx.run", s["property"], "--tier", "quick"], V, {"SYMX_REPO": str(c), "SYMX_EVIDENCE": str(d / "ev")})
        hit = rc == 1 and f"VIOLATION property={s['property']}" in o
        det = [x for x in o.splitlines() if x.startswith(("VIOLATION", "INCONCL", "  "))][:3]
        return s["id"], "caught" if hit else f"MISSED rc={rc}", " | ".join(det)[:300] if hit else o[-700:]
    except Exception as e:  # noqa: BLE001
        return s["id"], "error", repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    pat = next((a for a in sys.argv[1:] if not a.startswith("-")), ".")
    seeds = []
    for f in sorted((V / "tools").glob("seeds_src*.py")):
        sp = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        seeds += m.SEEDS
    assert len({s["id"] for s in seeds}) == len(seeds)
    seeds = [s for s in seeds if re.search(pat, s["id"])]
    resf = V / "tools" / "seed_results.json"
    res = json.loads(resf.read_text()) if resf.exists() else {}
    with ThreadPoolExecutor(3) as ex:
        for i, r, t in ex.map(lambda s: one(s, "--no-check" not in sys.argv), seeds):
            print(i, "::", r, "::", t, flush=True)
            if r == "caught" or r.startswith("MISSED"):
                res[i] = r.split(" ")[0].lower()
    resf.write_text(json.dumps(res, indent=1, sort_keys=True) + "\n")


main()
