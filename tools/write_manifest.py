"""Regenerates /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
NOTE = {}
NA = {}
exec((ROOT / "tools" / "manifest_notes.py").read_text())  # noqa: S102

props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (ROOT / "checks" / f"{i.lower()}.py").exists():
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python -m symx.run {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python -m symx.run {i} --tier thorough",
            "technique": "symbolic execution of the repository's Python code, obligations decided by z3, counterexamples replayed unpatched",
            "level": "model_checking",
            "level_note": NOTE.get(i, "Bounded: sizes, shapes, dimensions and operator counts as listed in DESIGN.md and the evidence file; all data values within a path symbolic; numpy/scipy/LAPACK kernels trusted (linear ones run exactly, eigen-solvers by contract)."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "harnesses for this property are not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import symx.run, z3'", "checks": checks, "not_applicable": na,
     "notes": "All checks run the code in /repo's working tree (override with SYMX_REPO for development). --strict makes inconclusive cases fatal."}
m["setup_cmd"] = "/opt/venv/bin/python -m symx.selftest"
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
