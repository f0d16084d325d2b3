"""Regenerates DESIGN.md from design_method.md, design_props.py, the checks' BOUNDS, planted bugs and repairs."""
import json
import re
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
sys.path.insert(0, str(ROOT))
from design_props import P  # noqa: E402

props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
out = [(ROOT / "tools/design_method.md").read_text().rstrip(), "", "## Properties", ""]
out.append("For each property: what runs and the oracle; bounds; what is outside. All are decided by the method above "
           "(nothing is not-applicable as a whole); the tests sample a handful of inputs, the checks decide all values of the "
           "symbolic data for every structural choice within the bounds. Cost is of the quick tier on 8 cores.\n")
cost = {}
f = ROOT / "tools/costs.json"
if f.exists():
    cost = json.loads(f.read_text())
for p in props:
    i = p["id"]
    src = (ROOT / "checks" / f"{i.lower()}.py").read_text()
    m = re.search(r"^BOUNDS = (.*?)(?=^\S)", src, re.M | re.S)
    bounds = eval(m.group(1))  # noqa: S307
    a, b = P[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Decides.* {a}\n")
    out.append(f"*Bounds.* {bounds}." + (f" *Cost.* {cost[i]}." if i in cost else "") + "\n")
    if b:
        out.append(f"*Outside / notes.* {b}\n")
out.append((ROOT / "tools/design_tail.md").read_text().rstrip() + "\n")
out.append("## Planted bugs\n")
out.append("Each is in `seeded/<id>/` (patch, demo, meta) and was written from the property text and the code; `caught` = the quick check of the "
           "property exits 1 with a VIOLATION. Rows marked * were first missed and led to a stronger check.\n")
res = json.loads((ROOT / "tools/seed_results.json").read_text())
late = set((ROOT / "tools/first_missed.txt").read_text().split())
out.append("| bug | property | needs | result |\n|---|---|---|---|")
for d in sorted((ROOT / "seeded").iterdir()):
    me = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name}{'*' if d.name in late else ''} | {me['property']} | {me['needs']} | {res.get(d.name, '?')} |")
out.append("\n## Defects found in the repository and repaired\n")
for x in json.loads((ROOT / "known_findings.json").read_text())["fixed"]:
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", x)
    out.append(f"* {m[1]} ({m[2]}): {m[3]}")
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
