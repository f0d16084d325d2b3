"""Append a fixed entry to known_findings.json: tools/fixed.py PROP COMMIT text"""
import json, sys
from pathlib import Path
p = Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(p.read_text())
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
p.write_text(json.dumps(d, indent=1) + "\n")
