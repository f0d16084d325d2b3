"""Replay a stored counterexample against the real, unpatched code.  Exit 1: it reproduces."""
from __future__ import annotations

import json
import sys
from pathlib import Path


def main():
    from symx import run

    d = json.loads(Path(sys.argv[1]).read_text())
    _mod, hs = run.load(d["property"])
    h = next(x for x in hs if x.name == d["harness"])
    case = h.all_cases(d["tier"])[d["case_index"]]
    for before in d.get("before", []):
        run.run_concrete(h, case, before)
    fails, _env = run.run_concrete(h, case, d["values"])
    for f in fails:
        print("FAILED", *f)
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
