"""Decide one property:  python -m symx.run C01 [--tier quick|thorough] [--strict] [--only name]"""
from __future__ import annotations

import argparse
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("SYMX_REPO", "/repo"))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.insert(0, str(REPO))
sys.path.insert(0, str(ROOT))
if VT not in sys.path:
    sys.path.append(VT)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

KNOWN = ROOT / "known_findings.json"
EVIDENCE = Path(os.environ.get("SYMX_EVIDENCE", ROOT / "evidence"))
REPLAYS = EVIDENCE / "replays"
HISTORY_S = 6.0  # seconds a case may have taken to be called again with other inputs


class Timeout(BaseException):
    pass


def _alarm(_s, _f):
    raise Timeout


def load(prop):
    from symx import harness

    import_all()
    mod = importlib.import_module(f"checks.{prop.lower()}")
    return mod, harness.HARNESSES.get(prop, [])


def import_all():
    """Import every importable module of the package, so that the engine patches all of them."""
    import pkgutil

    import surface_potential_analysis as pkg

    for m in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + "."):
        if m.name in sys.modules or "plot" in m.name.rsplit(".", 1)[-1] or m.name.endswith("_variance_test"):
            continue
        with contextlib.suppress(Exception):
            importlib.import_module(m.name)


def new_stats():
    return {"queries": 0, "solver_s": 0.0, "unknown": 0, "branches": 0, "obligations": 0, "unsat": 0, "normalised": 0, "paths": 0, "validated": 0, "reached": 0, "histories": 0}


def run_concrete(h, case, values, seed=0):
    """Run a harness on numbers against the unpatched code; returns (failures, values, checks)."""
    from symx.core import PathAbort
    from symx.env import ConcEnv

    env = ConcEnv(case, values, seed)
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            import numpy as np

            with np.errstate(all="ignore"):
                np.random.seed(0)
                h.fn(env, **case)
        except PathAbort:
            env.aborted = True
            return [], env
        except (ImportError, AttributeError) as e:
            if _from_harness(e):
                raise HarnessApi(str(e)) from e
            env.failures.append(("exception", _exc(e)))
        except Exception as e:  # noqa: BLE001
            env.failures.append(("exception", _exc(e)))
    return env.failures, env


class HarnessApi(Exception):
    """The harness itself can not reach an API (renamed function...)."""


def _from_harness(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and str(ROOT / "checks") in last


def _exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{Path(f.filename).name}:{f.lineno}" for f in tb][-3:]
    return f"{type(e).__name__}: {str(e)[:300]} at {' <- '.join(reversed(where))}"


class Seen:
    """the repository's functions (or lines, SYMX_COVER=lines) that ran under the engine"""

    def __init__(self):
        self.got, self.on = set(), False
        m = sys.monitoring
        self.ev = m.events.LINE if os.environ.get("SYMX_COVER") == "lines" else m.events.PY_START
        self.pre = str(REPO / "surface_potential_analysis") + "/"
        if m.get_tool(m.COVERAGE_ID) is None:
            m.use_tool_id(m.COVERAGE_ID, "symx")
        m.register_callback(m.COVERAGE_ID, self.ev, self.hit)
        m.restart_events()

    def hit(self, code, where):
        if code.co_filename.startswith(self.pre):
            if not self.on:
                return None
            name = code.co_filename[len(self.pre) :].removesuffix(".py").replace("/", ".")
            self.got.add(f"{name}:{where}" if self.ev == sys.monitoring.events.LINE else f"{name}.{code.co_qualname.replace('<locals>.', '')}")
        return sys.monitoring.DISABLE

    def watch(self, on):
        self.on = on
        sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, self.ev if on else 0)


def run_case(args):
    prop, hname, ci, tier, tlimit, seed = args
    import z3  # noqa: F401

    from symx import arr
    from symx.core import Evaluator, Explorer, PathAbort, State, Unsupported
    from symx.env import SymEnv, Violation

    _mod, hs = load(prop)
    seen = Seen()
    h = next(x for x in hs if x.name == hname)
    case = h.all_cases(tier)[ci]
    stats = new_stats()
    res = {"harness": hname, "case": case, "ci": ci, "stats": stats, "violations": [], "inconclusive": [], "samples": [], "wall": 0.0}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(tlimit))
    rnd = random.Random(f"{seed}/{hname}/{ci}")
    past: list = []  # the points of the paths so far
    try:
        ex = Explorer(stats)
        while ex.worklist:
            if stats["paths"] >= ex.max_paths:
                res["inconclusive"].append("path limit")
                break
            prefix = ex.worklist.pop()
            ex.start(prefix)
            State.ctx = ex
            env = SymEnv(case, ex, stats)
            viol = None
            err = None
            out = io.StringIO()
            arr.install()
            seen.watch(True)
            try:
                with contextlib.redirect_stdout(out), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    import numpy as np

                    with np.errstate(all="ignore"):
                        h.fn(env, **case)
            except PathAbort:
                continue
            except Violation as v:
                viol = v
            except Unsupported as e:
                err = "unsupported: " + _exc(e)
                if os.environ.get("SYMX_TRACE"):
                    traceback.print_exc(file=sys.stderr)
            except Exception as e:  # noqa: BLE001
                err = _exc(e)
                if os.environ.get("SYMX_TRACE"):
                    traceback.print_exc(file=sys.stderr)
            finally:
                seen.watch(False)
                arr.uninstall()
                State.random = None
                State.text = None
            stats["paths"] += 1
            stats["reached"] += env.reached
            # a point of this path, for the replay / the encoding check
            vals = dict(viol.values) if viol is not None else env.any_model()
            if vals is None:  # a branch the solver could not decide at first turned out to be impossible
                stats["reached"] -= env.reached
                continue
            from symx.core import State as _S

            for v in _S.reg.vars:
                if v.is_input and v.name not in vals:
                    if v.kind == "real":
                        vals[v.name] = round(rnd.uniform(v.lo, v.hi), 6)
            if viol is None:
                # prefer a generic point over the solver's (often all-zero) model when the path condition allows it
                gen = {v.name: round(rnd.uniform(v.lo, v.hi), 6) for v in _S.reg.vars if v.is_input and v.kind == "real"}
                if gen and not _has_real_pc(ex):
                    vals.update(gen)
            State.ctx = ex
            fails, cenv = run_concrete(h, case, vals, seed)
            if fails or viol is not None:
                rep = replay(prop, hname, ci, tier, case, vals, fails) if fails else None
                if rep is None and past:  # does it take the calls before this one?
                    rep = replay(prop, hname, ci, tier, case, vals, fails or [("history", str(viol))], past[-40:])
                if rep is not None:
                    lab, det = fails[0] if fails else (viol.label, viol.detail)
                    res["violations"].append({"label": lab, "detail": det, "values": _short(vals), "replay": rep, "symbolic": str(viol) if viol else err})
                    break
            if fails:
                res["inconclusive"].append("not reproduced in a fresh process: " + str(fails[0]))
                past.append(vals)
                continue
            if viol is not None:
                past.append(vals)
                res["inconclusive"].append("counterexample did not reproduce: " + str(viol))
                continue
            if err is not None:
                res["inconclusive"].append(err)
                continue
            res["inconclusive"] += ["undecided: " + u for u in env.undecided]
            if getattr(cenv, "aborted", False):
                continue  # the solver gave no point of this path
            # encoding check: symbolic result evaluated at the point == real result
            bad = None
            ev = Evaluator(cenv.values)
            gmax = max((float(np.max(np.abs(np.asarray(x)), initial=0)) for _l, x, _y in cenv.checks), default=0.0)
            if len(cenv.checks) == len(env.checks):
                for (lab, a, _b), (_l2, ca, cb) in zip(env.checks, cenv.checks):
                    fa = arr._obj(arr.asarray(a)).reshape(-1)
                    ca = np.asarray(ca).reshape(-1)
                    if ca.size != fa.size:
                        bad = lab + " size"
                        break
                    sc = max(np.max(np.abs(ca), initial=0), np.max(np.abs(np.asarray(cb)), initial=0), 1e-8 * gmax) or 1.0
                    try:
                        for x, y in zip(fa, ca):
                            if not abs(ev(x) - complex(y)) <= 1e-6 * sc + 1e-14:
                                bad = f"{lab}: {ev(x)} vs {y}"
                                break
                    except (OverflowError, ZeroDivisionError, ValueError, Unsupported) as e:
                        bad = None
                        break
                    if bad:
                        break
            else:
                bad = "different number of observations"
            if bad:
                res["inconclusive"].append("encoding mismatch: " + bad)
            else:
                stats["validated"] += 1
            if len(res["samples"]) < 1:
                res["samples"].append({"harness": hname, "case": _js(case), "point": _short(cenv.values), "observations": len(env.checks)})
            past.append(dict(cenv.values))
        if not res["violations"] and not res["inconclusive"] and time.time() - t0 < HISTORY_S:
            histories(prop, h, ci, tier, case, stats, res, rnd, seed)
        if stats["reached"] == 0 and not res["violations"] and not res["inconclusive"]:
            res["inconclusive"].append("vacuous: no obligation reached")
    except Timeout:
        res["inconclusive"].append(f"time limit {tlimit}s")
    except HarnessApi as e:
        res["inconclusive"].append("api: " + str(e))
    except Exception as e:  # noqa: BLE001
        res["inconclusive"].append("engine: " + _exc(e))
        if os.environ.get("SYMX_TRACE"):
            traceback.print_exc(file=sys.stderr)
    finally:
        signal.alarm(0)
        seen.watch(False)
        arr.uninstall()
    res["functions"] = sorted(seen.got)
    res["wall"] = time.time() - t0
    return res


def _has_real_pc(ex):
    # number of real-valued branch decisions is unknown; be conservative: any boolean branch or assumption
    return any(isinstance(x, bool) for x in ex.trace) or ex.assumptions > 0


def _js(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def _short(vals):
    return {k: vals[k] for k in list(vals)[:24]}


def histories(prop, h, ci, tier, case, stats, res, rnd, seed):
    """The same call again with some or all of its inputs replaced: what came before must not matter.

    Every obligation of the later calls goes to the solver for all values of both sets of inputs."""
    from symx import arr
    from symx.core import Explorer, PathAbort, State
    from symx.env import SymEnv, Violation, group

    ex = Explorer(new_stats())
    t0 = time.time()
    n = 0
    while ex.worklist and n < 3 and time.time() - t0 < HISTORY_S:
        ex.start(ex.worklist.pop(0))
        State.ctx = ex
        viol = None
        arr.install()
        done = [None]
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                import numpy as np

                with np.errstate(all="ignore"):
                    env = SymEnv(case, ex, ex.stats)
                    h.fn(env, **case)
                    gs = list(dict.fromkeys(group(v.name) for v in State.reg.vars if v.is_input and v.kind == "real"))
                    for g in (gs[:4] if len(gs) > 1 else []) + (["*"] if gs else []):
                        State.random = State.text = None
                        env = SymEnv(case, ex, ex.stats)
                        env.rename = g
                        done.append(g)
                        h.fn(env, **case)
        except PathAbort:
            continue
        except Violation as v:
            viol = v
        except Exception as e:  # noqa: BLE001
            viol = Violation("exception", _exc(e), None)
        finally:
            arr.uninstall()
            State.random = State.text = None
        n += 1
        stats["histories"] += len(done) - 1
        stats["queries"] += ex.stats["queries"]
        stats["solver_s"] += ex.stats["solver_s"]
        ex.stats["queries"] = ex.stats["solver_s"] = 0
        if viol is None:
            continue
        vals = dict(viol.values or env.any_model() or {})
        for v in State.reg.vars:
            if v.is_input and v.kind == "real" and (v.name not in vals or not _has_real_pc(ex)):
                vals[v.name] = round(rnd.uniform(v.lo, v.hi), 6)
        seq = []
        for g in done:
            one = {k: v for k, v in vals.items() if not k.endswith("'")}
            for k in list(one):
                if g is not None and g in ("*", group(k)) and k + "'" in vals:
                    one[k] = vals[k + "'"]
            seq.append(one)
        rep = replay(prop, h.name, ci, tier, case, seq[-1], [(viol.label, viol.detail)], seq[:-1])
        if rep is not None:
            res["violations"].append({"label": viol.label, "detail": f"{viol.detail} (after a call with other inputs)", "values": _short(vals), "replay": rep, "symbolic": str(viol)})
            return


def replay(prop, hname, ci, tier, case, vals, fails, before=()):
    """Re-run the counterexample in a fresh interpreter that never installs the engine."""
    REPLAYS.mkdir(parents=True, exist_ok=True)
    p = REPLAYS / f"{prop}-{hname}-{ci}{'-history' if before else ''}.json"
    p.write_text(json.dumps({"property": prop, "harness": hname, "case_index": ci, "tier": tier, "case": _js(case), "before": list(before), "values": vals, "failures": [list(map(str, f)) for f in fails]}, indent=1))
    r = subprocess.run([sys.executable, "-m", "symx.replay", str(p)], cwd=ROOT, capture_output=True, text=True, timeout=300, check=False,
                       env={**os.environ, "SYMX_REPO": str(REPO)})
    return os.path.relpath(p, ROOT) if r.returncode == 1 else None


def known_findings(prop):
    if not KNOWN.exists():
        return []
    return [k for k in json.loads(KNOWN.read_text())["known"] if k["property"] == prop]


def matches(k, v, r):
    if k["harness"] != r["harness"]:
        return False
    if "case" in k and any(_js(r["case"]).get(a) != b and list(r["case"].get(a) or []) != b for a, b in k["case"].items()):
        return False
    return re.search(k.get("label", ""), v["label"]) is not None and re.search(k.get("detail", ""), v["detail"]) is not None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    deadline = t0 + (780 if a.tier == "quick" else 6 * 3600)
    tlimit = 240 if a.tier == "quick" else 3000
    try:
        mod, hs = load(a.prop)
    except Exception as e:  # noqa: BLE001
        print("cannot load the harnesses:", _exc(e))
        traceback.print_exc()
        # every import of the package failing is a build error, not a verdict
        return 2
    tasks = [(a.prop, h.name, i, a.tier, tlimit, seed) for h in hs if not a.only or re.search(a.only, h.name) for i in range(len(h.all_cases(a.tier)))]
    results = []
    skipped = 0
    ctx = mp.get_context("fork")
    with ctx.Pool(min(a.jobs, len(tasks)), maxtasksperchild=40) as pool:
        pend = [(t, pool.apply_async(run_case, (t,))) for t in tasks]
        for t, p in pend:
            try:
                results.append(p.get(timeout=max(1, deadline - time.time())))
                if results[-1]["violations"] and os.environ.get("SYMX_FAIL_FAST"):
                    break
            except mp.TimeoutError:
                skipped += 1
            except Exception as e:  # noqa: BLE001
                results.append({"harness": t[1], "case": None, "ci": t[2], "stats": new_stats(), "violations": [], "inconclusive": ["worker: " + _exc(e)], "samples": [], "wall": 0})
        pool.terminate()
    tot = new_stats()
    for r in results:
        for k, v in r["stats"].items():
            tot[k] += v
    known = known_findings(a.prop)
    viols, hits = [], []
    for r in results:
        for v in r["violations"]:
            k = next((k for k in known if matches(k, v, r)), None)
            (hits if k else viols).append((r, v, k))
    inconc = [(r["harness"], _js(r["case"]), x) for r in results for x in r["inconclusive"]]
    if skipped:
        inconc.append(("*", None, f"{skipped} cases not reached within the time budget"))
    decided = sum(1 for r in results if not r["inconclusive"] and not r["violations"])
    targets = sorted({t for h in hs for t in h.targets})
    per = {}
    for r in results:
        d = per.setdefault(r["harness"], {"cases": 0, "paths": 0, "obligations": 0, "queries": 0, "wall_s": 0.0})
        d["cases"] += 1
        for k in ("paths", "obligations", "queries"):
            d[k] += r["stats"][k]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["queries"], "traces_validated_against_impl": tot["validated"],
            "samples": [s for r in results for s in r["samples"]][:4],
            "explanation": "bounded symbolic execution of the repository's own functions; states = symbolic execution paths completed, transitions = solver queries "
            "(branch feasibility + negated obligations), traces_validated_against_impl = paths on which the symbolic result was evaluated at a point and compared with an unpatched concrete run",
            "harness_cases": len(results), "harness_cases_decided": decided,
            "obligation_entries_sent_to_solver": tot["obligations"], "obligation_entries_syntactically_equal": tot["normalised"],
            "obligation_sites_reached": tot["reached"], "repeated_calls_with_other_inputs": tot["histories"], "solver_branches": tot["branches"], "solver_time_s": round(tot["solver_s"], 3), "solver_unknown": tot["unknown"],
            "functions_encoded": sorted({f for r in results for f in r.get("functions", ()) if ".<" not in f}), "harness_targets": targets, "per_harness": per, "bounds": getattr(mod, "BOUNDS", ""), "stubs": getattr(mod, "STUBS", []),
            "inconclusive": [list(map(str, x)) for x in inconc][:50],
            "known_findings_hit": [f"{r['harness']}:{r['ci']}" for r, _v, _k in hits],
        },
        "assumptions": ["coefficients are IEEE doubles computed by the real numpy/scipy kernels; results are compared with relative tolerance 1e-6",
                        "data inputs range over [-1,1] per real component unless the harness says otherwise (results are homogeneous in scale where linear)",
                        *getattr(mod, "ASSUMPTIONS", [])],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    EVIDENCE.mkdir(exist_ok=True)
    if not a.only:
        (EVIDENCE / f"{a.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{a.prop} [{a.tier}] cases={len(results)} decided={decided} paths={tot['paths']} queries={tot['queries']} obligations={tot['obligations']}"
          f" equal={tot['normalised']} validated={tot['validated']} solver={tot['solver_s']:.1f}s wall={time.time() - t0:.1f}s")
    for k in known:
        if any(kk is k for _r, _v, kk in hits):
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for x in inconc[: None if a.v else 12]:
        print("INCONCLUSIVE", x[0], x[1], x[2][:400])
    if a.v:
        for n, d in per.items():
            print("  ", n, d)
    for r, v, _k in viols[: None if a.v else 5]:
        print(f"  violated: {r['harness']} case={_js(r['case'])} {v['label']}: {v['detail'][:500]}")
        print(f"  inputs: {v['values']}")
        print(f"VIOLATION property={a.prop} replay={v['replay']}")
    if viols:
        return 1
    if a.strict and inconc:
        return 3
    if decided + len(hits) < 0.5 * max(1, len(tasks)):
        print("too little could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
