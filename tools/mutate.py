"""Mutation testing of the checks (development aid; no check uses it).

tools/mutate.py OUT.jsonl [--files regex] [--per N] [--seed N] [--workers N]
Mutates functions that the checks execute, and runs the checks that execute them, cheapest first, until one kills it.
"""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from threading import Lock

V = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
PKG = "surface_potential_analysis"
SKIP = {"range", "isinstance", "len", "print"}


def variants(node):
    """(description, replacement) of an expression"""
    c = copy.deepcopy
    if isinstance(node, ast.Constant) and type(node.value) in (int, float) :
        v = node.value
        for w in ({0: [1, -1], 1: [0, 2], -1: [0, -2]}.get(v, [v + 1, v * 2]) if type(v) is int else [v * 2]):
            yield f"{v}->{w}", ast.Constant(w)
    if isinstance(node, ast.Constant) and type(node.value) is complex:
        yield "conj const", ast.Constant(-node.value)
    if isinstance(node, ast.Constant) and type(node.value) is bool:
        yield "not", ast.Constant(not node.value)
    if isinstance(node, ast.BinOp):
        for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div), (ast.Div, ast.Mult), (ast.FloorDiv, ast.Mult), (ast.Mod, None), (ast.Pow, ast.Mult), (ast.MatMult, "swap")):
            if isinstance(node.op, a):
                n = c(node)
                if b is None:
                    yield "drop %", n.left
                elif b == "swap":
                    n.left, n.right = n.right, n.left
                    yield "swap @", n
                else:
                    n.op = b()
                    yield f"{a.__name__}->{b.__name__}", n
        if not isinstance(node.op, (ast.Add, ast.Sub, ast.BitOr)):
            yield "left operand only", c(node.left)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
        yield "drop unary", c(node.operand)
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        n = c(node)
        n.ops = [m[type(node.ops[0])]()]
        yield "compare", n
    if isinstance(node, ast.BoolOp):
        n = c(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "and/or", n
    if isinstance(node, ast.IfExp):
        yield "if: body", c(node.body)
        yield "if: else", c(node.orelse)
    if isinstance(node, ast.Attribute) and node.attr == "T":
        yield "drop .T", c(node.value)
    if isinstance(node, ast.Call):
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in ("conj", "real", "abs", "sqrt", "array", "round", "swapaxes", "moveaxis", "transpose", "roll", "sort", "argsort", "reversed", "sorted", "cumsum", "ifftshift", "fftshift", "flip") and node.args:
            yield f"drop {name}", c(node.args[0])
        if name in ("copy", "swapaxes", "transpose", "conj") and isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id == "np"):
            yield f"drop .{name}", c(f.value)
        alt = {"fft": "ifft", "ifft": "fft", "fftn": "ifftn", "ifftn": "fftn", "zeros": "ones", "max": "min", "min": "max", "argmax": "argmin", "argmin": "argmax", "real": "imag", "imag": "real", "floor": "ceil", "sin": "cos", "cos": "sin", "ones_like": "zeros_like", "zeros_like": "ones_like", "sum": "max", "maximum": "minimum", "minimum": "maximum", "any": "all", "all": "any"}
        if name in alt and isinstance(f, ast.Attribute):
            n = c(node)
            n.func.attr = alt[name]
            yield f"{name}->{alt[name]}", n
        if name not in SKIP:
            for i, k in enumerate(node.keywords):
                if k.arg and k.arg not in ("dtype", "strict"):
                    n = c(node)
                    del n.keywords[i]
                    yield f"drop {k.arg}=", n
            if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
                n = c(node)
                n.args[0], n.args[1] = n.args[1], n.args[0]
                yield "swap args", n
                if len(node.args) >= 3:
                    n = c(node)
                    n.args[-1], n.args[-2] = n.args[-2], n.args[-1]
                    yield "swap last args", n
    if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) >= 2 and isinstance(node.ctx, ast.Load):
        n = c(node)
        n.elts[0], n.elts[1] = n.elts[1], n.elts[0]
        yield "swap elements", n
    if isinstance(node, ast.Constant) and isinstance(node.value, str) and "->" in node.value and "," in node.value:
        a, b = node.value.split("->")
        p = a.split(",")
        if len(p[0]) >= 2:
            p[0] = p[0][1] + p[0][0] + p[0][2:]
            yield "einsum", ast.Constant(",".join(p) + "->" + b)
    if isinstance(node, ast.Starred):
        return


def is_doc(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)


def mutants(path, mod, wanted):
    src = path.read_text()
    tree = ast.parse(src)
    out = []

    def visit_fn(fn, qual):
        def walk(node, getset, st):
            for d, rep in variants(node):
                out.append((qual, st.lineno, d, ast.unparse(node)[:80], getset, rep))
            kids(node, st)

        def kids(node, st):
            for field, val in ast.iter_fields(node):
                if field in ("annotation", "returns", "decorator_list", "ctx", "args") and isinstance(node, (ast.FunctionDef, ast.arg)):
                    continue
                if isinstance(val, ast.expr):
                    walk(val, (node, field, None), st)
                elif isinstance(val, list):
                    for i, v in enumerate(val):
                        if isinstance(v, ast.expr):
                            walk(v, (node, field, i), st)
                        elif isinstance(v, ast.AST) and not isinstance(v, ast.stmt):
                            kids(v, st)
                elif isinstance(val, ast.AST) and not isinstance(val, ast.stmt):
                    kids(val, st)

        def stmts(body):
            for i, st in enumerate(body):
                if is_doc(st):
                    continue
                if isinstance(st, ast.FunctionDef):
                    stmts(st.body)
                    continue
                if isinstance(st, ast.AnnAssign):
                    if st.value is not None:
                        walk(st.value, (st, "value", None), st)
                    continue
                if isinstance(st, ast.AugAssign) or (isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
                    out.append((qual, st.lineno, "drop statement", ast.unparse(st)[:80], (body, None, i), ast.Pass()))
                if isinstance(st, ast.If):
                    out.append((qual, st.lineno, "if False", ast.unparse(st.test)[:80], (st, "test", None), ast.Constant(False)))
                    out.append((qual, st.lineno, "if True", ast.unparse(st.test)[:80], (st, "test", None), ast.Constant(True)))
                kids(st, st)
                for f in ("body", "orelse", "finalbody"):
                    if getattr(st, f, None) and isinstance(getattr(st, f), list):
                        stmts(getattr(st, f))

        stmts(fn.body)

    def scan(node, pre):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, ast.ClassDef):
                scan(x, f"{pre}.{x.name}")
            elif isinstance(x, ast.FunctionDef):
                if any(isinstance(d, ast.Name) and d.id == "overload" for d in x.decorator_list):
                    continue
                if f"{pre}.{x.name}" in wanted:
                    visit_fn(x, f"{pre}.{x.name}")

    scan(tree, mod)
    for qual, line, d, text, (node, field, i), rep in out:
        if field is None:
            old = node[i]
            node[i] = rep
        elif i is None:
            old = getattr(node, field)
            setattr(node, field, rep)
        else:
            old = getattr(node, field)[i]
            getattr(node, field)[i] = rep
        try:
            ast.fix_missing_locations(tree)
            code = ast.unparse(tree)
            compile(code, "x", "exec")
        except Exception:  # noqa: BLE001
            code = None
        if field is None:
            node[i] = old
        elif i is None:
            setattr(node, field, old)
        else:
            getattr(node, field)[i] = old
        if code:
            yield qual, line, d, text, code


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=".")
    ap.add_argument("--per", type=int, default=1000)
    ap.add_argument("--max-props", type=int, default=7)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    ev = {}
    for f in sorted((V / "evidence").glob("C*.json")):
        d = json.loads(f.read_text())
        ev[d["property"]] = (d["wall_s"], set(d["coverage"]["functions_encoded"]), set(d["coverage"]["harness_targets"]))
    props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
    anchors = {}
    for p in props:
        for f in p["anchors"]["files"]:
            anchors.setdefault(f, []).append(p["id"])
    allf = set().union(*(e[1] for e in ev.values()))
    jobs = []
    for path in sorted((REPO / PKG).rglob("*.py")):
        rel = str(path.relative_to(REPO / PKG))
        if not re.search(a.files, rel):
            continue
        mod = rel[:-3].replace("/", ".")
        ms = list(mutants(path, mod, allf))
        by = {}
        for m in ms:
            by.setdefault(m[0], []).append(m)
        for q, l in by.items():
            rnd.shuffle(l)
            use = sorted((p for p in ev if q in ev[p][1]), key=lambda p: ev[p][0])
            anc = [p for p in anchors.get(f"{PKG}/{rel}", []) if p in use]
            use = (anc + [p for p in use if p not in anc])[: max(len(anc), a.max_props)]
            use = sorted(use, key=lambda p: (ev[p][0] > 25, p not in anc, ev[p][0]))
            for m in l[: a.per]:
                jobs.append((rel, m, use))
    print(len(jobs), "mutants")
    if a.count:
        return
    rnd.shuffle(jobs)
    done = set()
    if Path(a.out).exists():
        for x in Path(a.out).read_text().splitlines():
            r = json.loads(x)
            done.add((r["fn"], r["line"], r["what"], r["text"]))
    lock, free = Lock(), list(range(a.workers))
    for i in free:
        w = Path(f"/tmp/mut/w{i}")
        shutil.rmtree(w, ignore_errors=True)
        w.mkdir(parents=True)
        shutil.copytree(REPO / PKG, w / PKG)

    def run(job):
        rel, (q, line, d, text, code), use = job
        if (q, line, d, text) in done:
            return
        with lock:
            i = free.pop()
        w = Path(f"/tmp/mut/w{i}")
        f = w / PKG / rel
        keep = f.read_text()
        res, tried = "survived", []
        try:
            f.write_text(code)
            for p in use:
                env = {**os.environ, "SYMX_REPO": str(w), "SYMX_EVIDENCE": f"/tmp/mut/e{i}", "SYMX_FAIL_FAST": "1", "PYTHONPATH": str(w), "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-m", "symx.run", p, "--jobs", "1"], cwd=V, env=env, capture_output=True, text=True, timeout=420)
                    tried.append((p, r.returncode))
                    if r.returncode == 1:
                        res = "killed by " + p
                        break
                    if r.returncode:
                        res = f"rc {r.returncode} {p}"
                        if r.returncode == 2 and "cannot load" in r.stdout:
                            break
                except subprocess.TimeoutExpired:
                    tried.append((p, "timeout"))
        finally:
            f.write_text(keep)
            with lock:
                free.append(i)
                with open(a.out, "a") as o:
                    o.write(json.dumps({"fn": q, "line": line, "what": d, "text": text, "result": res, "tried": tried}) + "\n")

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(run, jobs))


main()
