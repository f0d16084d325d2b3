"""Harness environment: one harness body, two interpretations.

SymEnv   inputs are symbolic, the repo's functions run on SymArrays, obligations go to z3.
ConcEnv  inputs are the numbers of a solver model, the repo's functions run unpatched.
"""
from __future__ import annotations

import math
import re
import time

import numpy as np
import z3

from . import arr
from .core import Evaluator, Explorer, PathAbort, S, State, SymBool, Unsupported, is_num, num, to_z3, zq

TOL = 1e-6


class Violation(Exception):
    def __init__(self, label, detail, values):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail, self.values = label, detail, values


def group(name):
    """inputs that belong together: the letters a name starts with"""
    return re.match(r"[^0-9.']*", name).group()


def _only_ints(e):
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return e.sort() != z3.RealSort()
    return all(_only_ints(c) for c in e.children())


class BaseEnv:
    sym = False

    def __init__(self, case):
        self.case = case
        self.reached = 0
        self.log = []

    # shared sugar
    def cvec(self, name, *shape):
        n = int(np.prod(shape, dtype=int))
        return self._pack([self.cplx(f"{name}{i}") for i in range(n)], shape, "c")

    def rvec(self, name, *shape, lo=-1.0, hi=1.0):
        n = int(np.prod(shape, dtype=int))
        return self._pack([self.real(f"{name}{i}", lo, hi) for i in range(n)], shape, "f")

    def cplx(self, name, lo=-1.0, hi=1.0):
        return self.real(name + ".re", lo, hi) + 1j * self.real(name + ".im", lo, hi)

    def hermitian(self, name, n):
        m = self._empty(n, n)
        for i in range(n):
            m[i, i] = self.real(f"{name}{i}{i}") + 0j
            for j in range(i):
                m[i, j] = self.cplx(f"{name}{i}_{j}")
                m[j, i] = np.conj(m[i, j])
        return m

    def symmetric(self, name, n):
        m = self._empty(n, n, "f")
        for i in range(n):
            for j in range(i + 1):
                m[i, j] = m[j, i] = self.real(f"{name}{i}_{j}")
        return m

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.index(name, len(options))]


class SymEnv(BaseEnv):
    sym = True

    def __init__(self, case, ex: Explorer, stats):
        super().__init__(case)
        self.ex = ex
        self.stats = stats
        self.checks = []  # (label, lhs, rhs) for validation
        self.undecided = []
        self.rename = None  # group of inputs that differ from those of the call before ("*": all of them)

    # ---- inputs ------------------------------------------------------------
    def real(self, name, lo=-1.0, hi=1.0):
        if self.rename is not None and self.rename in ("*", group(name)):
            name = name + "'"
        v = State.reg.by_name.get(name)
        if v is None:
            v = State.reg.new(name, "real", lo, hi, is_input=True)
            if lo > 0 or hi < 0:
                v.nonzero = True
        return S.var(v)

    def int(self, name, lo, hi):
        v = State.reg.by_name.get(name)
        if v is None:
            v = State.reg.new(name, "int", lo, hi, is_input=True)
        return S.var(v)

    def index(self, name, n):
        return self.int(name, 0, n - 1).__index__()

    def cint(self, name, lo, hi):
        """A symbolic int, concretised by the solver (all values explored)."""
        return lo + self.index(name, hi - lo + 1)

    def _pack(self, items, shape, pd):
        o = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            o[i] = x
        return arr.SymArray(o.reshape(shape), pd)

    def _empty(self, n, m, pd="c"):
        return arr.zeros((n, m), dtype=complex if pd == "c" else float)

    def array(self, nested):
        return arr.array(nested)

    def text(self):
        """from here on symbols written as text read back as symbols (float, env.number)"""
        from .core import State

        State.text = []

    def number(self, token):
        return arr.text_number(token)

    def concrete_linalg(self):
        return None

    # ---- assumptions & obligations --------------------------------------------
    def assume(self, cond):
        self.ex.assume(cond)

    def eq(self, a, b, label="equal", tol=TOL, scale=None, floor=1e-3):
        self.reached += 1
        a, b = arr.asarray(a), arr.asarray(b)
        if a.shape != b.shape:
            raise Violation(label, f"shape {a.shape} != {b.shape}", self.any_model())
        self.checks.append((label, a, b))
        fa, fb = arr._obj(a).reshape(-1), arr._obj(b).reshape(-1)
        res, mx = [], 0.0
        for x, y in zip(fa, fb):
            x, y = S.lift(x), S.lift(y)
            for c in x.t.values():
                mx = max(mx, abs(c)) if c == c else mx
            for c in y.t.values():
                mx = max(mx, abs(c)) if c == c else mx
            if x is not y:
                res.append(x - y)
        mx = max(mx, floor)
        if scale is not None:
            mx = scale
        if mx == 0:
            mx = 1.0
        if not math.isfinite(mx):
            mx = 1.0
        self.zero(res, mx, label, tol)

    def zero(self, res, scale, label, tol):
        ex = self.ex
        items = []
        nonfinite = False
        for r in res:
            if not r.t:
                self.stats["normalised"] += 1
                continue
            for c in r.t.values():
                c = complex(c)
                if not (math.isfinite(c.real) and math.isfinite(c.imag)):
                    nonfinite = True
            items.append(r)
        if nonfinite:
            raise Violation(label, "non-finite result", self.any_model())
        if not items:
            return
        self.stats["obligations"] += len(items)
        # 1. linear abstraction: every monomial an independent bounded variable
        s = z3.Solver()
        s.set("timeout", 20000)
        mz: dict = {}
        ok_linear = True
        disj = []
        dropped = 0
        total_slack = 0.0
        nnoise = 0
        for r in items:
            re, im, lin = [], [], True
            slack = 0.0
            for k, c in r.t.items():
                B = self.mono_bound(k)
                c = complex(c) / scale
                if B is None:
                    if abs(c) < 1e-12:
                        dropped += 1
                        continue
                    lin = False
                    break
                if abs(c) * B < 1e-12:
                    slack += abs(c) * B  # rounding noise: one arbitrary bounded term per residual
                    continue
                v = mz.get(k)
                if v is None:
                    i = len(mz)
                    lo = 0 if self.mono_nonneg(k) else -B
                    a = z3.Real(f"m{i}")
                    s.add(a >= zq(float(lo)), a <= zq(float(B)))
                    b = None
                    if k[1]:
                        b = z3.Real(f"n{i}")
                        s.add(b >= zq(float(-B)), b <= zq(float(B)))
                    v = mz[k] = (a, b)
                if v[1] is None:
                    if c.real:
                        re.append(zq(c.real) * v[0])
                    if c.imag:
                        im.append(zq(c.imag) * v[0])
                else:
                    re.append(zq(c.real) * v[0] - zq(c.imag) * v[1])
                    im.append(zq(c.real) * v[1] + zq(c.imag) * v[0])
            if lin and slack > 0 and (re or im or slack > 1e-3 * tol):
                w = z3.Real(f"noise{nnoise}")
                nnoise += 1
                s.add(w >= zq(-slack), w <= zq(slack))
                re.append(w)
                im.append(w)
            elif lin and slack > 0:
                total_slack = max(total_slack, slack)
            if not lin:
                ok_linear = False
                break
            for t in (re, im):
                if t:
                    e = z3.Sum(t)
                    disj += [e > zq(tol), e < zq(-tol)]
        if ok_linear:
            if total_slack > 0:
                # the residuals that consist of rounding noise only, all bounded by the largest of them
                w = z3.Real("noise")
                s.add(w >= zq(-total_slack), w <= zq(total_slack))
                disj += [w > zq(tol), w < zq(-tol)]
            if not disj:
                return
            s.add(z3.Or(disj))
            if self.timed(s) == z3.unsat:
                self.stats["unsat"] += 1
                return
        # 2. exact: with the definitions of all atoms and the path condition
        cleared = [self.clear(r.scale(1 / scale)) for r in items]
        live = [r for r in cleared if any(abs(complex(c)) > 1e-10 for c in r.t.values())]
        if not live and not ok_linear:
            # every residual vanishes identically once multiplied by its (nonzero) denominators
            self.stats["unsat"] += 1
            return
        for big in (1e-2, 1e-4, tol):
            vals = self.exact_query(items, scale, big)
            if vals is not None:
                break
        if vals is None:
            self.stats["unsat"] += 1
            return
        if vals == "unknown":
            vals = self.point_search(items, scale, tol)
            if vals is None:
                self.undecided.append(label)
                return
        raise Violation(label, "solver found inputs with a difference", vals)

    def exact_query(self, items, scale, tol):
        ex = self.ex
        ex.solver.push()
        try:
            ex.solver.set("timeout", 8000)
            saved = set(ex.declared)
            inv, exps = dict(ex.inverses), dict(ex.exps)
            disj = []
            try:
                for r in items:
                    r = r.scale(1 / scale)
                    for part in (r.real_part(), r.imag_part()):
                        p = S({k: c for k, c in part.t.items() if abs(complex(c)) > 1e-13})
                        if p.t:
                            e = to_z3(p)
                            e = z3.ToReal(e) if e.sort() == z3.IntSort() else e
                            disj += [e > zq(tol), e < zq(-tol)]
                if not disj:
                    return None
                ex.solver.add(z3.Or(disj))
                r = ex.check()
                if r == z3.unsat:
                    return None
                if r == z3.sat:
                    return ex.model_values(ex.solver.model())
                return "unknown"
            finally:
                ex.declared, ex.inverses, ex.exps = saved, inv, exps
        finally:
            ex.solver.pop()
            ex.solver.set("timeout", ex.timeout_ms)

    def point_search(self, items, scale, tol):
        """z3 gave up on a nonlinear query: look for a witness (only ever used to find a
        counterexample, which is then replayed; never to conclude that a property holds)."""
        import random

        rnd = random.Random(7)
        base = self.any_model()
        for _ in range(40):
            vals = dict(base)
            for v in State.reg.vars:
                if v.is_input and v.kind == "real" and v.name not in vals:
                    vals[v.name] = rnd.uniform(v.lo, v.hi)
            ev = Evaluator(vals)
            try:
                if any(abs(ev(r)) / scale > 10 * tol for r in items):
                    return vals
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
        return None

    def clear(self, r):
        """Multiply a residual by its alias denominators and substitute their definitions."""
        reg = State.reg
        for _ in range(6):
            neg = {}
            for m, _e in r.t:
                for v, p in m:
                    if p < 0 and reg.vars[v].defn is not None:
                        neg[v] = min(neg.get(v, 0), p)
            if not neg:
                break
            for v, p in neg.items():
                var = reg.vars[v]
                f = S({(((v, -p),), ()): 1})
                r = r * f
                if var.defn[0] == "alias":
                    out = S({})
                    for (m, e), c in r.t.items():
                        q = dict(m).get(v, 0)
                        rest = tuple((a, b) for a, b in m if a != v)
                        t = S({(rest, e): c})
                        for _i in range(max(q, 0)):
                            t = t * var.defn[1]
                        if q < 0:
                            t = t * S({(((v, q),), ()): 1})
                        out = out + t
                    r = out
        return r

    def mono_bound(self, k):
        B = 1.0
        for v, p in k[0]:
            b = self.var_bound(v)
            if b is None or p < 0:
                return None
            B *= b ** p
        for m, re, _im in k[1]:
            if re != 0:
                mb = self.mono_bound((m, ()))
                if mb is None or abs(re) * mb > 300:
                    return None
                B *= math.exp(abs(re) * mb)
        return max(B, 1e-300)

    def var_bound(self, vid):
        v = State.reg.vars[vid]
        if v.lo is not None and v.hi is not None:
            return max(abs(v.lo), abs(v.hi))
        if v.defn is not None and v.defn[0] in ("sqrt", "alias"):
            tot = 0.0
            for k, c in v.defn[1].t.items():
                b = self.mono_bound(k)
                if b is None:
                    return None
                tot += abs(complex(c)) * b
            return math.sqrt(tot) if v.defn[0] == "sqrt" else tot
        if v.defn is not None and v.defn[0] == "floordiv":
            return None
        return None

    def mono_nonneg(self, k):
        return not k[1] and all(p % 2 == 0 or S._nonneg(v) for v, p in k[0])

    def timed(self, s):
        self.stats["queries"] += 1
        t = time.perf_counter()
        r = s.check()
        self.stats["solver_s"] += time.perf_counter() - t
        return r

    def true(self, cond, label="holds"):
        """cond must hold on every input of this path."""
        self.reached += 1
        if isinstance(cond, (np.ndarray,)) and cond.ndim:
            conds = list(cond.reshape(-1))
        else:
            conds = [cond]
        for c in conds:
            if isinstance(c, S):
                c = c != 0
            if isinstance(c, SymBool):
                self.stats["obligations"] += 1
                self.ex.solver.push()
                self.ex.solver.add(z3.Not(c.e))
                r = self.ex.check()
                vals = self.ex.model_values(self.ex.solver.model()) if r == z3.sat else None
                self.ex.solver.pop()
                if r == z3.sat:
                    raise Violation(label, "solver found inputs for which it fails", vals)
                if r == z3.unknown:
                    self.undecided.append(label)
                else:
                    self.stats["unsat"] += 1
            elif not c:
                raise Violation(label, "fails", self.any_model())

    def ge(self, a, b, label="ge", tol=1e-9):
        for x, y in zip(*[arr._obj(v).reshape(-1) for v in np.broadcast_arrays(arr._obj(arr.asarray(a)), arr._obj(arr.asarray(b)))]):
            d = S.lift(x) - S.lift(y)
            self.reached += 1
            if d.is_const():
                if complex(d.cval()).real < -tol:
                    raise Violation(label, "inequality fails", self.any_model())
                continue
            if self.sos(d):
                self.stats["unsat"] += 1
                continue
            self.true(d >= -tol, label)

    def sos(self, d):
        """Syntactically nonnegative: even monomials with nonnegative coefficients."""
        return all(self.mono_nonneg(k) and complex(c).real >= 0 and abs(complex(c).imag) < 1e-14 for k, c in d.t.items())

    def raises(self, exc, fn, label="raises"):
        self.reached += 1
        try:
            fn()
        except exc:
            return
        raise Violation(label, "no exception", self.any_model())

    def any_model(self):
        r = self.ex.check()
        if r == z3.sat:
            return self.ex.model_values(self.ex.solver.model())
        if r == z3.unknown:  # the case distinctions alone
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(*[a for a in self.ex.solver.assertions() if _only_ints(a)])
            if s.check() == z3.sat:
                return {k: v for k, v in self.ex.model_values(s.model()).items() if isinstance(v, int)}
        return {} if r == z3.unknown else None  # None: no input takes this path

    # expected values ------------------------------------------------------------
    def const(self, x):
        return x


class ConcEnv(BaseEnv):
    def __init__(self, case, values, seed=0):
        super().__init__(case)
        self.values = dict(values)
        import random

        self.rnd = random.Random(seed)
        self.checks = []
        self.failures = []

    def real(self, name, lo=-1.0, hi=1.0):
        if name not in self.values:
            self.values[name] = round(self.rnd.uniform(lo, hi), 6)
        return float(self.values[name])

    def int(self, name, lo, hi):
        if name not in self.values:
            self.values[name] = lo
        return int(self.values[name])

    def index(self, name, n):
        return self.int(name, 0, n - 1)

    def cint(self, name, lo, hi):
        return lo + self.index(name, hi - lo + 1)

    def _pack(self, items, shape, pd):
        return np.array(items, dtype=np.complex128 if pd == "c" else np.float64).reshape(shape)

    def _empty(self, n, m, pd="c"):
        return np.zeros((n, m), dtype=np.complex128 if pd == "c" else np.float64)

    def array(self, nested):
        return np.array(nested)

    def text(self):
        pass

    def number(self, token):
        return float(token)

    def assume(self, cond):
        if not cond:
            raise PathAbort

    def eq(self, a, b, label="equal", tol=TOL, scale=None, floor=1e-3):
        self.reached += 1
        a, b = np.asarray(a), np.asarray(b)
        self.checks.append((label, a, b))
        if a.shape != b.shape:
            self.failures.append((label, f"shape {a.shape} != {b.shape}"))
            return
        if a.size == 0:
            return
        mx = scale if scale is not None else max(np.max(np.abs(a)), np.max(np.abs(b)), floor)
        d = np.max(np.abs(a - b))
        lim = 0.3 * tol * (mx if mx > 0 else 1.0)
        if not np.isfinite(d) or d > lim:
            self.failures.append((label, f"difference {d} (scale {mx}): got {np.array2string(np.ravel(a)[:6])} expected {np.array2string(np.ravel(b)[:6])}"))

    def true(self, cond, label="holds"):
        self.reached += 1
        if not np.all(cond):
            self.failures.append((label, "condition false"))

    def ge(self, a, b, label="ge", tol=1e-9):
        self.reached += 1
        if not np.all(np.real(a) >= np.real(b) - tol):
            self.failures.append((label, f"{a} >= {b} fails"))

    def raises(self, exc, fn, label="raises"):
        self.reached += 1
        try:
            fn()
        except exc:
            return
        self.failures.append((label, "no exception"))


__all__ = ["ConcEnv", "SymEnv", "Violation", "Unsupported", "is_num", "num"]
