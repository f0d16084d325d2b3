"""C26: equations handed to external solvers (qutip, sse_solver_py)."""
from __future__ import annotations

import types

import numpy as np

from symx.harness import harness

from .c20 import HBAR, time_basis
from .h import *  # noqa: F403
from .spectral import Spectral

BOUNDS = "2-3 states, 0-2 collapse operators (one of fixed entries, others symbolic multiples), 1-3 times, steps 1-3, 1-3 trajectories; all complex initial states, hamiltonians, returned trajectories and total times"
STUBS = ["qutip.sesolve / ssesolve and sse_solver_py.solve_sse / solve_sse_banded replaced by recorders returning arbitrary symbolic states", "the random choice of an eigenstate: every choice explored"]
T = ("dynamics.stochastic_schrodinger.solve.*", "dynamics.schrodinger.solve.solve_schrodinger_equation")
R_ = "surface_potential_analysis.dynamics.stochastic_schrodinger.solve"


class Q:
    """stand-in for qutip: d psi = -i H psi dt - sum (L* L / 2) psi dt + noise"""

    def __init__(self, answer):
        self.calls, self.answer = [], answer

    class Obj:
        def __init__(self, data):
            self.data = data

        def to(self, _fmt):
            return self

        def full(self):
            return self.data.reshape(len(self.data), -1)

    Qobj = Obj

    def ssesolve(self, H, psi0, tlist, sc_ops=(), e_ops=(), ntraj=1, options=None, **_k):
        self.calls.append(types.SimpleNamespace(H=H.data, psi=psi0.data, t=tlist, L=[o.data for o in sc_ops], n=ntraj, dt=(options or {}).get("dt")))
        return types.SimpleNamespace(states=[[self.Obj(s) for s in tr] for tr in self.answer(len(self.calls) - 1)])

    def sesolve(self, H, psi0, tlist, *_a, **_k):
        self.calls.append(types.SimpleNamespace(H=H.data, psi=psi0.data, t=tlist, L=[], n=1))
        return types.SimpleNamespace(states=[self.Obj(s) for s in self.answer(len(self.calls) - 1)[0]])


class Patched:
    def __init__(self, mod, **names):
        self.mod, self.names, self.old = mod, names, {}

    def __enter__(self):
        for k, v in self.names.items():
            self.old[k] = getattr(self.mod, k, self)
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            delattr(self.mod, k) if v is self else setattr(self.mod, k, v)


def collapse(env, count, n):
    """operators in units of sqrt(hbar), the first the largest (and not of unit norm)"""
    r = np.random.RandomState(n)
    out = []
    for i in range(count):
        m = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
        m /= np.linalg.norm(m)
        out.append(1.7 * m if i == 0 else m * env.real(f"l{i}", 0.2, 0.8))
    return out


def ops(ls, b):
    return [{"basis": tup(b, b), "data": (m * np.sqrt(HBAR)).reshape(-1)} for m in ls]


def same_equation(env, c, dt, H, L, psi, fdt):
    """per step of fdt: H dt / hbar and L L* dt / hbar"""
    env.eq(np.array(c.H) * dt, H * fdt, "hamiltonian over hbar")
    env.true(len(c.L) == len(L), "all collapse operators")
    for got, m in zip(c.L, L):
        got = env.array([list(q) for q in got]).reshape(-1)
        env.eq(np.outer(got, np.conj(got)) * dt, np.outer(m.reshape(-1), np.conj(m.reshape(-1))) * fdt, "collapse operator over the square root of hbar")
    env.eq(env.array(list(c.psi)), psi, "initial state")


@harness("C26", [{"n": 2}, {"n": 3}], [{"n": 4}], T)
def qutip(env, n):
    """equations solved by qutip"""
    import importlib

    from surface_potential_analysis.dynamics.schrodinger import solve as G

    R = importlib.import_module(R_)
    a = env.pick("basis", [("P", n), ("K", n)])
    b = B(a)
    tb, t = time_basis(env.pick("times", ["even", "full"]), env.pick("count", [1, 3]), env)
    k = env.pick("trajectories", [1, 2])
    nc = env.pick("operators", [None, 0, 1, 2])
    L = collapse(env, nc or 0, n)
    H, psi = env.hermitian("h", n), env.cvec("psi", n)
    h = {"basis": tup(b, b), "data": (H * HBAR).reshape(-1)}
    out = env.cvec("out", k, len(t), n)
    before = snap(psi, h["data"])
    q = Q(lambda _i: out)
    with Patched(R, qutip=q), Patched(G, qutip=q):
        r = R.solve_stochastic_schrodinger_equation({"basis": b, "data": psi}, tb, h, None if nc is None else ops(L, b), n_trajectories=k)
        c = q.calls[0]
        same_equation(env, c, 1.0, H, L, psi, 1.0)
        env.true(len(q.calls) == 1 and c.n == k, "all trajectories at once")
        env.eq(c.t, t, "times")
        env.true(c.dt is None or c.dt <= tb.fundamental_dt * (1 + 1e-9), "steps no coarser than those of the times")
        env.true(r["basis"][0][0].n == k and r["basis"][0][1] is tb, "trajectories and times")
        isbasis(env, r["basis"][1], a)
        env.true(r["data"].shape == (k * len(t) * n,), "flat")
        env.eq(r["data"], out.reshape(-1), "states by trajectory and time")
        r = G.solve_schrodinger_equation({"basis": b, "data": psi}, tb, h)
        c = q.calls[1]
        same_equation(env, c, 1.0, H, [], psi, 1.0)
        env.eq(c.t, t, "times")
        env.true(r["basis"][0] is tb and r["data"].shape == (len(t) * n,), "one state for every time")
        isbasis(env, r["basis"][1], a)
        env.eq(r["data"], out[0].reshape(-1), "states by time")
    unchanged(env, before, psi, h["data"])


@harness("C26", [{"n": 2}, {"n": 3}], [{"n": 4}], T)
def rust(env, n):
    """equations solved by sse_solver_py: n samples, step steps of dt between them"""
    import importlib

    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis

    R = importlib.import_module(R_)
    a, a1, a2 = env.pick("bases", [(("P", n),) * 3, (("K", n), ("P", n), ("P", n)), (("P", n), ("K", n), ("K", n))])
    b = B(a)
    m, step = env.pick("times", [(1, 1), (3, 1), (2, 3)])
    banded = env.pick("banded", [False, True])
    tt = 1.3 if banded else env.real("t", 0.5, 2.0)
    tb = EvenlySpacedTimeBasis(m, step, 0, tt)
    fdt = tt / (m * step)
    k, real = env.pick("trajectories", [(1, 1), (2, 3)])
    nc = env.pick("operators", [None, 1, 2])
    L = collapse(env, nc or 0, n)
    psi = env.cvec("psi", n)
    # away from zero: diagonals below the threshold are the subject of C20
    H = env.hermitian("h", n) + np.array([[2.0 + (i - j) * 2.0j + 0j for j in range(n)] for i in range(n)])
    kind = env.pick("hamiltonian", ["full", "imaginary", "sparse"]) if banded else "full"
    if kind == "imaginary":  # real diagonal, imaginary elsewhere
        H = env.array([[2.0 + np.real(H[i, j]) + 0j if i == j else 1j * np.imag(H[i, j]) for j in range(n)] for i in range(n)])
    if kind == "sparse":  # only the real diagonal
        H = env.array([[2.0 + np.real(H[i, j]) + 0j if i == j else 0j for j in range(n)] for i in range(n)])
    h = {"basis": tup(b, b), "data": (H * HBAR).reshape(-1)}
    out = env.cvec("out", k * m * n)
    calls = []

    def dense(state, ham, lst, cfg):
        calls.append((types.SimpleNamespace(psi=state, H=env.array([list(x) for x in ham]), L=lst), cfg))
        return list(out)

    def undiagonal(rows, offsets):
        x = [[0.0 * psi[0]] * n for _ in range(n)]
        for v, o in zip(rows, offsets):
            for j in range(n):
                x[(j + o) % n][j] = v[j]
        return env.array(x)

    def diagonals(state, hd, ho, ld, lo, cfg):
        calls.append((types.SimpleNamespace(psi=state, H=undiagonal(hd, ho), L=[undiagonal(*z) for z in zip(ld, lo, strict=True)]), cfg))
        return list(out)

    before = snap(psi, h["data"])
    with Patched(R, SimulationConfig=lambda **k: types.SimpleNamespace(**k), solve_sse=dense, solve_sse_banded=diagonals):
        if banded:
            r = R.solve_stochastic_schrodinger_equation_rust_banded(
                {"basis": B(a1), "data": psi}, tb, h, None if nc is None else ops(L, B(a2)), n_trajectories=k, n_realizations=real, r_threshold=1e-12, method="NormalizedEuler")
            want = [conv(a2, a) @ x @ dag(conv(a2, a)) for x in L]
            p = conv(a1, a) @ psi
        else:
            r = R.solve_stochastic_schrodinger_equation_rust({"basis": b, "data": psi}, tb, h, None if nc is None else ops(L, b), n_trajectories=k, n_realizations=real)
            want, p = L, psi
    env.true(len(calls) == 1, "one call")
    c, cfg = calls[0]
    same_equation(env, c, cfg.dt, H, want, p, fdt)
    env.true(cfg.n == m and cfg.step == step, "samples and steps between them")
    env.true(cfg.n_trajectories == k and cfg.n_realizations == real, "trajectories")
    env.true(cfg.method == ("NormalizedEuler" if banded else "Euler"), "method")
    env.true(r["basis"][0][0].n == k and r["basis"][0][1] is tb, "trajectories and times")
    isbasis(env, r["basis"][1], a)
    env.true(r["data"].shape == (k * m * n,), "flat")
    env.eq(r["data"], out, "states by trajectory and time")
    unchanged(env, before, psi, h["data"])


class Chooser:
    def __init__(self, picks):
        self.picks, self.p = list(picks), []

    def choice(self, n, *_a, p=None, **_k):
        self.p.append(p)
        return self.picks[(len(self.p) - 1) % len(self.picks)]


def pair(env, n, name):
    """two states of unit norm with overlap c exp(ip), and the states that diagonalise their density matrix"""
    V = np.array([[0, 1j], [1j, 0], [0, 0]])[:n]  # exact: symbols of square roots are matched by their radicand
    th, p = env.real(name + "t", 0.2, 1.2), env.real(name + "p", -3.0, 3.0)
    ph = np.exp(1j * p)
    c, s = np.cos(th), np.sin(th)
    x = env.array([V[i, 0] + 0 * c for i in range(n)])
    y = env.array([ph * (c * V[i, 0] + s * V[i, 1]) for i in range(n)])
    return V, c, s, ph, x, y


@harness("C26", [{"n": 2}, {"n": 3}], [], T)
def relocalise(env, n):
    """one of the states that diagonalise the density matrix, as often as it is occupied"""
    import importlib

    R = importlib.import_module(R_)
    S = Spectral(env)
    a = env.pick("basis", [("P", n), ("K", n)])
    V, c, s, ph, x, y = pair(env, n, "a")
    G = env.array([[1.0 + 0 * ph, c * ph], [c * np.conj(ph), 1.0 + 0 * ph]])
    X = env.array([[1.0 + 0 * ph, 1.0 + 0 * ph], [-np.conj(ph), np.conj(ph)]]) / np.sqrt(2)
    E = env.array([1 - c, 1 + c])
    S.register(G, E, X)
    nrm = np.linalg.norm(G)
    S.register(G / nrm, E / nrm, X)
    i = env.pick("choice", [0, 1])
    ch = Chooser([i])
    data = env.array([list(x), list(y)]).reshape(-1)
    before = snap(data)
    with Patched(R, rng=ch):
        r = R._select_random_localized_state({"basis": tup(fb(2), B(a)), "data": data})
    unchanged(env, before, data)
    env.eq(ch.p[0], E / 2, "probabilities are the occupations")
    isbasis(env, r["basis"], a)
    sg = [-1, 1][i]
    want = env.array([(x[j] + sg * np.conj(ph) * y[j]) for j in range(n)])
    env.eq(np.outer(r["data"], np.conj(r["data"])) * (2 * (1 + sg * c)), np.outer(want, np.conj(want)), "normalised state that diagonalises the density matrix")


@harness("C26", [{"n": 2}, {"n": 3}], [], T)
def localised(env, n):
    """trajectories that are relocalised after every time"""
    import importlib

    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis

    R = importlib.import_module(R_)
    a = env.pick("basis", [("P", n), ("K", n)])
    b = B(a)
    m, step = env.pick("times", [(1, 1), (3, 1), (2, 3)])
    k = env.pick("trajectories", [1, 2])
    tb = EvenlySpacedTimeBasis(m, step, 0, 1.7)
    H, psi = env.hermitian("h", n), env.cvec("psi", n)
    L = collapse(env, 1, n)
    h = {"basis": tup(b, b), "data": (H * HBAR).reshape(-1)}
    outs = [env.cvec(f"o{i}", 2, 2, n) for i in range(k * m)]
    sel = [env.cvec(f"s{i}", n) for i in range(k * m)]
    seen = []

    def select(states):
        seen.append(states)
        return {"basis": states["basis"][1], "data": sel[len(seen) - 1]}

    q = Q(lambda i: outs[i])
    with Patched(R, qutip=q, _select_random_localized_state=select):
        r = R.solve_stochastic_schrodinger_equation_localized({"basis": b, "data": psi}, tb, h, ops(L, b), n_trajectories=k)
    env.true(r["basis"][0][0].n == k and r["basis"][0][1] is tb, "trajectories and times")
    isbasis(env, r["basis"][1], a)
    env.true(r["data"].shape == (k * m * n,), "flat")
    D = r["data"].reshape(k, m, n)
    it = 0
    for tr in range(k):
        env.eq(D[tr, 0], psi, "initial state at the first time")
        for i in range(1, m):
            c = q.calls[it]
            same_equation(env, c, 1.0, H, L, D[tr, i - 1], 1.0)
            env.eq(c.t, np.array([0, 1.7 / m]), "from one time to the next")
            env.eq(seen[it]["data"], outs[it][:, 1].reshape(-1), "chosen from the realisations at the next time")
            env.true(seen[it]["basis"].shape == (2, n), "chosen from all realisations")
            env.eq(D[tr, i], sel[it], "chosen state")
            it += 1


@harness("C26", [{"n": 2, "t": 40.0}, {"n": 2, "t": 0.05}, {"n": 3, "t": 40.0}], [], T)
def coarse(env, n, t):
    """elements left out of the banded hamiltonian turn the state by less than the threshold in a step"""
    import importlib

    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis

    R = importlib.import_module(R_)
    b = B(("P", n))
    m, step = env.pick("times", [(1, 1), (2, 2)])
    fdt = t / (m * step)
    thr = 0.1
    tb = EvenlySpacedTimeBasis(m, step, 0, t)
    u = thr / fdt
    small = [env.real("a", 0.2, 2.0) * u, env.real("b", 0.2, 2.0) * u]
    H = [[2.0 + i + 0j for i in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(i):
            z = complex(1.0, 0.6) * small[0] if (i - j) == 1 else 1j * small[1] + 30 * u
            H[i][j], H[j][i] = z, np.conj(z)
        H[i][i] = (25.0 + i) * u + 0j
    H = env.array(H)
    h = {"basis": tup(b, b), "data": (H * HBAR).reshape(-1)}
    L = collapse(env, env.pick("operators", [0, 1]), n)
    psi = env.cvec("psi", n)
    got = []

    def diagonals(_state, hd, ho, _ld, _lo, cfg):
        x = [[0.0 * psi[0]] * n for _ in range(n)]
        for v, o in zip(hd, ho):
            for j in range(n):
                x[(j + o) % n][j] = v[j]
        got.append((env.array(x), cfg.dt))
        return list(psi) * m

    with Patched(R, SimulationConfig=lambda **k: types.SimpleNamespace(**k), solve_sse_banded=diagonals):
        R.solve_stochastic_schrodinger_equation_rust_banded({"basis": b, "data": psi}, tb, h, ops(L, b) or None, n_trajectories=1, r_threshold=thr)
    X, dt = got[0]
    for p, q in zip((X * dt).reshape(-1), (H * fdt).reshape(-1)):
        d = p - q
        for q in (np.real(d), np.imag(d)):
            env.true(q * q <= (1.0001 * thr) ** 2, "no more than the threshold is left out")
