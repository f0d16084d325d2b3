"""C20: time evolution."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .c19 import CELL, band_basis, simulation_basis, sites
from .h import *  # noqa: F403
from .spectral import Spectral, rng_unitary

BOUNDS = "2-6 states, lattices of 1-3 x 1-3 cells with 1-2 bands, 1-3 times; all initial states, energies, decay rates and times symbolic"
T = ("dynamics.schrodinger.solve.*", "dynamics.incoherent_propagation.eigenstates.*", "dynamics.incoherent_propagation.isf.*", "dynamics.isf.*", "dynamics.stochastic_schrodinger.solve._get_*")

HBAR = 1.0545718176461565e-34


def time_basis(kind, n, env=None):
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis, ExplicitTimeBasis, FundamentalTimeBasis

    if kind == "explicit":
        t = env.array([0.0, *[env.real(f"t{i}", -2.0, 3.0) for i in range(1, n)]])
        return ExplicitTimeBasis(t), t
    if kind == "even":
        return EvenlySpacedTimeBasis(n, 2, 1, 2.4), np.array([2.4 / (2 * n) * (2 * i + 1) for i in range(n)])
    return FundamentalTimeBasis(n, 1.8), np.array([1.8 / n * i for i in range(n)])


@harness("C20", [{"n": 2}, {"n": 3}, {"n": 4}], [{"n": 6}, {"n": 8}], T)
def schrodinger(env, n):
    """amplitudes of the eigenstates turn with their energy"""
    from surface_potential_analysis.dynamics.schrodinger.solve import get_state_vector_decomposition, solve_schrodinger_equation_decomposition

    S = Spectral(env)
    a = env.pick("basis", [("P", n), ("K", n), ("TP", n, n + 1)])
    E = S.energies("E", n)
    U = S.unitary("u", n)
    A = S.build(E, U)
    b = B(a)
    psi = env.cvec("psi", n)
    tb, t = time_basis(env.pick("times", ["explicit", "even", "full"]), env.pick("count", [1, 3]), env)
    h = {"basis": tup(b, b), "data": A.reshape(-1) * HBAR}
    before = snap(psi, h["data"])
    r = solve_schrodinger_equation_decomposition({"basis": b, "data": psi}, tb, h)
    unchanged(env, before, psi, h["data"])
    env.true(r["basis"][0] is tb and r["data"].shape == (len(t) * n,), "one state for every time")
    isbasis(env, r["basis"][1], a)
    R = r["data"].reshape(len(t), n)
    c = [np.sum(np.conj(U[:, j]) * psi) for j in range(n)]
    for i in range(len(t)):
        env.eq(R[i], sum(U[:, j] * (c[j] * np.exp(-1j * E[j] * t[i])) for j in range(n)), "exp(-iHt/hbar)")
    V = np.array([rng_unitary(n, 5)[:, j] for j in range(n - 1)])
    d = get_state_vector_decomposition({"basis": b, "data": psi}, {"basis": tup(fb(n - 1), b), "data": V.reshape(-1)})
    env.true(d["basis"][0].n == n - 1 and d["basis"][1].n == n - 1, "one coefficient for every state")
    env.eq(d["data"], np.conj(V) @ psi, "overlaps")


@harness("C20", [{"d": 1}, {"d": 2}], [], T)
def schrodinger_diagonal(env, d):
    """a diagonal hamiltonian in its own basis, the state in any"""
    from surface_potential_analysis.dynamics.schrodinger.solve import solve_schrodinger_equation_diagonal

    a, b = env.pick("bases", [(("K", 3), ("P", 3)), (("P", 4), ("P", 4)), (("P", 3), ("TP", 2, 3))] if d == 1 else [([("K", 2), ("P", 3)], [("P", 2), ("P", 3)]), ([("P", 2), ("P", 2)], [("K", 2), ("K", 2)])])
    n = N(b)
    E = env.rvec("E", n)
    psi = env.cvec("psi", N(a))
    tb, t = time_basis(env.pick("times", ["explicit", "even", "full"]), env.pick("count", [1, 3]), env)
    before = snap(psi, E)
    bb = B(b)
    r = solve_schrodinger_equation_diagonal(vec(psi, a), tb, {"basis": tup(bb, bb), "data": E * HBAR})
    unchanged(env, before, psi, E)
    env.true(r["basis"][0] is tb and r["data"].shape == (len(t) * n,), "one state for every time")
    isbasis(env, r["basis"][1], b)
    p = conv(a, b) @ psi
    R = r["data"].reshape(len(t), n)
    for i in range(len(t)):
        env.eq(R[i], p * np.exp(-1j * E * t[i]), "phases")


def rate_matrix(env, S, k, order):
    """M = X diag(E) X^-1 whose columns sum to zero, one stationary state, unit-norm eigenvectors"""
    r = np.random.RandomState(k)
    X = r.uniform(0.2, 1.0, size=(k, k)) + 2 * np.eye(k)
    for j in range(1, k):
        X[:, j] -= np.mean(X[:, j])
    E = [0.0, *[-e for e in S.energies("rate", k - 1, 0.3)]] if k > 1 else [0.0]
    if order == 3:  # a pair of oscillating modes
        X = X + 0j
        X[:, 1], X[:, 2] = X[:, 1] + 1j * X[:, 2], X[:, 1] - 1j * X[:, 2]
        w = S.env.real("frequency", 0.5, 1.5)
        E[1], E[2] = E[1] + 1j * w, E[1] - 1j * w
    X /= np.linalg.norm(X, axis=0)
    p = {0: list(range(k)), 1: list(range(k))[::-1], 2: [*range(1, k), 0], 3: list(range(k))}[order]
    X, E = X[:, p], env.array([E[i] for i in p])
    inv = np.linalg.inv(X)
    A = S.build(E, X, inv)
    return A, E, X, inv, p.index(0)


LAT = [{"shape": [2, 1], "nb": 1}, {"shape": [1, 3], "nb": 1}, {"shape": [1, 2], "nb": 2}]


@harness("C20", LAT, [{"shape": [2, 2], "nb": 1}, {"shape": [2, 3], "nb": 1}, {"shape": [3, 1], "nb": 2}], T)
def rate_equation(env, shape, nb):
    """populations follow the rate matrix"""
    from surface_potential_analysis.dynamics.incoherent_propagation import eigenstates as G
    from surface_potential_analysis.dynamics.incoherent_propagation.isf import get_rate_decomposition

    S = Spectral(env, phases=False)
    b = simulation_basis(shape, nb)
    k = b.n
    A, E, X, inv, z = rate_matrix(env, S, k, env.pick("order", [0, 1, 2, 3] if k > 2 else [0, 1, 2]))
    m = {"basis": tup(b, b), "data": A.reshape(-1)}
    p = env.rvec("p", k, lo=0.0)
    rho = {"basis": tup(b, b), "data": p}
    before = snap(A, p)
    _tb, t = time_basis("explicit", 2, env)
    e = G.calculate_tunnelling_eigenstates(m)
    env.true(e["basis"][0].n == k and e["basis"][1] is b and e["data"].shape == (k * k,), "one eigenstate for every site")
    for q in range(1, k + 1):  # in any order
        env.eq(sum(x**q for x in e["eigenvalue"]), sum(x**q for x in E), "decay rates")
    V = e["data"].reshape(k, k)
    for j in range(k):
        env.eq(A @ V[j] - e["eigenvalue"][j] * V[j], np.zeros(k), "eigenstate of the rate equation")
    r = G.calculate_tunnelling_simulation_state(m, rho, t)
    unchanged(env, before, A, p)
    env.true(r["basis"][0].n == 2 and r["basis"][1][0] is b and r["basis"][1][1] is b and r["data"].shape == (2 * k,), "one occupation for every time")
    env.eq(r["basis"][0].times, t, "times")
    R = r["data"].reshape(2, k)
    for i in range(2):
        env.eq(R[i], sum(X[:, j] * (np.sum(inv[j] * p) * np.exp(E[j] * t[i])) for j in range(k)), "exp(Mt)")
        env.eq(np.sum(R[i]), np.sum(p), "total probability")
    env.eq(R[0], p, "initial occupation at time zero")
    for q in (G.calculate_equilibrium_state(m), G.get_equilibrium_state(e)):
        env.true(q["basis"][0] is b and q["basis"][1] is b and q["data"].shape == (k,), "basis of the equilibrium")
        env.eq(np.sum(q["data"]), 1, "total probability of the equilibrium")
        env.eq(q["data"], X[:, z] / np.sum(X[:, z]), "stationary")
    c = G.get_operator_state_vector_decomposition(rho, e)
    env.eq(sum(c[j] * V[j] for j in range(k)), p, "decomposition")
    d = get_rate_decomposition(m, rho)
    env.true(d.eigenvalues.shape == (k,) and d.coefficients.shape == (k,), "one coefficient for every rate")
    for q in range(k + 1):  # in any order, the states of any sign
        env.eq(sum(abs(y) ** 2 * x**q for x, y in zip(d.eigenvalues, d.coefficients)), sum(abs(np.sum(inv[j] * p)) ** 2 * E[j] ** q for j in range(k)), "rates and coefficients of the decomposition")


def locations(shape, nb):
    loc = band_basis(nb).locations
    return np.array([sum((q + loc[i, n]) * CELL[i] for i, q in enumerate((a, c))) for a, c, n in sites(shape, nb)])


def displacement(x, shape, origin):
    """minimum image (along the cell axes) of the displacement of every location from the origin"""
    L = np.array([shape[i] * CELL[i] for i in range(2)])
    f = (x - origin) @ np.linalg.inv(L)
    g = np.remainder(f + 0.5, 1)
    assert np.min(np.abs(g * (1 - g))) > 1e-6  # not on the boundary  # noqa: S101
    return (g - 0.5) @ L


@harness("C20", [{"shape": [3, 1], "nb": 2}, {"shape": [1, 3], "nb": 1}, {"shape": [3, 3], "nb": 1}, {"shape": [2, 1], "nb": 2}], [{"shape": [3, 5], "nb": 2}, {"shape": [2, 2], "nb": 2}], T)
def scattering(env, shape, nb):
    """intermediate scattering function: average of exp(i dk.x) about the initial location"""
    from surface_potential_analysis.dynamics.isf import calculate_isf_approximate_locations

    b = simulation_basis(shape, nb)
    k = b.n
    x = locations(shape, nb)
    w = np.random.RandomState(k).uniform(0.1, 1.0, size=k)
    w = env.pick("initial", [w / 3, np.eye(k)[k - 1], np.eye(k)[0]] if min(s % 2 for s in shape) else [w / 3])
    F = env.rvec("F", 2, k, lo=0.0)
    dk = env.rvec("dk", 2)
    tb, _t = time_basis("even", 2)
    before = snap(F, dk)
    r = calculate_isf_approximate_locations({"basis": b, "data": w}, {"basis": tup(tb, b), "data": F.reshape(-1)}, dk)
    unchanged(env, before, F, dk)
    env.true(r["basis"][0] is tb and r["basis"][1] is tb and r["data"].shape == (2,), "one value for every time")
    d = displacement(x, shape, (w / np.sum(w)) @ x)
    for i in range(2):
        env.eq(r["data"][i], sum(F[i, j] * np.exp(1j * (dk[0] * d[j, 0] + dk[1] * d[j, 1])) for j in range(k)), "sum over the sites")


@harness("C20", [{"shape": [3, 1], "nb": 1}, {"shape": [1, 3], "nb": 2}, {"shape": [1, 1], "nb": 2}], [{"shape": [3, 3], "nb": 1}], T)
def scattering_of_rates(env, shape, nb):
    """scattering functions of a rate matrix"""
    from surface_potential_analysis.dynamics.incoherent_propagation import isf as G

    S = Spectral(env, phases=False)
    b = simulation_basis(shape, nb)
    k = b.n
    A, E, X, inv, z = rate_matrix(env, S, k, env.pick("order", [0, 1]))
    m = {"basis": tup(b, b), "data": A.reshape(-1)}
    _tb, t = time_basis("explicit", 2, env)
    dk = env.rvec("dk", 2)
    x = locations(shape, nb)

    def at(p, s):
        return sum(X[:, j] * (np.sum(inv[j] * p) * np.exp(E[j] * s)) for j in range(k))

    def isf(w, F):
        d = displacement(x, shape, (w / np.sum(w)) @ x)
        return sum(F[j] * np.exp(1j * (dk[0] * d[j, 0] + dk[1] * d[j, 1])) for j in range(k))

    w = np.random.RandomState(k).uniform(0.1, 1.0, size=k)
    before = snap(A, dk)
    r = G.calculate_isf_at_times(m, {"basis": tup(b, b), "data": w}, t, dk)
    env.eq(r["basis"][0].times, t, "times")
    env.eq(r["data"], env.array([isf(w, at(w, s)) for s in t]), "about the initial occupation")
    eq = X[:, z] / np.sum(X[:, z])
    pb = np.abs([sum(eq[i] for i, s in enumerate(sites(shape, nb)) if s[2] == n) for n in range(nb)])
    pb = pb / np.sum(pb)
    q = [np.eye(k)[n] for n in range(nb)]
    r = G.calculate_equilibrium_state_averaged_isf(m, t, dk)
    for i in range(2):
        env.eq(r["basis"][i][0].times if hasattr(r["basis"][i], "ndim") and r["basis"][i].ndim == 1 else r["basis"][i].times, t, "times")
    env.true(r["data"].shape == (2,), "one value for every time")
    env.eq(r["data"], env.array([sum(pb[n] * isf(q[n], at(q[n], s)) for n in range(nb)) for s in t]), "averaged over the bands")
    r = G.calculate_equilibrium_initial_state_isf(m, t, dk)
    env.true(r["data"].shape == (2,), "one value for every time")
    w0 = sum(pb[n] * q[n] for n in range(nb))
    env.eq(r["data"], env.array([isf(w0, at(w0, s)) for s in t]), "about the average location")
    unchanged(env, before, A, dk)


@harness("C20", [{"n": 2}, {"n": 3}, {"n": 4}], [{"n": 6}, {"n": 5}], T)
def banded(env, n):
    """operators by their (periodic) diagonals"""
    from surface_potential_analysis.dynamics.stochastic_schrodinger import solve as R

    kept = env.pick("diagonals", [(0,), (1,), (0, n - 1), tuple(range(n)), ()])
    A = env.array([[(env.cplx(f"a{i}") + 2.0 + 1.5j if j == 1 else 2.0 + i - 1j * j) if (i - j) % n in kept else 1e-12 * (1 + i) for j in range(n)] for i in range(n)])
    d = R._get_operator_diagonals(A)
    env.true(d.shape == (n, n), "all the diagonals")
    for o in range(n):
        env.eq(d[o], env.array([A[(j + o) % n, j] for j in range(n)]), "diagonal")
    rows, offsets = R._get_banded_operator(A, 1e-6)
    env.true([int(o) for o in offsets] == list(kept), "diagonals above the threshold")
    env.true(len(rows) == len(kept), "one list for every offset")
    for v, o in zip(rows, offsets):
        env.eq(env.array(list(v)), env.array([A[(j + int(o)) % n, j] for j in range(n)]), "diagonal of the offset")


@harness("C20", [{"model": "110"}, {"model": "112bar"}], [], T)
def two_site_model(env, model):
    """the closed forms of the two-site model of hopping on a hexagonal surface"""
    from surface_potential_analysis.dynamics import isf as G

    a = env.pick("dk", [0.7, 2.0, 3.1, env.real("a", 0.3, 2.0)])
    lam = env.real("lam", 0.2, 0.9)  # of the rates out of the two sites
    t = env.real("t", 0.1, 2.0)
    if model == "110":
        f = 2 * np.cos(a / 2) + 1
        w = G.get_isf_from_fey_model_fit_110
    else:
        f = np.exp(1j * a / np.sqrt(3)) + 2 * np.exp(-1j * a / np.sqrt(12))
        w = G.get_isf_from_fey_model_fit_112bar
    times = env.array([0.0, t])
    r = w(G.ISFFeyModelFit(1.0, lam, a), times)
    env.true(r["basis"][0] is not None and r["data"].shape == (2,), "one value for every time")
    env.eq(r["basis"][0].times, times, "times")
    # M = [[-lam, f / 3], [lam f* / 3, -1]], from the occupation (1, lam) / (1 + lam)
    c = abs(f) ** 2 / 9
    y = np.sqrt(lam**2 + (4 * c - 2) * lam + 1)
    g = 2 * lam * (2 * np.real(f) / 3) / (1 + lam)  # 2 (1, 1) M p + (1 + lam)
    g = g - 4 * lam / (1 + lam) + (1 + lam)
    for s, i in zip((0.0, t), (0, 1)):
        e0, e1 = np.exp(-(lam + 1) * s / 2 - y * s / 2), np.exp(-(lam + 1) * s / 2 + y * s / 2)
        env.eq(r["data"][i], (1 - g / y) / 2 * e0 + (1 + g / y) / 2 * e1, "exp(Mt)")


@harness("C20", [{}], None, T)
def extracted_rates(env):
    """the hopping rates whose model decays with the two rates of a fit"""
    import itertools

    import scipy.optimize

    from surface_potential_analysis.dynamics import isf as G

    lam, nu = env.real("lam", 0.2, 0.9), env.real("nu", 0.5, 2.0)
    y = np.sqrt(lam**2 + 1 + 2 * lam * (8 * np.cos(2 * np.sqrt(3) / 2) + 1) / 9)
    fit = G.ISF4VariableFit(nu * (lam + 1 + y) / (2 * lam), env.real("a", 0.1, 1), nu * (lam + 1 - y) / (2 * lam), env.real("b", 0.1, 1), 0.0)
    known = [nu, lam, nu / lam, 1 / lam]
    calls = []

    def fsolve(f, x0, *_a, **k):
        """the root, whichever of the rates and their ratio it is written in"""
        found = known[:2]
        for c in itertools.permutations(known, 2):
            r = [np.max(np.abs(env_value(env, q))) for q in f(list(c))]
            if max(r) < 1e-9:
                found = c
                break
        calls.append(np.shape(x0))
        env.eq(env.array(list(f(list(found)))), np.zeros(2), "the rates of the model are a root")
        x = env.array(list(found))
        return (x, {}, 1, "") if k.get("full_output") else x

    old = scipy.optimize.fsolve
    scipy.optimize.fsolve = fsolve
    try:
        r = G.extract_fey_rate_from_4_variables_fit_112bar(fit)
    finally:
        scipy.optimize.fsolve = old
    env.true(calls == [(2,)], "solved once")
    env.eq(env.array([r.fast_rate, r.slow_rate]), env.array([nu / lam, nu]), "fast and slow rates")
    env.eq(r.a_dk, 2, "wave vector")


def env_value(env, x):
    """magnitude of the coefficients of what is left of a difference"""
    t = getattr(x, "t", None)
    return np.abs(x) if t is None else np.array([0.0] + [abs(c) for c in t.values()])


class _CurveFit:
    """stand-in for scipy.optimize.curve_fit, returning given parameters"""

    def __init__(self, params):
        self.params = params
        self.calls = []

    def __enter__(self):
        import scipy.optimize

        self.old = scipy.optimize.curve_fit
        scipy.optimize.curve_fit = self
        return self

    def __exit__(self, *a):
        import scipy.optimize

        scipy.optimize.curve_fit = self.old

    def __call__(self, f, x, y, *a, **k):
        p0 = k.get("p0", a[0] if a else None)
        if p0 is not None and len(p0) != len(self.params):
            raise AssertionError("number of parameters")
        self.calls.append((f, x, y))
        return self.params, None


@harness("C20", [{"kind": k} for k in ("double", "110", "112bar", "four", "ratio")], [], T)
def fitted(env, kind):
    """whatever parameters the fit returns, the result reproduces the function fitted to the measured data"""
    from surface_potential_analysis.basis.time_basis_like import ExplicitTimeBasis
    from surface_potential_analysis.dynamics import isf as G

    a = env.pick("dk", [0.7, 2.0])
    times = env.array([0.0, *[env.real(f"t{i}", 0.1, 0.6) + 0.6 * i for i in range(4)]])
    data = env.cvec("isf", 5)
    measure = env.pick("measure", ["abs", "real"])
    tb = ExplicitTimeBasis(times)
    isf = {"basis": tup(tb, tb), "data": data}
    n = {"double": 4, "110": 2, "112bar": 2, "four": 5, "ratio": 4}[kind]
    params = env.array([env.real(f"p{i}", 0.2, 0.9) for i in range(n)])
    before = snap(times, data)
    with _CurveFit(params) as c:
        if kind == "double":
            fit = G.fit_isf_to_double_exponential(isf, measure=measure)
            get, keep = G.get_isf_from_4_variable_fit, (0, 5)
        elif kind == "110":
            fit = G.fit_isf_to_fey_model_110(isf, measure=measure, a_dk=a)
            get, keep = G.get_isf_from_fey_model_fit_110, (0, 5)
        elif kind == "112bar":
            fit = G.fit_isf_to_fey_model_112bar(isf, measure=measure, a_dk=a)
            get, keep = G.get_isf_from_fey_model_fit_112bar, (0, 5)
        elif kind == "four":
            start = env.pick("start", [0.0, 0.65])
            fit = G.fit_isf_to_fey_4_variable_model_110(isf, measure=measure, a_dk=a, start_t=start)
            get, keep = G.get_isf_from_fey_4_variable_model_110, (1 if start == 0 else 2, 5)
        else:
            end = env.pick("end", [None, 1.25])
            fit = G.fit_isf_to_fey_4_variable_model_110_fixed_ratio(isf, 0.4, measure=measure, a_dk=a, start_t=0.65, end_t=end)
            get, keep = G.get_isf_from_fey_4_variable_model_110, (2, 4 if end is None else 3)
    unchanged(env, before, times, data)
    env.true(len(c.calls) == 1, "one fit")
    f, x, y = c.calls[0]
    env.eq(x, times[keep[0] : keep[1]], "times of the fit")
    measured = data[keep[0] : keep[1]]
    env.eq(y**2 if measure == "abs" else y, np.real(measured) ** 2 + np.imag(measured) ** 2 if measure == "abs" else np.real(measured), "measured values")
    t = env.array([0.0, env.real("s", 0.3, 2.0)])
    r = get(fit, t)
    env.eq(r["data"], f(t, *params), "the function fitted")
    env.eq(r["basis"][0].times, t, "times")
    if kind == "double":
        env.eq(r["data"][0], 1, "one at time zero")
        env.eq(r["data"], params[0] * np.exp(-params[1] * t) + params[2] * np.exp(-params[3] * t) + 1 - params[0] - params[2], "double exponential")
    elif kind in ("four", "ratio"):
        # amplitudes of the two decays of the two-site model with the rates of the fit
        F, A0, s, A1, off = params if kind == "four" else (params[0], params[1], 0.4 * params[0], params[2], params[3])
        lam = s / F
        y = np.sqrt(lam**2 + (4 * (2 * np.cos(a / 2) + 1) ** 2 / 9 - 2) * lam + 1)
        env.eq(r["data"], A0 * np.exp(-F * ((lam + 1) + y) * t / 2) + A1 * np.exp(-F * ((lam + 1) - y) * t / 2) + off, "two decays")
