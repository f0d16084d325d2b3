"""C18: bases made from a potential: harmonic oscillator, eigenstates of a potential."""
from __future__ import annotations

import itertools
import math

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import bm, dag, freqs, fsize, mk, size
from .spectral import Spectral

SLOW = ['select_minimum']  # larger configurations in the thorough tier only
BOUNDS = "wavefunctions 0-9 (14 thorough) at any coordinate; 1-4 (8) points, cells of any direction and length, any origin; potentials of 2 points with symbolic values, 3-5 points up to a symbolic constant; column selection of up to 3x2 columns"
T = ("stacked_basis.sho_basis.*", "stacked_basis.potential_basis.*")

HBAR = 1.0545718176461565e-34


def oscillator(xi, scale, count):
    """wavefunctions by the ladder recurrence"""
    out = [np.sqrt(scale) / math.pi**0.25 * np.exp(-(xi * xi) / 2)]
    for n in range(1, count):
        out.append(np.sqrt(2 / n) * xi * out[n - 1] - (np.sqrt((n - 1) / n) * out[n - 2] if n > 1 else 0.0))
    return out


UNITS = [(HBAR * 1.3, 0.7), (HBAR**2, 2 / HBAR), (HBAR * 2.0, 0.5)]


@harness("C18", [{"top": 4}, {"top": 9}], [{"top": 14}], T)
def wavefunction(env, top):
    """the harmonic oscillator states at any coordinate"""
    from surface_potential_analysis.stacked_basis.sho_basis import calculate_sho_wavefunction

    mass, omega = env.pick("units", UNITS)
    x = env.rvec("x", 2, lo=-2.0, hi=2.0)
    before = snap(x)
    k = np.sqrt(omega * mass / HBAR)
    want = oscillator(x * k, k, top + 1)
    for n in range(top + 1):
        r = calculate_sho_wavefunction(x, omega, mass, n)
        env.eq(r, want[n], "state of the oscillator")
    unchanged(env, before, x)


PARENTS = [("P", 3), ("K", 4), ("TP", 2, 3), ("P", 1)]


def parent(env):
    spec = env.pick("parent", PARENTS)
    d = env.pick("direction", [np.array([0.0, 0.0, 2.0]), np.array([1.0, -2.0, 0.5]), env.array([0.0, env.real("dy", 0.5, 2.0), 0.0])])
    o = env.rvec("o", 3)
    return spec, d, o, mk(spec, d)


def distances(spec, d, o):
    length = np.sqrt(d[0] ** 2 + d[1] ** 2 + d[2] ** 2)
    u = d / length
    along = u[0] * o[0] + u[1] * o[1] + u[2] * o[2]
    return np.array([length * (i / fsize(spec)) + along for i in range(fsize(spec))]), length


@harness("C18", [{}], [], T)
def geometry(env):
    """distance along the cell of every point, the origin being the coordinate of the first"""
    from surface_potential_analysis.stacked_basis.sho_basis import calculate_x_distances, get_sho_potential_basis_config

    spec, d, o, b = parent(env)
    mass, omega = env.pick("units", UNITS)
    before = snap(o)
    x, length = distances(spec, d, o)
    x = env.array(list(x))
    env.eq(calculate_x_distances(b, o), x, "distances")
    n = env.pick("n", [1, 2])
    c = get_sho_potential_basis_config(b, {"sho_omega": omega, "mass": mass, "x_origin": o}, n)
    unchanged(env, before, o)
    env.true(c["n"] == n and c["mass"] == mass, "configuration")
    p = c["potential"]
    env.true(tuple(p["basis"].shape) == (fsize(spec),) and p["data"].shape == (fsize(spec),), "one value for every point")
    isbasis(env, p["basis"], [("P", fsize(spec))])
    env.eq(p["basis"][0].delta_x, env.array([length]), "length of the cell")
    k = mass * omega**2
    env.eq(p["data"] / k, x**2 / 2, "potential of the oscillator")


@harness("C18", [{"n": 1}, {"n": 3}], [{"n": 6}, {"n": 10}], T)
def infinite(env, n):
    """the oscillator states on the points of the cell, normalised to the spacing"""
    from surface_potential_analysis.stacked_basis.sho_basis import infinate_sho_basis_3d_from_config

    spec, d, o, b = parent(env)
    mass, omega = env.pick("units", UNITS[:2])
    k = np.sqrt(omega * mass / HBAR)
    x, length = distances(spec, d, o)
    r = infinate_sho_basis_3d_from_config(b, {"sho_omega": omega, "mass": mass, "x_origin": o}, n=n)
    env.true(r.n == n and r.fundamental_n == fsize(spec), "size")
    env.eq(r.delta_x, d, "cell")
    v = r.__into_fundamental__(np.eye(n))
    want = [oscillator(xi * k, k, n) for xi in x]
    s = np.sqrt(length / fsize(spec))
    env.eq(v, env.array([[s * want[i][j] for i in range(fsize(spec))] for j in range(n)]), "states on the points")


def kinetic(n, length, mass, fraction):
    k = (np.array(freqs(n)) + fraction) * 2 * np.pi / length
    F = bm(("K", n))
    return F @ np.diag((HBAR * k) ** 2 / (2 * mass)) @ dag(F)


@harness("C18", [{"points": 2}, {"points": 3}, {"points": 4}], [{"points": 7}, {"points": 10}], T)
def eigenstates(env, points):
    """lowest eigenstates of the potential as a basis"""
    from surface_potential_analysis.stacked_basis.potential_basis import get_potential_basis_config_basis, get_potential_basis_config_eigenstates

    S = Spectral(env)
    mass, length = HBAR**2 / 2, 2.0
    fraction = env.pick("fraction", [None, 0.0, 0.3, -0.4, 1.2]) if points > 2 else env.pick("fraction", [None, 0.0])
    K = kinetic(points, length, mass, fraction or 0.0)
    if points == 2:
        # H = [[k + a, -k], [-k, k + b]], by the angle of its eigenvectors
        t = env.real("t", 0.2, 1.3)
        cs, sn = np.cos(t), np.sin(t)
        e0 = env.real("e0")
        k = K[0, 0].real
        gap = k / (cs * sn)
        e1 = e0 + gap
        V = env.array([e0 * cs * cs + e1 * sn * sn - k, e0 * sn * sn + e1 * cs * cs - k])
        E, X = env.array([e0, e1]), env.array([[cs, sn], [sn, -cs]])
    else:
        shape = np.random.RandomState(points).uniform(-4, 4, size=points)
        c = env.real("c")
        V = env.array([v + c for v in shape])
        w, X = np.linalg.eigh(K + np.diag(shape))
        E = env.array([x + c for x in w])
    S.register(K + np.diag([1.0] * points) * V[:, None] if points > 2 else env.array([[k + V[0], -k], [-k, k + V[1]]]), E, X)
    n = env.pick("n", [1, points])
    pb = B([("P", points)], [np.array([length])])
    config = {"potential": {"basis": pb, "data": V}, "mass": mass, "n": n}
    r = get_potential_basis_config_eigenstates(config) if fraction is None else get_potential_basis_config_eigenstates(config, bloch_fraction=fraction)
    env.true(r["basis"][0].n == n and r["data"].shape == (n * points,), "number of states")
    isbasis(env, r["basis"][1], [("P", points)])
    env.eq(r["eigenvalue"], E[:n], "lowest energies")
    W = r["data"].reshape(n, points)
    P = [W[j][:, None] * np.conj(W[j])[None, :] for j in range(n)]
    for j in range(n):
        env.eq(P[j], env.array(X[:, j][:, None] * np.conj(X[:, j])[None, :]), "eigenstate")
    if fraction is None:
        b = get_potential_basis_config_basis(config)
        env.true(b.n == n and b.fundamental_n == points, "size of the basis")
        v = b.__into_fundamental__(np.eye(n))
        for j in range(n):
            env.eq(v[j][:, None] * np.conj(v[j])[None, :], P[j], "state of the basis")
        env.eq(b.delta_x_stacked, pb.delta_x_stacked, "cell")


@harness("C18", [{"shape": [2, 2, 2]}, {"shape": [1, 3, 2]}], [{"shape": [3, 2, 2]}, {"shape": [2, 3, 4]}, {"shape": [4, 1, 3]}], T)
def select_minimum(env, shape):
    """the column of the potential through its minimum"""
    from surface_potential_analysis.stacked_basis.potential_basis import select_minimum_potential_3d

    n = int(np.prod(shape))
    V = env.rvec("V", n)
    before = snap(V)
    ds = [np.array([1.7, 0.4, 0.0]), np.array([-0.6, 2.3, 0.0]), np.array([0.0, 0.0, 1.9])]
    r = select_minimum_potential_3d({"basis": B([("P", m) for m in shape], ds), "data": V})
    unchanged(env, before, V)
    isbasis(env, r["basis"], [("P", shape[2])])
    env.eq(r["basis"][0].delta_x, [1.9], "length of the cell")
    env.true(r["data"].shape == (shape[2],), "one value for every height")
    low = np.min(r["data"])
    for v in V:
        env.ge(v, low, "the column of the minimum")
    cols = V.reshape(-1, shape[2])
    away = 1.0
    for c in cols:
        away = away * np.sum((c - r["data"]) ** 2)
    env.eq(away, 0.0, "a column of the potential")
