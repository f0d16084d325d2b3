"""C11: kinetic and potential parts of a Hamiltonian."""
from __future__ import annotations

import itertools

import numpy as np
from scipy.constants import hbar

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import dag, freqs

BOUNDS = "1-3 axes, grids of up to 5 points per axis (9 in all), position, momentum, truncated momentum and evenly spaced bases, symbolic lattice vectors (1-2 dimensions, skew), mass, wavevector fractions and potentials"
T = ("hamiltonian_builder.momentum_basis.*", "potential.conversion.convert_potential_to_basis")

LAT = {
    1: [np.array([[1.7]])],
    2: [np.array([[1.5, 0.0], [0.0, 2.0]]), np.array([[1.0, 0.3], [-0.4, 1.6]])],
    3: [np.array([[1.0, 0.0, 0.2], [0.5, 1.3, 0.0], [0.0, -0.2, 2.0]])],
}


def frac(shape):
    """plane-wave numbers of every basis function, row major"""
    return np.array(list(itertools.product(*[freqs(n) for n in shape])))


def lattice(env, nd, sym):
    if not sym:
        return env.pick("lattice", LAT[nd])
    if nd == 1:
        return env.array([[env.real("a", 0.5, 2.0)]])
    # symbolic skew cell, diagonally dominant so that it is invertible
    return env.array([[env.real("a", 1.0, 2.0), env.real("b", -0.6, 0.6)], [env.real("c", -0.6, 0.6), env.real("d", 1.0, 2.0)]])


def recip(L):
    n = len(L)
    if n == 1:
        return np.array([[2 * np.pi / L[0, 0]]], dtype=object) if L.dtype == object else 2 * np.pi / L
    if n == 2:
        det = L[0, 0] * L[1, 1] - L[0, 1] * L[1, 0]
        return [[2 * np.pi * L[1, 1] / det, -2 * np.pi * L[1, 0] / det], [-2 * np.pi * L[0, 1] / det, 2 * np.pi * L[0, 0] / det]]
    return 2 * np.pi * np.linalg.inv(L).T


def kinetic(env, L, shape, f, mass):
    K = recip(L)
    nd = len(shape)
    out = []
    for n in frac(shape):
        e = 0
        for d in range(nd):
            k = sum((n[j] + f[j]) * K[j][d] for j in range(nd))
            e = e + (hbar * k) ** 2 / (2 * mass)
        out.append(e)
    return env.array(out)


def mass_of(env):
    return hbar**2 * env.real("mass", 0.5, 2.0)  # energies of order one


@harness("C11", [{"shape": s, "sym": y} for s in ([3], [4], [2, 3]) for y in (True, False)] + [{"shape": [2, 1, 3], "sym": False}], [{"shape": [5], "sym": True}, {"shape": [8], "sym": True}, {"shape": [2, 5], "sym": True}, {"shape": [2, 3, 4], "sym": False}, {"shape": [4, 3], "sym": True}, {"shape": [3, 2, 2], "sym": False}], T)
def kinetic_diagonal(env, shape, sym):
    """hbar^2 |G + k|^2 / 2m on the fundamental momentum basis, for truncated input bases too"""
    from surface_potential_analysis.hamiltonian_builder.momentum_basis import hamiltonian_from_mass

    nd = len(shape)
    L = lattice(env, nd, sym)
    mass = mass_of(env)
    kind = env.pick("kind", ["P", "K", "TP"] if max(shape) > 1 else ["P", "K"])
    spec = [(kind, n) if kind != "TP" else ("TP", max(n - 1, 1), n) for n in shape]
    use = env.pick("wavevector", ["given", "default"])
    f = env.rvec("f", nd) if use == "given" else None
    r = hamiltonian_from_mass(B(spec, list(L)), mass, f) if use == "given" else hamiltonian_from_mass(B(spec, list(L)), mass)
    isbasis(env, r["basis"][0], [("K", n) for n in shape])
    isbasis(env, r["basis"][1], [("K", n) for n in shape])
    env.eq(np.array(r["basis"][0].delta_x_stacked) if not sym else env.array([list(x) for x in r["basis"][0].delta_x_stacked]), L, "lattice of the result")
    env.eq(r["data"], kinetic(env, L, shape, np.zeros(nd) if f is None else f, mass), "kinetic energy")


@harness("C11", [{"shape": s} for s in ([4], [5], [2, 3])], [{"shape": [3, 3]}, {"shape": [6]}, {"shape": [4, 3]}, {"shape": [2, 3, 2]}], T)
def reciprocal_shift(env, shape):
    """adding a reciprocal lattice vector to the wavevector relabels the plane waves"""
    from surface_potential_analysis.hamiltonian_builder.momentum_basis import hamiltonian_from_mass

    nd = len(shape)
    L, mass, f = lattice(env, nd, False), mass_of(env), env.rvec("f", nd)
    ax = env.index("axis", nd)
    b = B([("P", n) for n in shape], list(L))
    e0 = hamiltonian_from_mass(b, mass, f)["data"]
    g = f + env.array([1.0 if i == ax else 0.0 for i in range(nd)])
    e1 = hamiltonian_from_mass(b, mass, g)["data"]
    n = [tuple(x) for x in frac(shape)]
    for i, x in enumerate(n):
        y = tuple(v + (j == ax) for j, v in enumerate(x))
        if y in n:
            env.eq(e1[i], e0[n.index(y)], "relabelled")


def specs(shape):
    P, K = [("P", n) for n in shape], [("K", n) for n in shape]
    TP = [("TP", max(n - 1, 1), n) for n in shape]
    mix = [("K", n) if i else ("P", n) for i, n in enumerate(shape)]
    return {"P": P, "K": K, "TP": TP, "mix": mix}


FULLS = [{"shape": s} for s in ([3], [4], [2, 3])]


@harness("C11", FULLS, [{"shape": [5]}, {"shape": [8]}, {"shape": [3, 4]}, {"shape": [3, 3]}, {"shape": [2, 1, 2]}], T)
def kinetic_in_basis(env, shape):
    """the kinetic part in any basis is the same operator, and is hermitian"""
    from surface_potential_analysis.hamiltonian_builder.momentum_basis import hamiltonian_from_mass_in_basis

    nd = len(shape)
    L, mass, f = lattice(env, nd, False), mass_of(env), env.rvec("f", nd)
    sp = specs(shape)[env.pick("kind", ["P", "K", "TP", "mix"])]
    r = hamiltonian_from_mass_in_basis(B(sp, list(L)), mass, f)
    isbasis(env, r["basis"][0], sp)
    isbasis(env, r["basis"][1], sp)
    c = conv([("K", n) for n in shape], sp)
    e = kinetic(env, L, shape, f, mass)
    m = M(r)
    env.eq(m, (c * e) @ dag(c), "kinetic operator", tol=1e-6)
    env.eq(m, np.conj(m).T, "hermitian")


@harness("C11", FULLS, [{"shape": [5]}, {"shape": [8]}, {"shape": [3, 4]}, {"shape": [3, 3]}, {"shape": [2, 1, 2]}], T)
def potential_part(env, shape):
    """multiplication by the potential in position space, in any basis; constants and hermiticity"""
    from surface_potential_analysis.hamiltonian_builder.momentum_basis import hamiltonian_from_potential

    kind = env.pick("kind", ["P", "K", "TP", "mix"])
    sp = specs(shape)[kind]
    L = lattice(env, len(shape), False)
    n, FNn = N(sp), FN(sp)
    b = B(sp, list(L))
    w = BM(sp)
    v = env.cvec("v", n)
    before = snap(v)
    r = hamiltonian_from_potential({"basis": b, "data": v})
    isbasis(env, r["basis"][0], sp)
    isbasis(env, r["basis"][1], sp)
    V = w @ v
    env.eq(M(r), (dag(w) * V) @ w, "potential operator")
    unchanged(env, before, v)
    if kind != "TP":
        U = env.rvec("U", FNn)
        u = dag(w) @ U
        m = M(hamiltonian_from_potential({"basis": b, "data": u}))
        env.eq(m, np.conj(m).T, "hermitian for a real potential")
        c = env.real("constant")
        m1 = M(hamiltonian_from_potential({"basis": b, "data": u + c * (dag(w) @ np.ones(FNn))}))
        env.eq(m1 - m, c * np.eye(n), "constant shift")


@harness("C11", FULLS, [{"shape": [5]}, {"shape": [8]}, {"shape": [3, 4]}, {"shape": [3, 3]}, {"shape": [2, 1, 2]}], T)
def total(env, shape):
    """kinetic plus potential; independent of the basis; hermitian"""
    from surface_potential_analysis.hamiltonian_builder.momentum_basis import total_surface_hamiltonian

    nd = len(shape)
    L, mass = lattice(env, nd, False), mass_of(env)
    use = env.pick("wavevector", ["given", "default"])
    f = env.rvec("f", nd) if use == "given" else np.zeros(nd)
    S = specs(shape)
    a = S[env.pick("kind", ["P", "K", "mix"])]
    U = env.rvec("U", FN(a))
    u = dag(BM(a)) @ U
    args = (mass, f) if use == "given" else (mass,)
    r = total_surface_hamiltonian({"basis": B(a, list(L)), "data": u}, *args)
    isbasis(env, r["basis"][0], a)
    isbasis(env, r["basis"][1], a)
    c = conv(S["K"], a)
    e = kinetic(env, L, shape, f, mass)
    m = M(r)
    env.eq(m, (c * e) @ dag(c) + (dag(BM(a)) * U) @ BM(a), "kinetic plus potential")
    env.eq(m, np.conj(m).T, "hermitian")
