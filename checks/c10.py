"""C10: eigenstates."""
from __future__ import annotations

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import dag
from .spectral import Spectral, rng_unitary

BOUNDS = "hermitian matrices with symbolic, gapped spectrum; 2x2 with fully symbolic eigenvectors, up to 4x4 (thorough 5x5) with a fixed dense unitary; LAPACK eigh/eig by contract (arbitrary eigenvector phases); all index subsets"
T = ("state_vector.eigenstate_calculation.*", "state_vector.eigenstate_list.get_eigenvalues_list", "basis.explicit_basis.ExplicitBasis.from_state_vectors")
BASES = [lambda n: ("P", n), lambda n: ("K", n), lambda n: ("TP", n, n + 1), lambda n: [("P", n)], lambda n: [("K", 2), ("P", n // 2)] if n % 2 == 0 else [("K", n)]]


def setup(env, n):
    sp = Spectral(env)
    E = sp.energies("E", n)
    X = sp.unitary("u", n)
    H = sp.build(E, X)
    a = env.pick("basis", [f(n) for f in BASES])
    return sp, E, X, H, a


@harness("C10", [{"n": 2}, {"n": 3}, {"n": 4}], [{"n": 5}, {"n": 7}], T)
def hermitian(env, n):
    """orthonormal states, H v = E v, increasing energies, rebuilt operator"""
    from surface_potential_analysis.state_vector.eigenstate_calculation import (
        calculate_eigenvectors_hermitian,
        operator_from_eigenstates,
    )
    from surface_potential_analysis.state_vector.eigenstate_list import get_eigenvalues_list

    sp, E, X, H, a = setup(env, n)
    h0 = H.copy()
    r = calculate_eigenvectors_hermitian(op(H, a))
    env.true(r["basis"][0].n == n and r["data"].ndim == 1, "number of states")
    isbasis(env, r["basis"][1], a)
    V = r["data"].reshape(n, n)
    env.eq(r["eigenvalue"], E, "eigenvalues ascending")
    for i in range(n):
        env.eq(H @ V[i] - r["eigenvalue"][i] * V[i], np.zeros(n), "H v = E v", scale=1.0)
    env.eq(np.conj(V) @ V.T, np.eye(n), "orthonormal")
    env.eq(H, h0, "operator unmodified")
    b = operator_from_eigenstates(r)
    env.eq(M(b), H, "rebuilt")
    isbasis(env, b["basis"][0], a)
    isbasis(env, b["basis"][1], a)
    l = get_eigenvalues_list(r)
    env.eq(l["data"], E, "eigenvalue list")
    env.true(l["basis"][0].n == n and l["basis"][1].n == n, "eigenvalue list basis")


@harness("C10", [{"n": 3}], [{"n": 4}, {"n": 5}, {"n": 7}], T)
def subsets(env, n):
    """a subset by index holds exactly these states, with their eigenvalues"""
    from surface_potential_analysis.state_vector.eigenstate_calculation import calculate_eigenvectors_hermitian

    sp, E, X, H, a = setup(env, n)
    lo, hi = env.pick("subset", [(i, j) for i in range(n) for j in range(i, n)])
    r = calculate_eigenvectors_hermitian(op(H, a), subset_by_index=(lo, hi))
    k = hi - lo + 1
    env.true(r["basis"][0].n == k and tuple(r["basis"].shape) == (k, n), "number of states")
    isbasis(env, r["basis"][1], a)
    V = r["data"].reshape(k, n)
    env.eq(r["eigenvalue"], E[lo : hi + 1], "eigenvalues of the subset")
    for i in range(k):
        env.eq(H @ V[i] - E[lo + i] * V[i], np.zeros(n), "H v = E v", scale=1.0)
    env.eq(np.conj(V) @ V.T, np.eye(k), "orthonormal")


@harness("C10", [{"n": 2}, {"n": 3}], [{"n": 4}, {"n": 6}], T)
def eigenstate_bases(env, n):
    """the explicit basis of eigenstates diagonalises the Hamiltonian"""
    from surface_potential_analysis.operator.conversion import convert_operator_to_basis
    from surface_potential_analysis.state_vector.eigenstate_calculation import (
        get_eigenstate_basis_from_hamiltonian,
        get_eigenstate_basis_stacked_from_hamiltonian,
    )

    sp, E, X, H, a = setup(env, n)
    sub = env.pick("subset", [None, (0, 0), (n - 1, n - 1), (0, 1)])
    lo, hi = (0, n - 1) if sub is None else sub
    k = hi - lo + 1
    bases = [get_eigenstate_basis_from_hamiltonian(op(H, a), sub)]
    if isinstance(a, list):
        bases.append(get_eigenstate_basis_stacked_from_hamiltonian(op(H, a), sub))
    for b in bases:
        env.true(b.n == k and b.fundamental_n == FN(a), "size")
        d = convert_operator_to_basis(op(H, a), tup(b, b))
        env.eq(M(d), np.diag(E[lo : hi + 1]), "diagonal in its eigenbasis")
        V = b.vectors["data"].reshape(k, -1) if hasattr(b, "vectors") and isinstance(b.vectors, dict) else None
        if V is not None and V.shape[1] == n:
            for i in range(k):
                env.eq(H @ V[i] - E[lo + i] * V[i], np.zeros(n), "H v = E v", scale=1.0)


@harness("C10", [{"n": 2}, {"n": 3}], [{"n": 4}, {"n": 6}], T)
def general(env, n):
    """general diagonalisable operators: A v = a v and the operator is rebuilt"""
    from surface_potential_analysis.state_vector.eigenstate_calculation import calculate_eigenvectors, operator_from_eigenstates

    sp = Spectral(env)
    r = np.random.RandomState(n)
    X = np.eye(n) + 0.4 * (r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)))
    X = X / np.linalg.norm(X, axis=0)
    E = sp.energies("E", n) + 1j * env.rvec("G", n, lo=-0.5, hi=0.0)
    A = sp.build(E, X, np.linalg.inv(X))
    a = env.pick("basis", [f(n) for f in BASES])
    r = calculate_eigenvectors(op(A, a))
    env.true(r["basis"][0].n == n and r["data"].ndim == 1, "number of states")
    isbasis(env, r["basis"][1], a)
    V = r["data"].reshape(n, n)
    for i in range(n):
        env.eq(A @ V[i] - r["eigenvalue"][i] * V[i], np.zeros(n), "A v = a v", scale=1.0)
        env.eq(np.sum(np.abs(V[i]) ** 2), 1.0, "normalised")
    env.eq(M(operator_from_eigenstates(r)), A, "rebuilt")


@harness("C10", [{"n": 2}, {"n": 3}], [{"n": 4}, {"n": 6}], T)
def rebuild(env, n):
    """operator_from_eigenstates for given (also non-orthogonal) states and arbitrary eigenvalues"""
    from surface_potential_analysis.state_vector.eigenstate_calculation import operator_from_eigenstates

    r = np.random.RandomState(n + 40)
    X = np.eye(n) + 0.4 * (r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)))
    w = env.cvec("w", n)
    a = env.pick("basis", [("P", n), ("K", n)])
    o = operator_from_eigenstates({"basis": tup(fb(n), B(a)), "data": env.array(X.T) .reshape(-1), "eigenvalue": w})
    A = M(o)
    for i in range(n):
        env.eq(A @ X[:, i], w[i] * X[:, i], "A v = w v")
    env.true(o["data"].ndim == 1, "flat")
    isbasis(env, o["basis"][0], a)
    isbasis(env, o["basis"][1], a)
