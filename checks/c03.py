"""C03: operator basis conversion."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import bm, dag

BOUNDS = "single axes of 2-5 points, stacks up to 2x3 (thorough 2x2x2); ket and bra bases of mixed kinds/truncations; lists of 1-3 operators"
T = ("basis.basis_like.convert_matrix", "operator.conversion.*", "operator.operator.as_operator", "operator.operator_list.diagonal_operator_list_as_full")


def alts(n):
    a = [("P", n), ("K", n), ("TP", n - 1, n), ("R", n - 1, n)]
    if n % 2 == 0:
        a += [("ETP", n // 2, 2, 1), ("E", n // 2, 2, -1)]
    return a


S1 = [{"g": 3}, {"g": 4}]
STK = [[("P", 2), ("K", 3)], [("K", 2), ("K", 3)], [("TP", 1, 2), ("P", 3)], [("K", 2), ("TP", 2, 3)], [("P", 2), ("P", 3)]]
ST3 = [[("P", 2), ("K", 2), ("P", 2)], [("K", 2), ("K", 2), ("K", 2)], [("TP", 1, 2), ("P", 2), ("ETP", 1, 2, 1)]]


def opts(g):
    return STK if g == "stack" else ST3 if g == "stack3" else alts(g)


@harness("C03", [*S1, {"g": "stack"}], [{"g": 5}, {"g": 7}, {"g": "stack3"}], T)
def convert_operator(env, g):
    """ket by ket, bra by conjugate; matrix elements, trace, hermiticity"""
    from surface_potential_analysis.basis.basis_like import convert_matrix
    from surface_potential_analysis.operator.conversion import convert_operator_to_basis
    from surface_potential_analysis.state_vector.conversion import convert_state_vector_to_basis

    o = opts(g)
    a, b = env.pick("ket", o), env.pick("bra", o[::-1])
    m = env.cvec("m", N(a), N(b))
    m0 = m.copy()
    for c, d in list(itertools.product(o, o))[:: 1 if len(o) < 4 else 2] + [(a, b), (a, a), (b, b)]:
        r = convert_operator_to_basis(op(m, a, b), tup(B(c), B(d)))
        exp = conv(a, c) @ m @ dag(conv(b, d))
        env.true(tuple(r["basis"].shape) == (N(c), N(d)) and r["data"].ndim == 1, "shape")
        isbasis(env, r["basis"][0], c)
        isbasis(env, r["basis"][1], d)
        env.eq(M(r), exp, f"{a},{b} -> {c},{d}")
        env.eq(convert_matrix(m, B(a), B(c), B(b), B(d)), exp, "convert_matrix")
    env.eq(m, m0, "operand unmodified")
    # action on states: complete intermediate bases
    full = [f for f in o if N(f) == FN(f)]
    v = env.cvec("v", N(b))
    for f in full:
        r = convert_operator_to_basis(op(m, a, b), tup(B(f), B(f)))
        w = convert_state_vector_to_basis(vec(v, b), B(f))["data"]
        env.eq(M(r) @ w, convert_state_vector_to_basis(vec(m @ v, a), B(f))["data"], "action")


@harness("C03", [*S1, {"g": "stack"}], [{"g": 5}, {"g": 6}, {"g": "stack3"}], T)
def hermitian_and_trace(env, g):
    """unitary changes of basis keep hermiticity and trace"""
    from surface_potential_analysis.operator.conversion import convert_operator_to_basis

    o = [f for f in opts(g) if N(f) == FN(f)]
    a = env.pick("source", o)
    n = N(a)
    h, m = env.hermitian("h", n), env.cvec("m", n, n)
    for c in o:
        rh = M(convert_operator_to_basis(op(h, a), tup(B(c), B(c))))
        env.eq(rh, dag(rh), "hermitian")
        rm = M(convert_operator_to_basis(op(m, a), tup(B(c), B(c))))
        env.eq(np.trace(rm), np.trace(m), "trace")
        env.eq(np.sum(np.abs(rm) ** 2), np.sum(np.abs(m) ** 2), "Frobenius norm", scale=float(n))


@harness("C03", [*S1, {"g": "stack"}], [{"g": 5}, {"g": 6}, {"g": "stack3"}], T)
def diagonal_conversion(env, g):
    """a diagonal operator (list) converts as the same operator written in full"""
    from surface_potential_analysis.operator.conversion import (
        convert_diagonal_operator_list_to_basis,
        convert_diagonal_operator_to_basis,
        convert_operator_list_to_basis,
    )

    o = opts(g)
    a = env.pick("source", o)
    b = env.pick("source bra", [x for x in o if N(x) == N(a)])
    n = N(a)
    k = env.pick("count", [1, 2, 3] if g == 3 else [2])
    v = env.cvec("v", n)
    vl = env.cvec("l", k, n)
    ml = env.cvec("ml", k, n, N(o[2]))
    for c, d in zip(o, o[1:] + o[:1]):
        L, R = conv(a, c), dag(conv(b, d))
        r = convert_diagonal_operator_to_basis(dop(v, a, b), tup(B(c), B(d)))
        env.eq(M(r), L @ np.diag(v) @ R, "diagonal")
        rl = convert_diagonal_operator_list_to_basis({"basis": tup(fb(k), tup(B(a), B(b))), "data": vl.reshape(-1)}, tup(B(c), B(d)))
        env.true(rl["basis"][0].n == k and tuple(rl["basis"][1].shape) == (N(c), N(d)), "list shape")
        isbasis(env, rl["basis"][1][0], c)
        isbasis(env, rl["basis"][1][1], d)
        for i in range(k):
            env.eq(ML(rl)[i], L @ np.diag(vl[i]) @ R, "diagonal list")
        rf = convert_operator_list_to_basis({"basis": tup(fb(k), tup(B(a), B(o[2]))), "data": ml.reshape(-1)}, tup(B(c), B(d)))
        for i in range(k):
            env.eq(ML(rf)[i], L @ ml[i] @ dag(conv(o[2], d)), "full list")


@harness("C03", [{}], None, T)
def through_complete_and_back(env):
    """to a complete basis and back: unchanged, for operators and lists"""
    from surface_potential_analysis.operator.conversion import convert_operator_list_to_basis, convert_operator_to_basis

    g = env.pick("grid", [3, 4, "stack"])
    o = opts(g)
    a, b = env.pick("ket", o), env.pick("bra", o[1:])
    m = env.cvec("m", 2, N(a), N(b))
    for c in [f for f in o if N(f) == FN(f)]:
        r = convert_operator_to_basis(op(m[0], a, b), tup(B(c), B(c)))
        env.eq(M(convert_operator_to_basis(r, tup(B(a), B(b)))), m[0], "operator")
        rl = convert_operator_list_to_basis({"basis": tup(fb(2), tup(B(a), B(b))), "data": m.reshape(-1)}, tup(B(c), B(c)))
        env.eq(ML(convert_operator_list_to_basis(rl, tup(B(a), B(b)))), m, "list")


@harness("C03", [{"n": 3, "k": 2}], [{"n": 4, "k": 3}], T)
def explicit_target(env, n, k):
    """conversion to (symbolic or fixed) explicit states"""
    from surface_potential_analysis.basis.explicit_basis import ExplicitBasis
    from surface_potential_analysis.operator.conversion import convert_operator_to_basis

    from .spectral import rng_unitary

    a = env.pick("source", [("P", n), ("K", n)])
    U = rng_unitary(n, 5)[:k]
    E = ExplicitBasis(vlist(env.array(U) * (1 + 0j), a))
    m = env.cvec("m", n, n)
    b = env.pick("bra", [("P", n), ("K", n), ("TP", n - 1, n)])
    m2 = m[:, : N(b)]
    env.eq(M(convert_operator_to_basis(op(m2, a, b), tup(E, B(b)))), np.conj(U) @ m2, "ket to explicit")
    env.eq(M(convert_operator_to_basis(op(m, a), tup(E, E))), np.conj(U) @ m @ U.T, "both to explicit")
    p = env.cvec("p", k, k)
    env.eq(M(convert_operator_to_basis({"basis": tup(E, E), "data": p.reshape(-1)}, tup(B(a), B(a)))), U.T @ p @ np.conj(U), "from explicit")
