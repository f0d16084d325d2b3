"""C07: operator algebra."""
from __future__ import annotations

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import dag
from .spectral import Spectral, rng_unitary

BOUNDS = "matrices up to 4x4, rectangular where allowed, lists of 1-3, second operand in any of 5 bases of the same grid (incl. truncated), stacked 2x2 grid"
T = ("operator.operations.*", "operator.operator.matmul_operator/add_operator/subtract_operator/as_operator/as_diagonal_operator", "operator.operator_list.*")


def alts(n):
    return [("P", n), ("K", n), ("TP", n - 1, n), ("R", n - 1, n)]


STK = [[("P", 2), ("K", 2)], [("K", 2), ("K", 2)], [("P", 2), ("TP", 1, 2)]]


def opts(g):
    return STK if g == "stack" else alts(g)


G = [{"g": 3}, {"g": "stack"}]


@harness("C07", [{"g": 3}, {"g": 2}], [{"g": 4}, {"g": 6}], T)
def single_operators(env, g):
    """sum, difference, scaling, product, (anti)commutator"""
    from surface_potential_analysis.operator import operations as o
    from surface_potential_analysis.operator.operator import add_operator, matmul_operator, subtract_operator

    a, b, c = env.pick("bases", [(("P", g), ("K", g), ("TP", g - 1, g)), (("TP", g - 1, g), ("P", g), ("P", g)), (("K", g), ("R", g - 1, g), ("K", g))])
    m, m2 = env.cvec("m", N(a), N(b)), env.cvec("n", N(a), N(b))
    k = env.cvec("k", N(b), N(c))
    s = env.cplx("s")
    sq, sq2 = env.cvec("x", N(a), N(a)), env.cvec("y", N(a), N(a))
    before = snap(m, m2, k, sq, sq2)

    def chk(r, e, x, y, what):
        env.true(r["data"].ndim == 1, what + " data is flat")
        env.true(tuple(r["basis"].shape) == (N(x), N(y)), what + " shape")
        isbasis(env, r["basis"][0], x)
        isbasis(env, r["basis"][1], y)
        env.eq(M(r), e, what)

    chk(add_operator(op(m, a, b), op(m2, a, b)), m + m2, a, b, "sum")
    chk(subtract_operator(op(m, a, b), op(m2, a, b)), m - m2, a, b, "difference")
    chk(o.scale_operator(s, op(m, a, b)), s * m, a, b, "scaled")
    chk(matmul_operator(op(m, a, b), op(k, b, c)), m @ k, a, c, "product")
    chk(o.get_commutator(op(sq, a), op(sq2, a)), sq @ sq2 - sq2 @ sq, a, a, "commutator")
    chk(o.get_anti_commutator(op(sq, a), op(sq2, a)), sq @ sq2 + sq2 @ sq, a, a, "anticommutator")
    # results combine with each other
    r = add_operator(matmul_operator(op(sq, a), op(sq2, a)), o.scale_operator(s, op(sq, a)))
    chk(r, sq @ sq2 + s * sq, a, a, "chained")
    unchanged(env, before, m, m2, k, sq, sq2)


@harness("C07", G, [{"g": 4}, {"g": 6}], T)
def list_products(env, g):
    """list times operator and operator times list, the other operand in any basis"""
    from surface_potential_analysis.operator import operations as o

    al = opts(g)
    a, b, c, d = env.pick("bases", [(al[0], al[1], al[0], al[2]), (al[1], al[2], al[0], al[1]), (al[2], al[0], al[2], al[0]), (al[0], al[0], al[1], al[1]), (al[-1], al[0], al[-1], al[2])])
    k = env.pick("count", [1, 2, 3] if g == 3 else [2])
    L = env.cvec("L", k, N(a), N(b))
    R = env.cvec("R", N(c), N(d))
    before = snap(L, R)
    r = o.matmul_list_operator(oplist(L, a, b), op(R, c, d))
    cR = conv(c, b) @ R
    env.true(r["basis"][0].n == k and r["data"].ndim == 1, "list length")
    isbasis(env, r["basis"][1][0], a)
    isbasis(env, r["basis"][1][1], d)
    for i in range(k):
        env.eq(ML(r)[i], L[i] @ cR, "list @ operator")
    r = o.matmul_operator_list(op(R, c, d), oplist(L, a, b))
    env.true(r["basis"][0].n == k and r["data"].ndim == 1, "list length")
    isbasis(env, r["basis"][1][0], c)
    isbasis(env, r["basis"][1][1], b)
    for i in range(k):
        env.eq(ML(r)[i], R @ conv(a, d) @ L[i], "operator @ list")
    unchanged(env, before, L, R)


@harness("C07", G, [{"g": 4}, {"g": 6}], T)
def diagonal_list_products(env, g):
    from surface_potential_analysis.operator import operations as o

    al = opts(g)
    a, c, d = env.pick("bases", [(al[0], al[0], al[2]), (al[1], al[0], al[1]), (al[2], al[1], al[0]), (al[0], al[2], al[2])])
    b = env.pick("bra", [x for x in al if N(x) == N(a)])
    k = env.pick("count", [1, 2, 3] if g == 3 else [2])
    D = env.cvec("D", k, N(a))
    R = env.cvec("R", N(c), N(d))
    before = snap(D, R)
    dl = {"basis": tup(fb(k), tup(B(a), B(b))), "data": D.reshape(-1)}
    r = o.matmul_diagonal_list_operator(dl, op(R, c, d))
    env.true(r["basis"][0].n == k and r["data"].ndim == 1, "list length")
    isbasis(env, r["basis"][1][0], a)
    isbasis(env, r["basis"][1][1], d)
    for i in range(k):
        env.eq(ML(r)[i], np.diag(D[i]) @ conv(c, b) @ R, "diagonal list @ operator")
    r = o.matmul_operator_diagonal_list(op(R, c, d), dl)
    env.true(r["basis"][0].n == k and r["data"].ndim == 1, "list length")
    isbasis(env, r["basis"][1][0], c)
    isbasis(env, r["basis"][1][1], b)
    for i in range(k):
        env.eq(ML(r)[i], R @ conv(a, d) @ np.diag(D[i]), "operator @ diagonal list")
    unchanged(env, before, D, R)


@harness("C07", G, [{"g": 4}, {"g": 6}], T)
def list_sums(env, g):
    from surface_potential_analysis.operator import operations as o

    al = opts(g)
    a, b, c, d = env.pick("bases", [(al[0], al[1], al[0], al[2]), (al[1], al[2], al[0], al[1]), (al[2], al[0], al[2], al[0])])
    k = env.pick("count", [1, 2, 3] if g == 3 else [2])
    L, R = env.cvec("L", k, N(a), N(b)), env.cvec("R", k, N(c), N(d))
    s = env.cplx("s")
    before = snap(L, R)
    cR = [conv(c, a) @ R[i] @ dag(conv(d, b)) for i in range(k)]
    for r, e, w in ((o.add_list_list(oplist(L, a, b), oplist(R, c, d)), [L[i] + cR[i] for i in range(k)], "sum"),
                    (o.subtract_list_list(oplist(L, a, b), oplist(R, c, d)), [L[i] - cR[i] for i in range(k)], "difference"),
                    (o.scale_operator_list(s, oplist(L, a, b)), [s * L[i] for i in range(k)], "scaled")):
        env.true(r["basis"][0].n == k, "list length")
        isbasis(env, r["basis"][1][0], a)
        isbasis(env, r["basis"][1][1], b)
        for i in range(k):
            env.eq(ML(r)[i], e[i], w)
    unchanged(env, before, L, R)


@harness("C07", G, [{"g": 4}, {"g": 6}], T)
def list_commutators(env, g):
    from surface_potential_analysis.operator import operations as o

    al = opts(g)
    a, b, c = env.pick("bases", [(al[0], al[1], al[0]), (al[1], al[2], al[0]), (al[2], al[0], al[0]), (al[0], al[0], al[0])])
    k = env.pick("count", [1, 2, 3] if g == 3 else [2])
    A, L = env.cvec("A", N(a), N(a)), env.cvec("L", k, N(b), N(c))
    before = snap(A, L)
    r = o.get_commutator_operator_list(op(A, a), oplist(L, b, c))
    env.true(r["basis"][0].n == k, "list length")
    isbasis(env, r["basis"][1][0], a)
    isbasis(env, r["basis"][1][1], a)
    for i in range(k):
        x = conv(b, a) @ L[i] @ dag(conv(c, a))
        env.eq(ML(r)[i], A @ x - x @ A, "[A, L_i]")
    unchanged(env, before, A, L)
    # diagonal lists; the operator in the list's own basis and in another one
    D = env.cvec("D", k, N(b))
    dl = {"basis": tup(fb(k), tup(B(b), B(b))), "data": D.reshape(-1)}
    r = o.get_commutator_diagonal_operator_list(op(A, a), dl)
    isbasis(env, r["basis"][1][0], a)
    isbasis(env, r["basis"][1][1], b)
    for i in range(k):
        left = A @ conv(b, a) @ np.diag(D[i])
        right = np.diag(D[i]) @ conv(a, b) @ A  # (b, a)
        env.eq(ML(r)[i], left - conv(b, a) @ right @ conv(b, a), "[A, diag_i]")


@harness("C07", G, [{"g": 4}, {"g": 6}], T)
def diagonal_full(env, g):
    """diagonal <-> full for single operators and lists"""
    from surface_potential_analysis.operator import operator as so
    from surface_potential_analysis.operator import operator_list as lo

    al = opts(g)
    a = env.pick("ket", al)
    b = env.pick("bra", [x for x in al if N(x) == N(a)])
    n = N(a)
    k = env.pick("count", [1, 2, 3])
    v, m = env.cvec("v", n), env.cvec("m", n, n)
    V, L = env.cvec("V", k, n), env.cvec("L", k, n, n)
    r = so.as_operator(dop(v, a, b))
    env.true(r["data"].ndim == 1, "flat")
    env.eq(M(r), np.diag(v), "diagonal as full")
    env.eq(so.as_diagonal_operator(op(m, a, b))["data"], np.diag(m), "diagonal of full")
    dl = {"basis": tup(fb(k), tup(B(a), B(b))), "data": V.reshape(-1)}
    f = lo.diagonal_operator_list_as_full(dl)
    d = lo.operator_list_as_diagonal(oplist(L, a, b))
    for r in (f, d):
        env.true(r["basis"][0].n == k and r["data"].ndim == 1, "list length")
        isbasis(env, r["basis"][1][0], a)
        isbasis(env, r["basis"][1][1], b)
    env.eq(d["data"].reshape(k, n), env.array([np.diag(x) for x in L]), "diagonals of list")
    env.eq(lo.operator_list_as_diagonal(f)["data"], V.reshape(-1), "diagonal list round trip")
    for i in range(k):
        env.eq(ML(f)[i], np.diag(V[i]), "list as full")
        for x in (lo.select_diagonal_operator(dl, i), lo.as_diagonal_operator(dl, i)):
            env.eq(x["data"], V[i], "selected diagonal")
            isbasis(env, x["basis"][0], a)
            isbasis(env, x["basis"][1], b)
        for pick in (lo.select_diagonal_operator, lo.as_diagonal_operator):
            env.eq(pick(dl, i - len(V))["data"], V[i], "counted from the end")
    fl = lo.as_flat_operator({"basis": tup(fb(k), tup(tup(B(a)), tup(B(a)))), "data": V.reshape(-1)})
    env.eq(fl["data"], V.reshape(-1), "flat operator data")
    env.true(fl["basis"][0].n == k * n and fl["basis"][1].n == k * n and fl["basis"][0].shape[0] == k, "flat operator basis")


@harness("C07", G, [{"g": 5}], T)
def list_handling(env, g):
    """select / iterate / rebuild keep every operator and its order"""
    from surface_potential_analysis.operator import operator_list as lo

    al = opts(g)
    a, b = env.pick("bases", [(al[0], al[1]), (al[2], al[0]), (al[1], al[2])])
    k = env.pick("count", [1, 2, 3])
    L = env.cvec("L", k, N(a), N(b))
    l = oplist(L, a, b)
    it = list(lo.operator_list_into_iter(l))
    env.true(len(it) == k, "number of operators")
    for i in range(k):
        s = lo.select_operator(l, i)
        for x in (it[i], s):
            isbasis(env, x["basis"][0], a)
            isbasis(env, x["basis"][1], b)
            env.eq(M(x), L[i], f"operator {i}")
    r = lo.operator_list_from_iter(it)
    env.true(r["basis"][0].n == k and r["data"].ndim == 1, "list length")
    env.eq(ML(r), L, "rebuilt list")
    isbasis(env, r["basis"][1][0], a)
    r = lo.operator_list_from_iter([op(L[i], a, b) for i in reversed(range(k))])
    env.eq(ML(r), L[::-1], "list from operators")
    env.eq(lo.select_operator(l, -1)["data"], L[-1].reshape(-1), "negative index")


@harness("C07", [{"n": 2}, {"n": 3}], [{"n": 4}], ("operator.operations.exp_operator", "operator.operator.apply_function_to_operator", "state_vector.eigenstate_calculation.operator_from_eigenstates"))
def functions_of_operators(env, n):
    """exponential and general functions act on the spectrum, also for non-normal operators"""
    from surface_potential_analysis.operator.operations import exp_operator
    from surface_potential_analysis.operator.operator import apply_function_to_operator

    sp = Spectral(env, phases=False)
    kind = env.pick("kind", ["hermitian", "non-normal"])
    r = np.random.RandomState(n)
    X = rng_unitary(n, 3) if kind == "hermitian" else np.eye(n) + 0.4 * (r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)))
    Xi = np.linalg.inv(X)
    E = sp.energies("E", n)
    if kind != "hermitian":
        E = E + 1j * env.rvec("G", n, lo=-0.5, hi=0.0)
    A = sp.build(E, X, Xi)
    a = env.pick("basis", [("P", n), ("K", n)])

    def f(D):
        return sum(D[j] * np.outer(X[:, j], Xi[j]) for j in range(n))

    e = exp_operator(op(A, a))
    env.eq(M(e), f(np.exp(E)), "exponential")
    isbasis(env, e["basis"][0], a)
    isbasis(env, e["basis"][1], a)
    q = apply_function_to_operator(op(A, a), lambda x: x * x + 2 * x)
    env.true(q["data"].ndim == 1, "flat")
    env.eq(M(q), A @ A + 2 * A, "polynomial of an operator")
