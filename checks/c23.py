"""C23: probability vectors."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403

BOUNDS = "1-3 axes of 1-3 points for the states, lists of 1-3 states with 1-3 list axes, every subset and order of axes; all amplitudes / probabilities symbolic"
T = ("probability_vector.probability_vector.*", "probability_vector.conversion.*")


def specs(d):
    return {1: [[("P", 3)], [("K", 2)], [("TP", 2, 3)]], 2: [[("P", 2), ("K", 3)], [("TP", 1, 2), ("P", 2)]], 3: [[("P", 2), ("K", 3), ("P", 2)]]}[d]


def subsets(d, perm=False):
    f = itertools.permutations if perm else itertools.combinations
    return [s for r in range(1, d + 1) for s in f(range(d), r)]


@harness("C23", [{"d": 1}, {"d": 2}, {"d": 3}], [], T)
def modulus(env, d):
    """|amplitude|^2 in the same basis; total = squared norm; single = list"""
    from surface_potential_analysis.probability_vector.probability_vector import from_state_vector, from_state_vector_list, get_probability

    a = env.pick("basis", specs(d))
    n, k = N(a), env.pick("count", [1, 2, 3] if d < 3 else [2])
    V = env.cvec("V", k, n)
    v0 = V.copy()
    E = V * np.conj(V)
    L = from_state_vector_list(vlist(V, a))
    env.true(tuple(L["basis"].shape) == (k, n) and L["data"].ndim == 1, "list shape")
    isbasis(env, L["basis"][1], a)
    env.eq(L["data"].reshape(k, n), E, "list of probabilities")
    for i in range(k):
        p = from_state_vector(vec(V[i], a))
        isbasis(env, p["basis"], a)
        env.eq(p["data"], E[i], "probability")
        env.eq(np.sum(p["data"]), np.sum(np.abs(V[i]) ** 2), "total")
        q = get_probability(L, i)
        isbasis(env, q["basis"], a)
        env.eq(q["data"], E[i], "selected probability")
    env.eq(get_probability(L)["data"], E[0], "default: the first")
    env.eq(get_probability(L, -1)["data"], E[-1], "counted from the end")
    env.eq(V, v0, "state unmodified")


@harness("C23", [{"d": 1}, {"d": 2}, {"d": 3}], [], T)
def marginals(env, d):
    """sums over axes of the state basis, single and list"""
    from surface_potential_analysis.probability_vector.probability_vector import sum_probabilities, sum_probability

    a = env.pick("basis", specs(d))
    sh = tuple(N(x) for x in a)
    k = env.pick("count", [1, 2])
    P = env.rvec("p", k, *sh, lo=0.0)
    p0 = P.copy()
    sub = env.pick("axes", [None, *subsets(d, True)])
    sm = tuple(range(d)) if sub is None else sub
    E = np.sum(P, axis=tuple(i + 1 for i in sm)).reshape(k, -1)
    keep = [x for i, x in enumerate(a) if i not in sm]
    L = {"basis": tup(fb(k), B(a)), "data": P.reshape(-1)}
    r = sum_probabilities(L, sub)
    env.true(r["basis"][0].n == k and tuple(r["basis"][1].shape) == tuple(N(x) for x in keep) and r["data"].ndim == 1, "list basis")
    env.eq(r["data"].reshape(k, -1), E, "marginal of the list")
    if keep:
        isbasis(env, r["basis"][1], keep)
    env.eq(np.sum(r["data"]), np.sum(P), "total preserved")
    for i in range(k):
        r = sum_probability({"basis": B(a), "data": P[i].reshape(-1)}, sub)
        env.true(tuple(r["basis"].shape) == tuple(N(x) for x in keep) and r["data"].ndim == 1, "basis")
        env.eq(r["data"], E[i], "marginal")
        if keep:
            isbasis(env, r["basis"], keep)
    env.eq(P, p0, "data unmodified")


@harness("C23", [{"d": 1}, {"d": 2}, {"d": 3}], [], T)
def list_axes(env, d):
    """averages over and selections along the list axes"""
    from surface_potential_analysis.probability_vector.probability_vector import average_probabilities, get_probability, get_probability_along_axis

    sh = (3, 2, 2)[:d] if d < 3 else (2, 3, 2)
    a = env.pick("basis", [("P", 2), [("P", 2), ("K", 2)]])
    n = N(a)
    P = env.rvec("p", *sh, n, lo=0.0)
    p0 = P.copy()
    lb = B([("F", k) for k in sh])
    L = {"basis": tup(lb, B(a)), "data": P.reshape(-1)}
    sub = env.pick("axes", subsets(d, True))
    r = average_probabilities(L, sub)
    keep = [k for i, k in enumerate(sh) if i not in sub]
    env.true(tuple(r["basis"][0].shape) == tuple(keep) and r["data"].ndim == 1, "list basis")
    isbasis(env, r["basis"][1], a)
    env.eq(r["data"] * np.prod([sh[i] for i in sub]), np.sum(P, axis=tuple(sub)).reshape(-1), "mean over the axes")
    if len(sub) == 1:
        w = env.rvec("w", sh[sub[0]], lo=0.5, hi=2.0)
        r = average_probabilities(L, sub, weights=w)
        ww = w.reshape([-1 if i == sub[0] else 1 for i in range(d)] + [1])
        env.eq(r["data"] * np.sum(w), np.sum(P * ww, axis=sub[0]).reshape(-1), "weighted mean")
    r = average_probabilities(L)
    isbasis(env, r["basis"], a)
    env.eq(r["data"] * np.prod(sh), np.sum(P, axis=tuple(range(d))), "default: every axis")
    rest = [i for i in range(d) if i not in sub]
    idx = tuple(env.pick(f"i{i}", [*range(sh[i]), -1]) for i in rest)
    r = get_probability_along_axis(L, sub, idx)
    env.true(tuple(r["basis"][0].shape) == tuple(sh[i] for i in sub) and r["data"].ndim == 1, "list basis of the selection")
    isbasis(env, r["basis"][1], a)
    E = np.transpose(P, (*sub, *rest, d))[(*[slice(None)] * len(sub), *idx)]
    env.eq(r["data"], E.reshape(-1), "selection along the axes")
    if all(i == 0 for i in idx):
        env.eq(get_probability_along_axis(L, sub)["data"], E.reshape(-1), "default index")
    full = tuple(env.pick(f"j{i}", [0, k - 1]) for i, k in enumerate(sh))
    q = get_probability(L, full)
    env.eq(q["data"], P[full], "stacked index")
    isbasis(env, q["basis"], a)
    env.eq(P, p0, "data unmodified")


@harness("C23", [{"d": 1}, {"d": 2}], [], T)
def conversion(env, d):
    """basis conversion of probability vectors, single and list"""
    from surface_potential_analysis.probability_vector import conversion as c

    a = env.pick("basis", specs(d))
    P = [("P", FN([x])) for x in a]
    K = [("K", FN([x])) for x in a]
    k = env.pick("count", [1, 2])
    V = env.rvec("p", k, N(a), lo=0.0)
    t = env.pick("to", [P, K])
    L = c.convert_probability_vector_list_to_basis({"basis": tup(fb(k), B(a)), "data": V.reshape(-1)}, B(t))
    env.true(L["basis"][0].n == k and L["data"].ndim == 1, "list")
    isbasis(env, L["basis"][1], t)
    env.eq(L["data"].reshape(k, -1), V @ conv(a, t).T, "list converted")
    f = c.convert_probability_vector_to_position_basis if t is P else c.convert_probability_vector_to_momentum_basis
    for i in range(k):
        for r in (c.convert_probability_vector_to_basis({"basis": B(a), "data": V[i]}, B(t)), f({"basis": B(a), "data": V[i]})):
            isbasis(env, r["basis"], t)
            env.eq(r["data"], conv(a, t) @ V[i], "converted")
