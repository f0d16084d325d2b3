"""C09: state vectors and lists of them."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import freqs

BOUNDS = "states of 1-4 components (stacked 2x2, 2x3), lists of 1-3 states, list axes up to 3, all axis subsets and orders, every index; all amplitudes symbolic; state bases position/momentum/truncated/stacked"
T = ("state_vector.state_vector.*", "state_vector.state_vector_list.*", "state_vector.conversion.*", "state_vector.util.get_single_point_state_vector_excact", "state_vector.eigenstate_list.*")


def alts(g):
    if g == "stack":
        return [[("P", 2), ("K", 2)], [("K", 2), ("K", 2)], [("P", 2), ("TP", 1, 2)]]
    return [("P", g), ("K", g), ("TP", g - 1, g), ("RP", g - 1, g)]


G = [{"g": 2}, {"g": 3}, {"g": "stack"}]
GT = [{"g": 4}, {"g": 5}]


@harness("C09", G, GT, T)
def inner(env, g):
    """<a|b>: sesquilinear, conjugate symmetric, norm, independent of the basis"""
    from surface_potential_analysis.state_vector.conversion import convert_state_dual_vector_to_basis, convert_state_vector_to_basis
    from surface_potential_analysis.state_vector.state_vector import as_dual_vector, as_vector, calculate_inner_product, calculate_normalization

    al = alts(g)
    a, b = env.pick("bases", [(al[0], al[1]), (al[1], al[0]), (al[0], al[0]), (al[2], al[1])])
    n = N(a)
    x, y, z = env.cvec("x", n), env.cvec("y", n), env.cvec("z", n)
    c = env.cplx("c")
    before = snap(x, y, z)
    X, Y, Z = vec(x, a), vec(y, a), vec(z, a)
    ip = calculate_inner_product
    d = as_dual_vector(X)
    env.eq(d["data"], np.conj(x), "dual data")
    env.true(d["basis"] is X["basis"], "dual basis")
    env.eq(as_vector(d)["data"], x, "dual of the dual")
    env.eq(ip(Y, d), np.sum(np.conj(x) * y), "value")
    env.eq(ip(vec(y + c * z, a), d), ip(Y, d) + c * ip(Z, d), "linear in the ket")
    env.eq(ip(Y, as_dual_vector(vec(x + c * z, a))), ip(Y, d) + np.conj(c) * ip(Y, as_dual_vector(Z)), "conjugate linear in the bra")
    env.eq(ip(Y, d), np.conj(ip(X, as_dual_vector(Y))), "conjugate symmetric")
    env.eq(calculate_normalization(X), np.sum(np.abs(x) ** 2), "norm")
    env.eq(calculate_normalization(d), np.sum(np.abs(x) ** 2), "norm of the dual")
    t = B(b)
    kb, db = convert_state_vector_to_basis(Y, t), convert_state_dual_vector_to_basis(d, t)
    env.true(kb["basis"] is t and db["basis"] is t, "converted basis")
    env.eq(kb["data"], conv(a, b) @ y, "converted ket")
    env.eq(db["data"], np.conj(conv(a, b)) @ np.conj(x), "converted bra")
    env.eq(ip(kb, db), np.sum(np.conj(x) * y), "basis independent")
    unchanged(env, before, x, y, z)


@harness("C09", [{"d": 1}, {"d": 2}], [{"d": 3}], T)
def position_momentum(env, d):
    """position and momentum forms of kets and bras"""
    from surface_potential_analysis.state_vector import conversion as c

    axes = env.pick("axes", [[s for s in itertools.islice(itertools.cycle(o), d)] for o in (
        [("P", 2), ("K", 3), ("TP", 2, 3)], [("TP", 2, 3), ("K", 2), ("P", 2)], [("K", 3), ("TP", 1, 2), ("RP", 1, 2)])])
    v = env.cvec("v", N(axes))
    v0 = v.copy()
    P, K = [("P", fs(s)) for s in axes], [("K", fs(s)) for s in axes]
    for spec, f, g in ((P, c.convert_state_vector_to_position_basis, c.convert_state_dual_vector_to_position_basis), (K, c.convert_state_vector_to_momentum_basis, c.convert_state_dual_vector_to_momentum_basis)):
        r = f(vec(v, axes))
        isbasis(env, r["basis"], spec)
        env.eq(r["data"], conv(axes, spec) @ v, "ket")
        r = g(vec(v, axes))
        isbasis(env, r["basis"], spec)
        env.eq(r["data"], np.conj(conv(axes, spec)) @ v, "bra")
    env.eq(v, v0, "unmodified")


def fs(s):
    return s[2] if s[0] in ("TP", "RP") else s[1]


@harness("C09", [{"d": 1}, {"d": 2}], [{"d": 3}], T)
def interpolate(env, d):
    """a state interpolated in momentum space is the same function on a finer grid"""
    from surface_potential_analysis.state_vector.conversion import convert_state_vector_to_position_basis, interpolate_state_vector_momentum

    n = (3, 2, 2)[:d]
    spec = env.pick("from", [[("P", k) for k in n], [("K", k) for k in n], [("TP", k - 1 if k > 2 else k, k) for k in n], [("TP", 1, k) if i else ("P", k) for i, k in enumerate(n)]])
    sub = env.pick("axes", [s for r in range(1, d + 1) for s in itertools.permutations(range(d), r)])
    new = {ax: n[ax] * 2 for ax in sub}
    v = env.cvec("v", N(spec))
    v0 = v.copy()
    r = interpolate_state_vector_momentum(vec(v, spec), tuple(new[ax] for ax in sub), sub)
    env.true(tuple(r["basis"].shape) == n, "number of coefficients")
    env.true(tuple(r["basis"].fundamental_shape) == tuple(new.get(i, n[i]) for i in range(d)), "fundamental shape")
    for i in range(d):
        env.eq(r["basis"][i].delta_x, np.array([2.5]), "cell")
    p = convert_state_vector_to_position_basis(r)["data"].reshape(*[new.get(i, n[i]) for i in range(d)])
    p = p[tuple(slice(None, None, 2) if i in new else slice(None) for i in range(d))]
    env.eq(p.reshape(-1), BM(spec) @ v, "passes through the original points")
    env.eq(v, v0, "unmodified")


@harness("C09", G, GT, T)
def lists(env, g):
    """select, iterate, stack, weight, single points and basis states"""
    from surface_potential_analysis.state_vector import state_vector_list as s
    from surface_potential_analysis.state_vector.util import get_single_point_state_vector_excact

    a = env.pick("basis", alts(g))
    n, k = N(a), env.pick("count", [1, 2, 3])
    V = env.cvec("V", k, n)
    W = env.cvec("W", k)
    v0 = V.copy()
    l = vlist(V, a)
    it = list(s.state_vector_list_into_iter(l))
    env.true(len(it) == k, "number")
    for i in range(k):
        r = s.get_state_vector(l, i)
        env.eq(r["data"], V[i], "selected")
        isbasis(env, r["basis"], a)
        env.eq(s.get_state_dual_vector(l, i)["data"], np.conj(V[i]), "selected dual")
        isbasis(env, s.get_state_dual_vector(l, i)["basis"], a)
        env.eq(s.get_state_vector(l, i - k)["data"], V[i], "selected from the end")
        env.eq(s.get_state_dual_vector(l, i - k)["data"], np.conj(V[i]), "selected dual from the end")
        env.eq(it[i]["data"], V[i], "iterated")
        isbasis(env, it[i]["basis"], a)
    b = s.as_state_vector_list(it)
    env.true(b["basis"][0].n == k and b["data"].ndim == 1, "stacked shape")
    isbasis(env, b["basis"][1], a)
    env.eq(b["data"], V.reshape(-1), "stacked")
    b = s.as_state_vector_list({"basis": B(a), "data": V[i]} for i in reversed(range(k)))
    env.eq(b["data"].reshape(k, n)[::-1], V, "stacked from a generator, in order")
    r = s.get_weighted_state_vector(l, {"basis": l["basis"][0], "data": W})
    env.eq(r["data"], W @ V, "weighted sum")
    isbasis(env, r["basis"], a)
    bs = s.get_basis_states(B(a))
    env.eq(bs["data"], np.eye(n).reshape(-1), "basis states")
    isbasis(env, bs["basis"][1], a)
    i = env.pick("point", list(range(n)))
    p = get_single_point_state_vector_excact(B(a), i)
    env.eq(p["data"], np.eye(n)[i], "single point")
    env.eq(V, v0, "unmodified")


@harness("C09", G, GT, T)
def list_products(env, g):
    """all pairs, element by element, with eigenvalues; each state converted on its own"""
    from surface_potential_analysis.state_vector import state_vector_list as s
    from surface_potential_analysis.state_vector.conversion import convert_state_vector_list_to_basis

    al = alts(g)
    a, b = env.pick("bases", [(al[0], al[1]), (al[1], al[0]), (al[0], al[0]), (al[2], al[1]), (al[0], al[3] if len(al) > 3 else al[2])])
    k, l = env.pick("counts", [(1, 2), (2, 2), (3, 2), (2, 3)])
    X, Y = env.cvec("X", k, N(a)), env.cvec("Y", l, N(b))
    before = snap(X, Y)
    C = conv(b, a)
    r = s.calculate_inner_products(vlist(X, a), vlist(Y, b))
    env.true(tuple(r["basis"].shape) == (k, l) and r["data"].ndim == 1, "shape")
    env.eq(M(r), np.conj(X) @ (C @ Y.T), "all pairs")
    c = convert_state_vector_list_to_basis(vlist(Y, b), B(a))
    env.true(c["basis"][0].n == l and c["data"].ndim == 1, "converted list")
    isbasis(env, c["basis"][1], a)
    env.eq(c["data"].reshape(l, -1), Y @ C.T, "converted states")
    m = min(k, l)
    e = s.calculate_inner_products_elementwise(vlist(X[:m], a), vlist(Y[:m], b))
    env.true(e["basis"].n == m, "list basis")
    env.eq(e["data"], np.sum(np.conj(X[:m]) * (Y[:m] @ C.T), axis=1), "element by element")
    unchanged(env, before, X, Y)
    if N(a) == N(b):
        w, u = env.cvec("w", k), env.cvec("u", l)
        r = s.calculate_inner_products_eigenvalues({**vlist(X, a), "eigenvalue": w}, {**vlist(Y, a), "eigenvalue": u})
        env.true(tuple(r["basis"].shape) == (k, l), "shape")
        env.eq(M(r), np.conj(w)[:, None] * (np.conj(X) @ Y.T) * u[None, :], "weighted by the eigenvalues")


@harness("C09", [{"d": 1}, {"d": 2}, {"d": 3}], [], T)
def axes(env, d):
    """averages over and selection along the axes of a list"""
    from surface_potential_analysis.state_vector import state_vector_list as s

    sh = (3, 2, 2)[:d] if d < 3 else (2, 3, 2)
    n = 2
    V = env.cvec("V", *sh, n)
    v0 = V.copy()
    lb = [("F", k) for k in sh]
    l = {"basis": tup(B(lb), B(("K", n))), "data": V.reshape(-1)}
    sub = env.pick("axes", [s_ for r in range(1, d + 1) for s_ in itertools.permutations(range(d), r)])
    r = s.average_state_vector(l, sub)
    keep = [k for i, k in enumerate(sh) if i not in sub]
    env.true(tuple(r["basis"][0].shape) == tuple(keep) and r["data"].ndim == 1, "list basis of the average")
    isbasis(env, r["basis"][1], ("K", n))
    env.eq(r["data"], np.sum(V, axis=tuple(sub)).reshape(-1) / np.prod([sh[i] for i in sub]), "mean over the axes")
    if len(sub) == 1:
        w = env.rvec("w", sh[sub[0]], lo=0.5, hi=2.0)
        r = s.average_state_vector(l, sub, weights=w)
        ww = w.reshape([-1 if i == sub[0] else 1 for i in range(d)] + [1])
        env.eq(r["data"] * np.sum(w), np.sum(V * ww, axis=sub[0]).reshape(-1), "weighted mean")
    if len(sub) == d:
        env.eq(s.average_state_vector(l)["data"], np.sum(V, axis=tuple(range(d))).reshape(-1) / np.prod(sh), "default: every axis")
    rest = [i for i in range(d) if i not in sub]
    idx = tuple(env.pick(f"i{i}", [*range(sh[i]), -1]) for i in rest)
    r = s.get_state_along_axis(l, sub, idx)
    env.true(tuple(r["basis"][0].shape) == tuple(sh[i] for i in sub) and r["data"].ndim == 1, "list basis of the selection")
    isbasis(env, r["basis"][1], ("K", n))
    E = np.transpose(V, (*sub, *rest, d))
    E = E[(*[slice(None)] * len(sub), *idx)]
    env.eq(r["data"], E.reshape(-1), "selection along the axes")
    if all(i == 0 for i in idx):
        env.eq(s.get_state_along_axis(l, sub)["data"], E.reshape(-1), "default index")
    full = tuple(env.pick(f"j{i}", [0, k - 1, -1]) for i, k in enumerate(sh))
    env.eq(s.get_state_vector(l, full)["data"], V[full], "stacked index")
    env.eq(V, v0, "unmodified")
