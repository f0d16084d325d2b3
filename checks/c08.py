"""C08: applying operators, expectations, averages, displacements."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import dag
from .spectral import rng_unitary

BOUNDS = "operators up to 4x4 and stacked 2x2, states in any of 4-5 bases, lists of 1-3, eigenvalue arrays over up to 3 axes, displacement grids of 1-5 points per axis and 1-2 axes, symbolic cell lengths and origins"
T = ("operator.operator.apply_operator_to_state", "operator.operations.apply_operator_to_states", "state_vector.eigenstate_calculation.calculate_expectation*", "state_vector.eigenstate_calculation.calculate_operator_inner_product")


def alts(n):
    return [("P", n), ("K", n), ("TP", n - 1, n), ("R", n - 1, n)]


STK = [[("P", 2), ("K", 2)], [("K", 2), ("K", 2)], [("P", 2), ("TP", 1, 2)]]


def opts(g):
    return STK if g == "stack" else alts(g)


G = [{"g": 3}, {"g": "stack"}]


@harness("C08", G, [{"g": 4}, {"g": 6}], T)
def apply(env, g):
    """operator on a state / list of states: direction and norm"""
    from surface_potential_analysis.operator.operations import apply_operator_to_states
    from surface_potential_analysis.operator.operator import apply_operator_to_state

    al = opts(g)
    a, b, c = env.pick("bases", [(al[0], al[1], al[0]), (al[1], al[2], al[0]), (al[2], al[0], al[1]), (al[0], al[0], al[0])])
    rs = np.random.RandomState(3)
    k = env.pick("count", [1, 2])
    if env.pick("symbolic", ["state", "operator"]) == "state":
        A = env.array(rs.normal(size=(N(a), N(b))) + 1j * rs.normal(size=(N(a), N(b))))
        v, V = env.cvec("v", N(c)), env.cvec("V", k, N(c))
    else:
        A = env.cvec("A", N(a), N(b))
        v = env.array(rs.normal(size=N(c)) + 1j * rs.normal(size=N(c)))
        V = env.array(rs.normal(size=(k, N(c))) + 1j * rs.normal(size=(k, N(c))))
    w = A @ conv(c, b) @ v
    nrm2 = np.sum(np.abs(w) ** 2)
    before = snap(A, v, V)
    r = apply_operator_to_state(op(A, a, b), vec(v, c))
    isbasis(env, r["basis"], a)
    env.eq(r["data"] * r["eigenvalue"], w, "A v")
    env.eq(r["eigenvalue"] ** 2, nrm2, "norm", scale=1.0)
    W = [A @ conv(c, b) @ V[i] for i in range(k)]
    r = apply_operator_to_states(op(A, a, b), vlist(V, c))
    env.true(r["basis"][0].n == k and r["data"].ndim == 1, "list shape")
    isbasis(env, r["basis"][1], a)
    d = r["data"].reshape(k, N(a))
    for i in range(k):
        env.eq(d[i] * r["eigenvalue"][i], W[i], f"A v{i}")
        env.eq(r["eigenvalue"][i] ** 2, np.sum(np.abs(W[i]) ** 2), f"norm {i}", scale=1.0)
    unchanged(env, before, A, v, V)


@harness("C08", G, [{"g": 4}, {"g": 6}], T)
def expectation(env, g):
    """<v|A|v> in any basis, for lists, diagonal operators and two different states"""
    from surface_potential_analysis.state_vector.eigenstate_calculation import (
        calculate_expectation,
        calculate_expectation_diagonal,
        calculate_expectation_list,
        calculate_operator_inner_product,
    )

    al = opts(g)
    a, b, c = env.pick("bases", [(al[0], al[1], al[0]), (al[1], al[2], al[0]), (al[2], al[0], al[1]), (al[0], al[0], al[0]), (al[0], al[1], al[2])])
    A, v = env.cvec("A", N(a), N(b)), env.cvec("v", N(c))
    D = env.cvec("D", N(a))
    before = snap(A, v, D)
    L = conv(a, c) @ A @ dag(conv(b, c))
    env.eq(calculate_expectation(op(A, a, b), vec(v, c)), np.conj(v) @ L @ v, "expectation")
    x = conv(c, a) @ v
    env.eq(calculate_expectation_diagonal(dop(D, a), vec(v, c)), np.sum(np.conj(x) * D * x), "diagonal expectation")
    k = env.pick("count", [1, 2, 3] if g == 3 else [2])
    V = env.cvec("V", k, N(c))
    r = calculate_expectation_list(op(A, a, b), vlist(V, c))
    env.true(r["basis"].n == k, "list basis")
    env.eq(r["data"], env.array([np.conj(V[i]) @ L @ V[i] for i in range(k)]), "list of expectations")
    p, q = env.cvec("p", N(a)), env.cvec("q", N(b))
    env.eq(calculate_operator_inner_product(vec(p, a), op(A, a, b), vec(q, b)), p @ A @ q, "inner product")
    unchanged(env, before, A, v, D)


@harness("C08", [{"shape": s} for s in ([3], [2, 3], [2, 2, 3])], [{"shape": [3, 2, 4]}, {"shape": [5, 4]}, {"shape": [2, 3, 2, 2]}], ("operator.operator.average_eigenvalues*", "operator.operator.sum_diagonal_operator_over_axes", "operator.operator.get_eigenvalue"))
def averages(env, shape):
    """mean / sum over exactly the given axes (default: all); the rest keeps its order"""
    from surface_potential_analysis.operator.operator import (
        average_eigenvalues,
        average_eigenvalues_list,
        get_eigenvalue,
        sum_diagonal_operator_over_axes,
    )

    nd = len(shape)
    n = int(np.prod(shape))
    axes = env.pick("axes", [None, *[c for r in range(nd + 1) for c in itertools.combinations(range(nd), r)]])
    b = tup(*[fb(i) for i in shape])
    v = env.cvec("v", n)
    ax = tuple(range(nd)) if axes is None else axes
    rest = tuple(s for i, s in enumerate(shape) if i not in ax)
    cnt = int(np.prod([shape[i] for i in ax], dtype=int))

    def total(x):
        out = {}
        for idx in itertools.product(*[range(s) for s in shape]):
            key = tuple(j for i, j in enumerate(idx) if i not in ax)
            out[key] = out.get(key, 0) + x[int(np.ravel_multi_index(idx, shape))]
        return env.array([out[key] for key in itertools.product(*[range(s) for s in rest])])

    if len(ax) < nd or axes is None:
        r = average_eigenvalues({"basis": tup(b, b), "data": v}, axes)
        env.eq(r["data"], total(v) / cnt, "average")
        env.true(tuple(r["basis"][0].shape) == rest and tuple(r["basis"][1].shape) == rest, "basis of the average")
        k = 2
        V = env.cvec("V", k, n)
        r = average_eigenvalues_list({"basis": tup(fb(k), tup(b, b)), "data": V.reshape(-1)}, axes)
        env.true(r["basis"][0].n == k and tuple(r["basis"][1][0].shape) == rest, "basis of the average list")
        for i in range(k):
            env.eq(r["data"].reshape(k, -1)[i], total(V[i]) / cnt, f"average of list item {i}")
    if axes is not None:
        r = sum_diagonal_operator_over_axes({"basis": tup(b, b), "data": v}, axes)
        env.eq(r["data"], total(v), "sum")
        env.true(tuple(r["basis"][0].shape) == rest and tuple(r["basis"][1].shape) == rest, "basis of the sum")
    if axes is not None and len(axes) == 1:
        w = env.rvec("w", shape[axes[0]], lo=0.1, hi=1.0)
        r = average_eigenvalues({"basis": tup(b, b), "data": v}, axes, weights=w)
        vv = np.moveaxis(v.reshape(shape), axes[0], 0)
        env.eq(r["data"] * np.sum(w), sum(w[i] * vv[i] for i in range(len(w))).reshape(-1), "weighted average")
    for i in (0, n - 1):
        env.eq(get_eigenvalue({"basis": tup(b, b), "data": v}, i), v[i], "eigenvalue")


def wrapped(i, n):
    """integer displacement in [-n/2, n/2)"""
    return (i + n // 2) % n - n // 2


@harness("C08", [{"Ns": [n]} for n in (1, 2, 3, 4, 5)] + [{"Ns": [2, 3]}, {"Ns": [3, 2]}], [{"Ns": [6]}, {"Ns": [7]}, {"Ns": [8]}, {"Ns": [12]}, {"Ns": [5, 4]}, {"Ns": [3, 1, 4]}, {"Ns": [4, 3]}, {"Ns": [2, 2, 3]}], ("operator.build.get_displacements_matrix_nx*",))
def displacements_nx(env, Ns):
    """integer displacement i - j, minimum image"""
    from surface_potential_analysis.operator.build import get_displacements_matrix_nx, get_displacements_matrix_nx_stacked

    from .oracle import stack

    kind = env.pick("kind", ["P", "K"])
    if len(Ns) == 1:
        r = get_displacements_matrix_nx(B((kind, Ns[0])))
        n = Ns[0]
        env.eq(r, np.array([[wrapped(i - j, n) for j in range(n)] for i in range(n)]), "displacements")
    st = [(kind, n) for n in Ns]
    rs = get_displacements_matrix_nx_stacked(stack(st))
    env.true(len(rs) == len(Ns), "one matrix per axis")
    ix = list(itertools.product(*[range(n) for n in Ns]))
    for ax, n in enumerate(Ns):
        env.eq(rs[ax], np.array([[wrapped(p[ax] - q[ax], n) for q in ix] for p in ix]), f"axis {ax}")


def is_min_image(env, d, x, L, label):
    """d = x modulo L, -L/2 <= d <= L/2"""
    env.ge(np.real(d), -L / 2, label + " >= -L/2", tol=1e-9)
    env.ge(L / 2, np.real(d), label + " <= L/2", tol=1e-9)
    q = (np.real(d) - x) / L
    env.eq(q - np.rint(q), 0.0, label + " congruent")


@harness("C08", [{"n": n} for n in (1, 2, 3, 4)], [{"n": 5}, {"n": 6}, {"n": 9}], ("operator.build.get_displacements_x", "operator.build.get_displacements_matrix_x"))
def displacements_x(env, n):
    """single axis: minimum-image displacement from an origin and between points"""
    from surface_potential_analysis.operator.build import get_displacements_matrix_x, get_displacements_x

    kind = env.pick("kind", ["P", "TP"])
    spec = ("P", n) if kind == "P" else ("TP", max(1, n - 1), n)
    L = env.real("L", 0.5, 4.0)
    b = mk_len(spec, env.array([L]))
    t = env.pick("origin", [0.0, 0.3, -0.25, 1.4, 0.5])
    o = t * L
    m = get_displacements_matrix_x(b)
    env.true(m["data"].ndim == 1 and tuple(m["basis"].shape) == (n, n), "shape")
    isbasis(env, m["basis"][0], ("P", n))
    isbasis(env, m["basis"][1], ("P", n))
    env.eq(m["basis"][0].delta_x, env.array([L]), "cell length")
    D = M(m)
    for i in range(n):
        for j in range(n):
            e = wrapped(i - j, n) * L / n
            if 2 * abs(wrapped(i - j, n)) == n:
                env.eq(D[i, j] ** 2, e * e, "half period")
            else:
                env.eq(D[i, j], e, "displacement")
                env.eq(D[i, j], -D[j, i], "antisymmetric")
    r = get_displacements_x(b, o)
    env.true(r["data"].shape == (n,) and r["basis"].n == n, "one displacement per point")
    D2 = M(get_displacements_matrix_x(b, o))
    for i in range(n):
        f = (i / n - t + 0.5) % 1 - 0.5
        if abs(abs(f) - 0.5) < 1e-9:
            env.eq(r["data"][i] ** 2, L * L / 4, "half period from origin")
        else:
            env.eq(r["data"][i], f * L, "displacement from origin")
        for j in range(n):
            f = ((i - j) / n - t + 0.5) % 1 - 0.5
            if abs(abs(f) - 0.5) < 1e-9:
                env.eq(D2[i, j] ** 2, L * L / 4, "half period with origin")
            else:
                env.eq(D2[i, j], f * L, "displacement with origin")


def mk_len(spec, d):
    from .oracle import mk

    return mk(spec, d)


@harness("C08", [{"n": 2}, {"n": 3}], [{"n": 5}], ("operator.build.get_displacements_x", "operator.build.get_displacements_matrix_x"))
def displacements_symbolic_origin(env, n):
    """any origin within two cells: the displacement is the minimum image of x - origin"""
    from surface_potential_analysis.operator.build import get_displacements_matrix_x, get_displacements_x

    L = 2.5
    b = mk_len(("P", n), np.array([L]))
    o = env.real("origin", -L, L)
    r = get_displacements_x(b, o)
    for i in range(n):
        is_min_image(env, r["data"].reshape(-1)[i], i * L / n - o, L, "x - origin")
    D = M(get_displacements_matrix_x(b, o))
    for i in range(n):
        is_min_image(env, D[i, 0], i * L / n - o, L, "x_i - x_0 - origin")


@harness("C08", [{"Ns": [3, 2]}, {"Ns": [2, 3]}, {"Ns": [3]}], [{"Ns": [4, 3]}, {"Ns": [5, 3]}, {"Ns": [3, 1, 5]}, {"Ns": [2, 2, 3]}], ("operator.build.get_displacements_x_stacked", "operator.build.get_displacements_matrix_x_stacked", "operator.build.get_total_displacements_matrix_x_stacked"))
def displacements_x_stacked(env, Ns):
    """orthogonal stacked cells: displacement along each axis, and the total distance"""
    from surface_potential_analysis.operator.build import (
        get_displacements_matrix_x_stacked,
        get_displacements_x_stacked,
        get_total_displacements_matrix_x_stacked,
    )

    from .oracle import stack

    nd = len(Ns)
    L = [env.real(f"L{i}", 0.5, 4.0) for i in range(nd)]
    d = [env.array([L[i] if i == j else 0.0 for j in range(nd)]) for i in range(nd)]
    kind = env.pick("kind", ["P", "K"])
    b = stack([(kind, n) for n in Ns], d)
    ix = list(itertools.product(*[range(n) for n in Ns]))
    r = get_displacements_matrix_x_stacked(b, None)
    env.true(r["basis"][0].n == nd and tuple(r["basis"][1].shape) == (len(ix), len(ix)), "shape")
    env.true(tuple(r["basis"][1][0].shape) == tuple(Ns), "stacked basis")
    isbasis(env, r["basis"][1][0], [("P", n) for n in Ns])
    data = ML(r)
    fr = [0.32, -0.17, 0.11][:nd]
    o = [f * x for f, x in zip(fr, L)]
    ro = ML(get_displacements_matrix_x_stacked(b, tuple(o)))
    rx = get_displacements_x_stacked(b, tuple(o))
    env.true(len(rx) == nd, "one list per axis")
    for a in range(nd):
        for p in range(len(ix)):
            f = (ix[p][a] / Ns[a] - fr[a] + 0.5) % 1 - 0.5
            env.eq(rx[a]["data"].reshape(-1)[p], f * L[a], f"axis {a} from origin")
            for q in range(len(ix)):
                w = wrapped(ix[p][a] - ix[q][a], Ns[a])
                e = w * L[a] / Ns[a]
                if 2 * abs(w) == Ns[a]:
                    env.eq(data[a, p, q] ** 2, e * e, f"axis {a} half period")
                else:
                    env.eq(data[a, p, q], e, f"axis {a}")
                f = ((ix[p][a] - ix[q][a]) / Ns[a] - fr[a] + 0.5) % 1 - 0.5
                env.eq(ro[a, p, q], f * L[a], f"axis {a} with origin")
    t = get_total_displacements_matrix_x_stacked(b)
    env.true(t["data"].ndim == 1 and tuple(t["basis"].shape) == (len(ix), len(ix)), "total shape")
    tm = M(t)
    for p in range(len(ix)):
        for q in range(len(ix)):
            e2 = sum((wrapped(ix[p][a] - ix[q][a], Ns[a]) * L[a] / Ns[a]) ** 2 for a in range(nd))
            env.eq(np.real(tm[p, q]) ** 2, e2, "total distance")
            env.ge(np.real(tm[p, q]), 0.0, "distance >= 0")


@harness("C08", [{"n": 2}, {"n": 3}], [{"n": 4}], (*T, "operator.operator.apply_function_to_operator"))
def spectral_function(env, n):
    """a function of an operator (also a non-normal one) acts on its eigenvalues"""
    from surface_potential_analysis.operator.operator import apply_function_to_operator

    from .spectral import Spectral

    kind = env.pick("eigenvectors", ["unitary", "skew"])
    spec = env.pick("basis", [("P", n), ("K", n)])
    X = rng_unitary(n, 5)
    if kind == "skew":
        X = X @ (np.eye(n) + 0.4 * np.triu(np.ones((n, n)), 1)) @ np.diag(1 + 0.3 * np.arange(n))
    Xi = np.linalg.inv(X)
    sp = Spectral(env)
    E = sp.energies("e", n) + 1j * (sp.energies("f", n) if kind == "skew" else 0.0)
    A = sp.build(E, X, Xi)
    (A0,) = snap(A)
    for name, f in (("square", lambda e: e**2), ("affine", lambda e: 2.0 * e + 1.0), ("exp", lambda e: np.exp(1j * np.real(e))), ("constant", lambda e: 0.0 * e + 1.0)):
        seen = []

        def g(e, f=f, seen=seen):
            seen.append(e.shape)
            return f(e)

        r = apply_function_to_operator(op(A, spec), g)
        isbasis(env, r["basis"][0], spec)
        isbasis(env, r["basis"][1], spec)
        env.true(r["data"].shape == (n * n,), "flat data")
        fe = f(E)
        env.eq(M(r), sum(fe[j] * np.outer(X[:, j], Xi[j]) for j in range(n)), name)
    env.eq(A, A0, "operand untouched")
