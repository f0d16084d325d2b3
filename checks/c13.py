"""C13: noise kernels, their isotropic/diagonal/full forms, axis products, construction and basis change."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import dag, stack
from .spectral import Spectral, rng_unitary

BOUNDS = "operators up to 3x3 (4x4 thorough), lists of 1-3, complex operators and real rates symbolic; isotropic kernels of 1-6 points and stacked grids up to 2x3, 2x2x2; kernel functions of symbolic displacement; single-basis (square) kernels only"
T = ("kernel.kernel.*", "kernel.conversion.*", "kernel.build.build_*", "kernel.gaussian.get_gaussian_*kernel", "kernel.lorentzian.get_lorentzian_isotropic_noise_kernel")


def noise(L, lam, a):
    return {**oplist(L, a), "eigenvalue": lam}


def dnoise(L, lam, a):
    return {"basis": tup(fb(len(L)), tup(B(a), B(a))), "data": L.reshape(-1), "eigenvalue": lam}


def full_kernel(lam, L):
    """sum_m rate conj(L_m)^T (x) L_m"""
    return sum(lam[m] * np.conj(L[m]).T[:, :, None, None] * L[m][None, None] for m in range(len(L)))


def diag_kernel(lam, L):
    return sum(lam[m] * np.conj(L[m])[:, None] * L[m][None] for m in range(len(L)))


def alts(n):
    return [("P", n), ("K", n), [("P", n)]] + ([[("K", 2), ("P", n // 2)]] if n % 2 == 0 else [])


@harness("C13", [{"n": n, "k": k} for n, k in ((1, 1), (2, 1), (2, 3), (3, 2))], [{"n": 4, "k": 2}, {"n": 3, "k": 3}, {"n": 2, "k": 5}, {"n": 5, "k": 1}], T)
def from_operators(env, n, k):
    """kernels assembled from noise operators; diagonal operators and the full form agree"""
    from surface_potential_analysis.kernel import kernel as K

    a = env.pick("basis", alts(n))
    L, D, lam = env.cvec("L", k, n, n), env.cvec("D", k, n), env.rvec("rate", k)
    before = snap(L, D, lam)
    ops = noise(L, lam, a)
    r = K.get_full_kernel_from_operators(ops)
    for i in range(2):
        for j in range(2):
            isbasis(env, r["basis"][i][j], a)
    env.true(r["data"].shape == (n**4,), "flat")
    F = full_kernel(lam, L)
    env.eq(r["data"].reshape(n, n, n, n), F, "sum of rates times conjugated operator times operator")
    dg = np.array([list(range(n))])
    Ld = np.stack([np.diagonal(L[m]) for m in range(k)])
    r = K.get_diagonal_kernel_from_operators(ops)
    env.eq(r["data"].reshape(n, n), diag_kernel(lam, Ld), "diagonal kernel of the diagonals")
    env.true(dg.shape == (1, n), "")
    ds = dnoise(D, lam, a)
    r = K.get_diagonal_kernel_from_diagonal_operators(ds)
    isbasis(env, r["basis"][0][0], a)
    isbasis(env, r["basis"][1][1], a)
    env.eq(r["data"].reshape(n, n), diag_kernel(lam, D), "diagonal kernel")
    full = K.as_noise_operators_from_diagonal(ds)
    env.eq(full["eigenvalue"], lam, "rates kept")
    env.eq(ML(full), np.stack([np.diag(D[m]) for m in range(k)]), "diagonal operators written in full")
    f2 = K.get_full_kernel_from_operators(full)
    env.eq(f2["data"], K.as_full_kernel_from_diagonal(r)["data"], "full form of the diagonal kernel")
    back = K.as_diagonal_noise_operators_from_full(full)
    env.eq(DL(back), D, "and back")
    env.eq(back["eigenvalue"], lam, "rates kept")
    unchanged(env, before, L, D, lam)


@harness("C13", [{"n": n, "m": m} for n, m in ((1, 1), (2, 2), (3, 3), (2, 3))], [{"n": 4, "m": 4}, {"n": 5, "m": 4}, {"n": 2, "m": 6}], T)
def diagonal_full(env, n, m):
    """diagonal kernel -> full -> diagonal"""
    from surface_potential_analysis.kernel import kernel as K

    d = env.cvec("d", n, m)
    b = tup(tup(fb(n), fb(n)), tup(fb(m), fb(m)))
    k0 = {"basis": b, "data": d.reshape(-1)}
    full = K.as_full_kernel_from_diagonal(k0)
    env.true(full["basis"] is b, "basis")
    want = d[:, None, :, None] * np.eye(n)[:, :, None, None] * np.eye(m)[None, None]
    env.eq(full["data"].reshape(n, n, m, m), want, "full form")
    back = K.as_diagonal_kernel_from_full(full)
    env.true(back["basis"] is b, "basis")
    env.eq(back["data"], d.reshape(-1), "and back")
    F = env.cvec("F", n, n, m, m)
    g = K.as_diagonal_kernel_from_full({"basis": b, "data": F.reshape(-1)})["data"].reshape(n, m)
    env.eq(g, env.array([[F[i, i, j, j] for j in range(m)] for i in range(n)]), "diagonal part of a full kernel")


@harness("C13", [{"n": n} for n in range(1, 6)], [{"n": 6}, {"n": 7}, {"n": 10}], T)
def isotropic(env, n):
    """single axis: function of the displacement, and back (also for complex kernels)"""
    from surface_potential_analysis.kernel import kernel as K

    a = env.pick("basis", [("P", n), ("K", n), ("F", n)])
    f = env.cvec("f", n)
    before = snap(f)
    b = B(a)
    r = K.as_diagonal_kernel_from_isotropic({"basis": b, "data": f})
    for i in range(2):
        for j in range(2):
            isbasis(env, r["basis"][i][j], a)
    m = r["data"].reshape(n, n)
    env.true(r["data"].ndim == 1, "flat")
    env.eq(m, env.array([[f[(i - j) % n] for j in range(n)] for i in range(n)]), "depends on the displacement")
    back = K.as_isotropic_kernel_from_diagonal(r)
    isbasis(env, back["basis"], a)
    env.eq(back["data"], f, "and back")
    unchanged(env, before, f)
    d = env.cvec("d", n, n)
    k = {"basis": tup(tup(b, b), tup(b, b)), "data": d.reshape(-1)}
    env.eq(K.as_isotropic_kernel_from_diagonal(k, assert_isotropic=False)["data"], d[:, 0], "correlation with state 0")


@harness("C13", [{"Ns": s} for s in ([2, 3], [3, 2], [4], [2, 2, 2])], [{"Ns": [3, 4]}, {"Ns": [3, 1, 2]}, {"Ns": [4, 5]}, {"Ns": [2, 3, 4]}], T)
def isotropic_stacked(env, Ns):
    """stacked lattice: function of the per-axis displacement, and back"""
    from surface_potential_analysis.kernel import kernel as K

    a = [(env.pick("kind", ["P", "K"]), n) for n in Ns]
    n = int(np.prod(Ns))
    f = env.cvec("f", n)
    b = stack(a)
    r = K.as_diagonal_kernel_from_isotropic_stacked({"basis": b, "data": f})
    for i in range(2):
        for j in range(2):
            isbasis(env, r["basis"][i][j], a)
    ix = list(itertools.product(*[range(k) for k in Ns]))
    fl = lambda p, q: int(np.ravel_multi_index([(x - y) % k for x, y, k in zip(p, q, Ns)], Ns))  # noqa: E731
    env.eq(r["data"].reshape(n, n), env.array([[f[fl(p, q)] for q in ix] for p in ix]), "depends on the displacement")
    back = K.as_isotropic_kernel_from_diagonal_stacked(r)
    isbasis(env, back["basis"], a)
    env.eq(back["data"], f, "and back")
    d = env.cvec("d", n, n)
    k = {"basis": tup(tup(b, b), tup(b, b)), "data": d.reshape(-1)}
    env.eq(K.as_isotropic_kernel_from_diagonal_stacked(k, assert_isotropic=False)["data"], d[:, 0], "correlation with state 0")
    # a kernel of plane waves is isotropic
    lam = env.rvec("rate", n)
    W = np.exp(2j * np.pi * sum(np.outer([p[i] for p in ix], [p[i] for p in ix]) / Ns[i] for i in range(len(Ns))))
    ops = {"basis": tup(fb(n), tup(b, b)), "data": env.array(W).reshape(-1), "eigenvalue": lam}
    iso = K.get_isotropic_kernel_from_diagonal_operators_stacked(ops)
    env.eq(iso["data"], np.conj(W).T @ lam, "isotropic kernel of plane-wave operators")
    if len(Ns) == 1:
        iso = K.get_isotropic_kernel_from_diagonal_operators({**ops, "basis": tup(fb(n), tup(b[0], b[0]))})
        env.eq(iso["data"], np.conj(W).T @ lam, "isotropic kernel of plane-wave operators")
        full = env.array([np.diag(W[i]) for i in range(n)]).reshape(-1)
        iso = K.get_isotropic_kernel_from_operators({**ops, "data": full, "basis": tup(fb(n), tup(b[0], b[0]))})
        env.eq(iso["data"], np.conj(W).T @ lam, "isotropic kernel of full operators")


@harness("C13", [{"n": 2}, {"n": 3}, {"n": 4}], [{"n": 5}, {"n": 6}], T)
def not_isotropic(env, n):
    """a kernel that is not isotropic is refused"""
    from surface_potential_analysis.kernel import kernel as K

    st = env.pick("form", ["flat", "stacked"])
    d = [[complex([1.0, 0.5 + 0.25j, 0.75, -0.5, 0.3j, 0.2][(a - c) % n]) for c in range(n)] for a in range(n)]
    d[env.index("i", n)][env.index("j", n - 1) + 1] += env.real("x", 0.3, 0.6)
    d = env.array(d)
    b = B(("P", n)) if st == "flat" else B([("P", n)])
    k = {"basis": tup(tup(b, b), tup(b, b)), "data": d.reshape(-1)}
    env.raises(AssertionError, lambda: (K.as_isotropic_kernel_from_diagonal if st == "flat" else K.as_isotropic_kernel_from_diagonal_stacked)(k), "refused")


@harness("C13", [{"Ns": s} for s in ([3], [2, 3], [3, 2], [2, 3, 2], [3, 2, 4])], [{"Ns": [2, 2, 3]}, {"Ns": [4, 3]}, {"Ns": [5, 4, 2]}, {"Ns": [2, 3, 2, 2]}], T)
def axes(env, Ns):
    """products over axes are outer products and factor back"""
    from surface_potential_analysis.kernel import kernel as K

    nd = len(Ns)
    g = [env.cvec(f"g{i}_", n) for i, n in enumerate(Ns)]
    ks = tuple({"basis": B(("P", n)), "data": x} for n, x in zip(Ns, g))
    r = K.as_isotropic_kernel_from_axis(ks)
    isbasis(env, r["basis"], [("P", n) for n in Ns])

    def outer(v):
        out = v[0].reshape(-1)
        for x in v[1:]:
            out = (out[:, None] * x[None]).reshape(-1)
        return out

    env.eq(r["data"], outer(g), "outer product")
    # separable kernels with a positive value at the origin factor into axis kernels
    o = [env.real(f"o{i}", 0.4, 1.5) if nd < 3 else 0.5 + 0.25 * i for i in range(nd)]
    h = [env.array([o[i] + 0j, *[x for x in env.cvec(f"h{i}_", n - 1)]]) for i, n in enumerate(Ns)]
    iso = {"basis": B([("P", n) for n in Ns]), "data": outer(h)}
    ax = K.as_axis_kernel_from_isotropic(iso)
    env.true(len(ax) == nd, "one kernel per axis")
    for i, n in enumerate(Ns):
        isbasis(env, ax[i]["basis"], ("P", n))
        env.eq(ax[i]["data"][0] * h[i], o[i] * ax[i]["data"], "proportional to the axis kernel")
    env.eq(K.as_isotropic_kernel_from_axis(ax)["data"], iso["data"], "and back")


@harness("C13", [{"Ns": s, "ks": k} for s, k in (([3], [2]), ([2, 3], [2, 1]), ([2, 2], [1, 3]), ([2, 1, 2], [1, 2, 3]))], [{"Ns": [2, 2, 2], "ks": [2, 1, 2]}, {"Ns": [3, 4], "ks": [2, 3]}, {"Ns": [5], "ks": [4]}], T)
def axis_operators(env, Ns, ks):
    """noise operators of axes combine into operators whose kernel is the product kernel"""
    from surface_potential_analysis.kernel import kernel as K

    D = [env.cvec(f"D{i}_", k, n) for i, (n, k) in enumerate(zip(Ns, ks))]
    lam = [env.rvec(f"rate{i}_", k) for i, k in enumerate(ks)]
    ops = tuple(dnoise(d, l, ("P", n)) for d, l, n in zip(D, lam, Ns))
    r = K.get_diagonal_noise_operators_from_axis(ops)
    env.true(tuple(r["basis"][0].shape) == tuple(ks), "one operator per combination")
    for i in range(2):
        isbasis(env, r["basis"][1][i], [("P", n) for n in Ns])
    d = DL(r)
    for q, c in enumerate(itertools.product(*[range(k) for k in ks])):
        w, l = D[0][c[0]], lam[0][c[0]]
        for i in range(1, len(Ns)):
            w = (w[:, None] * D[i][c[i]][None]).reshape(-1)
            l = l * lam[i][c[i]]
        env.eq(d[q], w, "operator product")
        env.eq(r["eigenvalue"][q], l, "rate product")


@harness("C13", [{"n": 2}], [{"n": 3}, {"n": 4}], T)
def convert(env, n):
    """a converted kernel is the kernel of the converted operators"""
    from surface_potential_analysis.kernel import conversion as C

    sp = Spectral(env)
    al = [("P", n), ("K", n), ("F", n)] + ([("TP", n - 1, n)] if n > 2 else [])
    a, b = env.pick("bases", [(al[0], al[1]), (al[1], al[0]), (al[2], al[1]), (al[0], al[-1])])
    c = conv(a, b)
    m = N(b)
    form = env.pick("form", ["full", "diagonal", "operators", "isotropic"])
    tb = tup(B(b), B(b))
    if form == "full":
        E = sp.energies("E", n * n)
        X = rng_unitary(n * n, 5)
        Mx = sp.build(E, X)
        kern = {"basis": tup(tup(B(a), B(a)), tup(B(a), B(a))), "data": Mx.reshape(n, n, n, n).swapaxes(0, 1).reshape(-1)}
        r = C.convert_kernel_to_basis(kern, tb)
        L = [c @ np.conj(X[:, k]).reshape(n, n) @ dag(c) for k in range(n * n)]
        env.eq(r["data"].reshape(m, m, m, m), full_kernel(E, L), "converted kernel")
        isbasis(env, r["basis"][0][0], b)
        isbasis(env, r["basis"][1][1], b)
    elif form == "diagonal":
        E = sp.energies("E", n)
        X = sp.unitary("u", n)
        Mx = sp.build(E, X)
        kern = {"basis": tup(tup(B(a), B(a)), tup(B(a), B(a))), "data": Mx.reshape(-1)}
        r = C.convert_diagonal_kernel_to_basis(kern, tb)
        L = [(c * np.conj(X[:, k])) @ dag(c) for k in range(n)]
        env.eq(r["data"].reshape(m, m, m, m), full_kernel(E, L), "converted diagonal kernel")
        isbasis(env, r["basis"][0][1], b)
        isbasis(env, r["basis"][1][0], b)
    elif form == "operators":
        L, D, lam = env.cvec("L", 2, n, n), env.cvec("D", 2, n), env.rvec("rate", 2)
        r = C.convert_noise_operator_list_to_basis(noise(L, lam, a), tb)
        env.eq(ML(r), np.stack([c @ L[i] @ dag(c) for i in range(2)]), "converted operators")
        env.eq(r["eigenvalue"], lam, "rates kept")
        isbasis(env, r["basis"][1][0], b)
        r = C.convert_diagonal_noise_operator_list_to_basis(dnoise(D, lam, a), tb)
        env.eq(ML(r), np.stack([(c * D[i]) @ dag(c) for i in range(2)]), "converted diagonal operators")
        env.eq(r["eigenvalue"], lam, "rates kept")
        isbasis(env, r["basis"][1][1], b)
    else:
        f = env.cvec("f", n)
        r = C.convert_isotropic_kernel_to_basis({"basis": B(a), "data": f}, B(b))
        env.eq(r["data"], c @ f, "converted isotropic kernel")
        isbasis(env, r["basis"], b)


def image(m, n):
    """minimum image of m/n, in cells; None on the half period"""
    f = (m / n + 0.5) % 1 - 0.5
    return None if abs(abs(f) - 0.5) < 1e-9 else f


@harness("C13", [{"n": n} for n in (1, 2, 3, 4)], [{"n": 5}, {"n": 6}, {"n": 9}], T)
def from_function(env, n):
    """kernel built from beta(x - x') on one axis, for any function"""
    from surface_potential_analysis.kernel.build import build_isotropic_kernel_from_function
    from surface_potential_analysis.kernel.kernel import as_diagonal_kernel_from_isotropic

    Lx = env.real("L", 0.5, 4.0)
    p = env.cvec("p", 4)
    kind = env.pick("kind", ["P", "TP"])
    from .oracle import mk

    b = mk(("P", n) if kind == "P" else ("TP", max(1, n - 1), n), env.array([Lx]))
    fn = lambda d: p[0] + p[1] * d + p[2] * d**2 + p[3] * d**3  # noqa: E731
    r = build_isotropic_kernel_from_function(b, fn)
    isbasis(env, r["basis"], ("P", n))
    env.eq(r["basis"].delta_x, env.array([Lx]), "cell")
    K = as_diagonal_kernel_from_isotropic(r)["data"].reshape(n, n)
    for i in range(n):
        for j in range(n):
            f = image(i - j, n)
            if f is not None:
                env.eq(K[i, j], fn(f * Lx), "beta(x - x')")
            else:
                env.eq((K[i, j] - fn(0.5 * Lx)) * (K[i, j] - fn(-0.5 * Lx)), 0.0, "beta(half period)")


LAT2 = [np.array([[1.5, 0.0], [0.0, 2.0]]), np.array([[1.0, 0.0], [0.0, 3.0]])]


@harness("C13", [{"Ns": s} for s in ([3], [4], [2, 3])], [{"Ns": [3, 4]}, {"Ns": [2, 2, 2]}, {"Ns": [5, 4]}, {"Ns": [3, 1, 4]}], T)
def from_function_stacked(env, Ns):
    """kernel built from the total displacement, axis kernels, Gaussian and Lorentzian kernels"""
    from surface_potential_analysis.kernel import gaussian as G
    from surface_potential_analysis.kernel import lorentzian as Lo
    from surface_potential_analysis.kernel.build import build_axis_kernel_from_function_stacked, build_isotropic_kernel_from_function_stacked

    nd = len(Ns)
    n = int(np.prod(Ns))
    L = np.diag([1.5, 2.0, 0.8][:nd])
    kind = env.pick("kind", ["P", "TP"])
    b = B([("P", k) if kind == "P" else ("TP", max(k - 1, 1), k) for k in Ns], list(L))
    ix = list(itertools.product(*[range(k) for k in Ns]))

    def d2(p, q=None):
        q = [0] * nd if q is None else q
        t = 0.0
        for i in range(nd):
            f = image(p[i] - q[i], Ns[i])
            t += ((0.5 if f is None else f) * L[i, i]) ** 2
        return t

    p = env.cvec("p", 3)
    fn = lambda d: p[0] + p[1] * d**2 + p[2] * d**4  # noqa: E731
    r = build_isotropic_kernel_from_function_stacked(b, fn)
    isbasis(env, r["basis"], [("P", k) for k in Ns])
    env.eq(np.array(r["basis"].delta_x_stacked), L, "cell")
    env.eq(r["data"], env.array([fn(np.sqrt(d2(q))) for q in ix]), "function of the displacement")
    ax = build_axis_kernel_from_function_stacked(b, fn)
    env.true(len(ax) == nd, "one kernel per axis")
    for i, k in enumerate(Ns):
        isbasis(env, ax[i]["basis"], ("P", k))
        env.eq(ax[i]["data"], env.array([fn((0.5 if image(j, k) is None else image(j, k)) * L[i, i]) for j in range(k)]), "axis kernel")
    a, lam = env.real("a", 0.3, 2.0), env.real("lambda", 0.5, 2.0)
    ga = lambda s: a**2 * np.exp(-s / (2 * lam**2))  # noqa: E731
    env.eq(G.get_gaussian_isotropic_noise_kernel(b, a, lam)["data"], env.array([ga(d2(q)) for q in ix]), "gaussian")
    g = G.get_gaussian_noise_kernel(b, a, lam)
    isbasis(env, g["basis"][0][0], [("P", k) for k in Ns])
    env.eq(g["data"].reshape(n, n), env.array([[ga(d2(q, s)) for s in ix] for q in ix]), "gaussian kernel")
    for i, (k, x) in enumerate(zip(Ns, G.get_gaussian_axis_noise_kernel(b, a, lam))):
        env.eq(x["data"], env.array([ga(((0.5 if image(j, k) is None else image(j, k)) * L[i, i]) ** 2) for j in range(k)]), "gaussian axis kernel")
    lo = Lo.get_lorentzian_isotropic_noise_kernel(b, a, lam)["data"]
    env.eq(lo * env.array([d2(q) + lam**2 for q in ix]), a**2 * lam**2 * np.ones(n), "lorentzian")


@harness("C13", [{"nd": 1}, {"nd": 2}], [{"nd": 3}], T)
def effective_parameters(env, nd):
    """(a / lambda)^2 = 2 eta k T / hbar^2 with lambda tied to the shortest cell length"""
    from scipy.constants import Boltzmann, hbar

    from surface_potential_analysis.kernel import gaussian as G
    from surface_potential_analysis.kernel import lorentzian as Lo

    L = [env.real(f"L{i}", 0.5, 3.0) for i in range(nd)]
    skew = env.pick("skew", [0.0, 0.7] if nd > 1 else [0.0])  # the last vector of the cell leans towards the first axis
    b = B([("P", 3)] * nd, [env.array([L[i] if j == i else (skew if j == 0 and i == nd - 1 else 0.0) for j in range(nd)]) for i in range(nd)])
    L2 = [x * x + (skew**2 if i == nd - 1 else 0.0) for i, x in enumerate(L)]
    eta, temp = hbar * env.real("eta", 0.5, 2.0), hbar / Boltzmann * env.real("T", 0.5, 2.0)
    s = env.pick("factor", [None, 1.7])
    kw = {} if s is None else {"lambda_factor": s}
    s = 2 * np.sqrt(2) if s is None else s
    for f, half in ((G.get_effective_gaussian_parameters, 1), (Lo.get_effective_lorentzian_parameter, 2)):
        a, lam = f(b, eta, temp, **kw)
        env.eq(a**2, lam**2 * (2 * (eta / hbar) * (temp * (Boltzmann / hbar))), "a / lambda")
        t = lam * s * half
        prod = 1
        for x in L2:
            prod = prod * (t * t - x)
            env.ge(x, t * t, "not longer than any cell vector", tol=1e-7)
        env.eq(prod, 0.0, "the shortest cell vector")
    n = 3**nd
    a, lam = G.get_effective_gaussian_parameters(b, eta, temp, **kw)
    if nd == 1:
        env.eq(G.get_effective_gaussian_isotropic_noise_kernel(b, eta, temp, **kw)["data"], G.get_gaussian_isotropic_noise_kernel(b, a, lam)["data"], "effective kernel")
        r = G.get_effective_gaussian_noise_kernel(b, eta, temp, **kw)
        env.true(r["data"].shape == (n * n,), "shape")
        env.eq(r["data"], G.get_gaussian_noise_kernel(b, a, lam)["data"], "effective kernel")
