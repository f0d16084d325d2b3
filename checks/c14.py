"""C14: noise operators found from a kernel (eigenvectors, Fourier, Taylor) rebuild that kernel."""
from __future__ import annotations

import itertools
from math import factorial

import numpy as np

from symx.harness import harness

from .c13 import diag_kernel, full_kernel
from .h import *  # noqa: F403
from .oracle import dag
from .spectral import Spectral, rng_unitary

SLOW = ['eigen_refused']  # larger configurations in the thorough tier only
BOUNDS = "eigen solution: full kernels on 1-2 states (3 thorough), diagonal kernels on 1-4 (5) with symbolic spectrum; Fourier: grids of 1-8 (12), stacked up to 3x4 / 2x2x2, any divisor, all complex values; Taylor: up to 4 (5) terms with non-vanishing coefficients, Gaussian / Lorentzian parameters symbolic"
T = ("kernel.solve.*", "kernel.gaussian.get_*gaussian_operators*", "kernel.gaussian.get_*operators*", "kernel.gaussian._get_explicit*", "kernel.lorentzian.*taylor*")


def pick_unitary(sp, env, n, seed):
    return sp.unitary("u", n) if n == 2 and seed == 0 else rng_unitary(n, 5 + seed)


@harness("C14", [{"n": n, "seed": s} for n in (1, 2) for s in (0, 1)], [{"n": 3, "seed": 2}], T)
def eigen_full(env, n, seed):
    """operators of a hermitian kernel, by eigenvectors"""
    from surface_potential_analysis.kernel import solve as So

    sp = Spectral(env)
    m = n * n
    E = sp.energies("e", m, lo=-1.0, gap=0.2)
    Mx = sp.build(E, rng_unitary(m, 5 + seed))
    # Mx[(j, i), (k, l)] = kernel[i, j, k, l]
    K4 = np.transpose(Mx.reshape(n, n, n, n), (1, 0, 2, 3))
    a = env.pick("basis", [("P", n), [("K", n)]])
    b = B(a)
    k = {"basis": tup(tup(b, b), tup(b, b)), "data": K4.reshape(-1)}
    before = snap(k["data"])
    r = So.get_periodic_noise_operators_eigenvalue(k)
    unchanged(env, before, k["data"])
    env.true(r["basis"][0].n == m and r["eigenvalue"].shape == (m,) and r["data"].shape == (m * m,), "one operator per basis element of the operators")
    for i in range(2):
        isbasis(env, r["basis"][1][i], a)
    L = r["data"].reshape(m, n, n)
    env.eq(full_kernel(r["eigenvalue"], L), K4, "operators rebuild the kernel")
    env.eq(L.reshape(m, m) @ np.conj(L.reshape(m, m)).T, np.eye(m), "orthonormal operators")
    env.eq(r["eigenvalue"], E, "rates ascending")


@harness("C14", [{"n": n} for n in (1, 2, 3)], [{"n": 4}], T)
def eigen_refused(env, n):
    """a non-hermitian kernel has no such operators"""
    from surface_potential_analysis.kernel import solve as So

    h = [[complex(min(i, j), i - j) for j in range(n)] for i in range(n)]
    i, j = env.index("i", n), env.index("j", n)
    h[i][j] = h[i][j] + 1j * env.real("x", 0.3, 0.8) * (1 if i <= j else -1)
    b = B(("P", n))
    env.raises(AssertionError, lambda: So.get_periodic_noise_operators_diagonal_eigenvalue({"basis": tup(tup(b, b), tup(b, b)), "data": env.array(h).reshape(-1)}), "refused")
    m = n * n
    h = [[complex(min(i, j), i - j) for j in range(m)] for i in range(m)]
    i, j = env.index("I", m), env.index("J", m)
    h[i][j] = h[i][j] + 1j * env.real("y", 0.3, 0.8) * (1 if i <= j else -1)
    K4 = np.transpose(env.array(h).reshape(n, n, n, n), (1, 0, 2, 3))
    env.raises(AssertionError, lambda: So.get_periodic_noise_operators_eigenvalue({"basis": tup(tup(b, b), tup(b, b)), "data": K4.reshape(-1)}), "refused")


@harness("C14", [{"n": n, "seed": s} for n in (1, 2, 3, 4) for s in (0, 1)], [{"n": 5, "seed": 0}, {"n": 6, "seed": 1}, {"n": 8, "seed": 0}], T)
def eigen_diagonal(env, n, seed):
    """diagonal operators of a diagonal kernel"""
    from surface_potential_analysis.kernel import solve as So

    sp = Spectral(env)
    E = sp.energies("e", n, lo=-1.0, gap=0.2)
    D = sp.build(E, pick_unitary(sp, env, n, seed))
    a = env.pick("basis", [("P", n), [("K", n)]] + ([[("P", 2), ("P", 2)]] if n == 4 else []))
    b = B(a)
    k = {"basis": tup(tup(b, b), tup(b, b)), "data": D.reshape(-1)}
    before = snap(k["data"])
    r = So.get_periodic_noise_operators_diagonal_eigenvalue(k)
    unchanged(env, before, k["data"])
    env.true(r["basis"][0].n == n and r["eigenvalue"].shape == (n,) and r["data"].shape == (n * n,), "one operator per state")
    for i in range(2):
        isbasis(env, r["basis"][1][i], a)
    L = r["data"].reshape(n, n)
    env.eq(diag_kernel(r["eigenvalue"], L), D, "operators rebuild the kernel")
    env.eq(L @ np.conj(L).T, np.eye(n), "orthonormal operators")
    env.eq(r["eigenvalue"], E, "rates ascending")


def smallest(n, m):
    """displacement in [-(m//2), (m-1)//2] for each residue mod m, as an index of an n-point grid; None if the grid does not reach it"""
    out = []
    for i in range(m):
        d = i if i <= (m - 1) // 2 else i - m
        out.append(d % n if -(n // 2) <= d <= (n - 1) // 2 else None)
    return out


def rebuilt(beta, m):
    """K[x, x'] from m plane waves of an n-point kernel: the kernel at the smallest displacement equal to x - x' mod m"""
    n = len(beta)
    s = smallest(n, m)
    z = lambda i: 0 * beta[0] if s[i] is None else beta[s[i]]  # noqa: E731
    return lambda d: z(d % m)


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


@harness("C14", [{"n": n} for n in (1, 2, 3, 4, 6, 8)], [{"n": 9}, {"n": 12}, {"n": 16}], T)
def fft(env, n):
    """plane-wave operators"""
    from surface_potential_analysis.kernel import solve as So

    g = env.cvec("g", n)
    a = env.pick("basis", [("P", n), ("K", n), ("F", n), [("P", n)]])
    m = env.pick("operators", [None, *divisors(n)])
    before = snap(g)
    r = So.get_periodic_noise_operators_isotropic_fft({"basis": B(a), "data": g}, **({} if m is None else {"fundamental_n": m}))
    unchanged(env, before, g)
    m = n if m is None else m
    env.true(r["basis"][0].n == m and r["data"].shape == (m * n,) and r["eigenvalue"].shape == (m,), "number of operators")
    for i in range(2):
        isbasis(env, r["basis"][1][i], a)
    L = r["data"].reshape(m, n)
    f = rebuilt(g, m)
    env.eq(diag_kernel(r["eigenvalue"], L), env.array([[f(i - j) for j in range(n)] for i in range(n)]), "operators rebuild the kernel")
    env.eq(L @ np.conj(L).T, np.eye(m), "orthonormal operators")
    env.eq(L, np.exp(2j * np.pi * np.outer(np.arange(m), np.arange(n)) / m) / np.sqrt(n), "plane waves in order of frequency")


@harness("C14", [{"n": n} for n in (2, 3, 4, 6)], [{"n": 10}], T)
def not_periodic(env, n):
    """operator counts which do not divide the grid are refused unless asked for"""
    from surface_potential_analysis.kernel import solve as So

    g = env.rvec("g", n)
    g = env.array([g[min(i, n - i)] + 0j for i in range(n)])
    bad = env.pick("operators", [m for m in range(1, n + 4) if n % m])
    k = {"basis": B(("P", n)), "data": g}
    env.raises(AssertionError, lambda: So.get_periodic_noise_operators_isotropic_fft(k, fundamental_n=bad), "refused")
    env.raises(AssertionError, lambda: So.get_periodic_operators_for_real_isotropic_noise(k["basis"], fundamental_n=bad), "refused")
    if bad % 2:
        env.raises(AssertionError, lambda: So.get_periodic_noise_operators_real_isotropic_fft(k, n=bad // 2), "refused")
    st = {"basis": B([("P", n), ("P", 2)]), "data": env.array([x * y for x in g for y in (1.0, 0.4)])}
    env.raises(AssertionError, lambda: So.get_periodic_noise_operators_isotropic_stacked_fft(st, fundamental_shape=(bad, 2)), "refused")
    env.raises(AssertionError, lambda: So.get_periodic_noise_operators_real_isotropic_stacked_fft(st, fundamental_shape=(bad, 2)), "refused")
    r = So.get_periodic_operators_for_real_isotropic_noise(k["basis"], fundamental_n=bad, assert_periodic=False)
    t = 2 * np.pi * np.outer(np.arange(max(1, bad // 2)), [i if i <= (n - 1) // 2 else i - n for i in range(n)]) / bad
    if bad > 1:
        env.eq(r["data"].reshape(-1, n) * np.sqrt(n), np.concatenate([np.cos(t), np.sin(t)[:0:-1]]), "cosines and sines if not refused")
    r = So.get_periodic_noise_operators_isotropic_fft(k, fundamental_n=bad, assert_periodic=False)
    f = rebuilt(g, bad)
    L = r["data"].reshape(bad, n)
    x = [i if i <= (n - 1) // 2 else i - n for i in range(n)]
    env.eq(diag_kernel(r["eigenvalue"], L), env.array([[f(i - j) for j in x] for i in x]), "still the kernel at small displacements")


@harness("C14", [{"Ns": s} for s in ([3], [2, 2], [2, 3], [4, 2], [2, 2, 2], [2, 6], [4, 3])], [{"Ns": [2, 3, 4]}, {"Ns": [6, 4]}], T)
def fft_stacked(env, Ns):
    """plane-wave operators on a stacked grid"""
    from surface_potential_analysis.kernel import solve as So

    n = int(np.prod(Ns))
    g = env.cvec("g", n)
    kinds = env.pick("kinds", ["P", "K"])
    a = [(kinds, k) for k in Ns]
    m = env.pick("operators", [None, *itertools.product(*[divisors(k) for k in Ns])])
    r = So.get_periodic_noise_operators_isotropic_stacked_fft({"basis": B(a), "data": g}, **({} if m is None else {"fundamental_shape": tuple(m)}))
    m = tuple(Ns) if m is None else tuple(m)
    M_ = int(np.prod(m))
    env.true(tuple(r["basis"][0].shape) == m and r["data"].shape == (M_ * n,) and r["eigenvalue"].shape == (M_,), "number of operators")
    isbasis(env, r["basis"][1][0], a)
    L = r["data"].reshape(M_, n)
    G = g.reshape(Ns)
    s = [smallest(k, q) for k, q in zip(Ns, m)]
    ix = list(itertools.product(*[range(k) for k in Ns]))

    def f(p, q):
        return G[tuple(s[i][(p[i] - q[i]) % m[i]] for i in range(len(Ns)))]

    env.eq(diag_kernel(r["eigenvalue"], L), env.array([[f(p, q) for q in ix] for p in ix]), "operators rebuild the kernel")
    env.eq(L @ np.conj(L).T, np.eye(M_), "orthonormal operators")


def even(env, nm, n, lo=-1.0, hi=1.0):
    g = [env.real(f"{nm}{i}", lo, hi) for i in range(n // 2 + 1)]
    return [g[min(i, n - i)] for i in range(n)]


@harness("C14", [{"n": n} for n in (1, 2, 3, 4, 5, 6, 9)], [{"n": 7}, {"n": 8}, {"n": 15}], T)
def real_fft(env, n):
    """cosine and sine operators of a real even kernel"""
    from surface_potential_analysis.kernel import solve as So

    g = env.array([x + 0j for x in even(env, "g", n)])
    a = env.pick("basis", [("P", n), ("K", n), [("P", n)]])
    h = env.pick("frequencies", [None, *[d // 2 for d in divisors(n) if d % 2]])
    r = So.get_periodic_noise_operators_real_isotropic_fft({"basis": B(a), "data": g}, **({} if h is None else {"n": h}))
    m = n if h is None else 2 * h + 1
    L = r["data"].reshape(-1, n)
    env.true(r["basis"][0].n == len(L) == len(r["eigenvalue"]), "one rate per operator")
    for i in range(2):
        isbasis(env, r["basis"][1][i], a)
    f = rebuilt(g, m)
    env.eq(diag_kernel(r["eigenvalue"], L), env.array([[f(i - j) for j in range(n)] for i in range(n)]), "operators rebuild the kernel")
    env.eq(np.imag(L), np.zeros(L.shape), "real operators")
    t = 2 * np.pi * np.outer(np.arange(m // 2 + 1), np.arange(n)) / m
    env.eq(L * np.sqrt(n), np.concatenate([np.cos(t), np.sin(t)[:0:-1]]), "cosines, then sines of falling frequency")


@harness("C14", [{"n": n} for n in (2, 3, 5)], [{"n": 6}], T)
def real_fft_refused(env, n):
    """complex or uneven kernels have no real operators"""
    from surface_potential_analysis.kernel import solve as So

    g = [complex(min(i, n - i) + 1) for i in range(n)]
    k = env.index("i", n)
    x = env.real("x", 0.3, 0.8)
    c = list(g)
    c[k] = c[k] + 1j * x
    env.raises(AssertionError, lambda: So.get_periodic_noise_operators_real_isotropic_fft({"basis": B(("P", n)), "data": env.array(c)}), "complex kernel refused")
    if n > 2 and k and 2 * k != n:
        c = list(g)
        c[k] = c[k] + x
        env.raises(AssertionError, lambda: So.get_periodic_noise_operators_real_isotropic_fft({"basis": B(("P", n)), "data": env.array(c)}), "uneven kernel refused")


def separable(env, Ns, lo=0.2, hi=1.0):
    """real even kernels on each axis, the first value 1 on all axes but one, and their product"""
    ax = []
    for i, k in enumerate(Ns):
        g = even(env, f"g{i}_", k)
        g[0] = 1.0 if i else (env.real("scale", 0.5, 2.0) if len(Ns) == 1 else env.pick("scale", [0.5, 3.0]))
        ax.append([x + 0j for x in g])
    return ax, env.array([np.prod([ax[i][j] for i, j in enumerate(p)]) for p in itertools.product(*[range(k) for k in Ns])])


@harness("C14", [{"Ns": s} for s in ([3], [2, 2], [2, 3], [4, 2], [2, 2, 2])], [{"Ns": [4, 3]}, {"Ns": [2, 3, 2]}, {"Ns": [6, 3]}], T)
def real_stacked(env, Ns):
    """stacked operators of a separable kernel"""
    from surface_potential_analysis.kernel import solve as So

    n = int(np.prod(Ns))
    ax, g = separable(env, Ns)
    a = [("P", k) for k in Ns]
    m = env.pick("operators", [None, *itertools.product(*[divisors(k) for k in Ns])])
    r = So.get_periodic_noise_operators_real_isotropic_stacked_fft({"basis": B(a), "data": g}, **({} if m is None else {"fundamental_shape": tuple(m)}))
    m = tuple(Ns) if m is None else tuple(m)
    isbasis(env, r["basis"][1][0], a)
    env.true(tuple(r["basis"][0].shape) == m, "operators per axis")
    L = r["data"].reshape(-1, n)
    f = [rebuilt(x, q) for x, q in zip(ax, m)]
    ix = list(itertools.product(*[range(k) for k in Ns]))
    env.eq(diag_kernel(r["eigenvalue"], L), env.array([[np.prod([f[i](p[i] - q[i]) for i in range(len(Ns))]) for q in ix] for p in ix]), "operators rebuild the kernel")


def taylor_ok(env, c, p, label):
    """the cosine series sum_i c_i cos(i t) starts with sum_m p_m t^(2m)"""
    q = [sum(c[i] * ((-1.0) ** m * float(i) ** (2 * m) / factorial(2 * m)) for i in range(len(c))) for m in range(len(c))]
    env.eq(env.array(q), env.array([p[m] for m in range(len(c))]), label)


def cosine_operators(env, r, n, k, label=""):
    """operators cos(i t)/sqrt n, then sines; returns the cosine coefficients"""
    L = r["data"].reshape(-1, n)
    env.true(len(L) == 2 * k - 1 == r["basis"][0].n and r["eigenvalue"].shape == (2 * k - 1,), "operators kept" + label)
    t = 2 * np.pi * np.outer(np.arange(k), np.arange(n)) / n
    env.eq(L * np.sqrt(n), np.concatenate([np.cos(t), np.sin(t)[:0:-1]]), "trigonometric operators" + label)
    c = r["eigenvalue"] / n
    env.eq(c[k:], c[1:k][::-1], "sines weigh as the cosines" + label)
    return c[:k]


@harness("C14", [{"n": n, "k": k} for n, k in ((4, None), (5, 1), (6, 2), (6, 3), (7, None), (8, 4))], [{"n": 11, "k": None}], T)
def explicit_taylor(env, n, k):
    """cosine series with a given Taylor expansion"""
    from surface_potential_analysis.kernel import solve as So

    kk = n // 2 if k is None else k
    more = env.pick("extra coefficients", [0, 2])
    sg = env.pick("signs", [1.0, -1.0])
    p = env.array([env.real(f"p{i}", 0.3, 2.0) * (sg if i else 1.0) ** i for i in range(kk + more)])
    a = env.pick("basis", [("P", n), ("K", n)])
    before = snap(p)
    r = So.get_periodic_noise_operators_explicit_taylor_expansion(B(a), p, n_terms=k)
    unchanged(env, before, p)
    isbasis(env, r["basis"][1][0], a)
    taylor_ok(env, cosine_operators(env, r, n, kk), p, "Taylor coefficients of the cosine series")
    p = env.array([env.real(f"q{i}", 0.3, 2.0) for i in range(n if k is None else k)])
    r = So.get_linear_noise_operators_explicit_taylor_expansion(B(("P", n)), p, n_terms=k)
    q = n if k is None else k
    d = 2 * np.pi * ((n // 2 - np.arange(n) + n // 2) % n - n // 2) / n
    env.eq(r["data"].reshape(q, n), np.array([d**i for i in range(q)]), "powers of the displacement from the middle")
    env.eq(r["eigenvalue"], p, "weights")
    env.true(r["basis"][0].n == q, "number of operators")


@harness("C14", [{"n": n, "k": k} for n, k in ((4, None), (6, 3), (5, 2), (7, None))], [{"n": 9, "k": 4}], T)
def gaussian_taylor(env, n, k):
    """operators of Gaussian and Lorentzian noise have the Taylor expansion of those functions"""
    from surface_potential_analysis.kernel import gaussian as G
    from surface_potential_analysis.kernel import lorentzian as Lo

    kk = n // 2 if k is None else k
    a, w = env.real("a", 0.5, 2.0), env.real("w", 0.5, 2.0)
    L = 1.7
    lam = w * L / (2 * np.pi)
    kind = env.pick("basis", ["P", "K", "TP"])
    b = B((kind, n) if kind != "TP" else ("TP", n - 1, n), None)
    b = B([(kind, n) if kind != "TP" else ("TP", n - 1, n)], [np.array([L])])
    r = G.get_periodic_gaussian_operators_explicit_taylor(b[0], a, lam, n_terms=k)
    isbasis(env, r["basis"][1][0], ("P", n))
    p = [a**2 / factorial(m) * (-0.5) ** m for m in range(kk)]
    c = cosine_operators(env, r, n, kk)
    taylor_ok(env, [x * w ** (2 * kk) for x in c], [p[m] * w ** (2 * kk - 2 * m) for m in range(kk)], "gaussian")
    r = Lo.get_lorentzian_operators_explicit_taylor(a, lam, b, n_terms=k)
    isbasis(env, r["basis"][1][0], [("P", n)])
    p = [a**2 * (-1.0) ** m for m in range(kk)]
    taylor_ok(env, [x * w ** (2 * kk) for x in cosine_operators(env, r, n, kk)], [p[m] * w ** (2 * kk - 2 * m) for m in range(kk)], "lorentzian")
    if kind == "TP":
        return
    q = n if k is None else k
    r = G.get_linear_gaussian_noise_operators_explicit_taylor(b[0], a, lam, n_terms=k)
    env.eq(r["eigenvalue"] * w ** (2 * q), env.array([a**2 / factorial(m) * (-0.5) ** m * w ** (2 * q - 2 * m) for m in range(q)]), "linear gaussian weights")
    d = 2 * np.pi * ((n // 2 - np.arange(n) + n // 2) % n - n // 2) / n
    env.eq(r["data"].reshape(q, n), np.array([d**i for i in range(q)]), "powers of the displacement from the middle")


@harness("C14", [{"Ns": [4, 5]}, {"Ns": [6]}, {"Ns": [2, 3, 4]}], [{"Ns": [6, 5]}], T)
def gaussian_taylor_stacked(env, Ns):
    """stacked Taylor operators are products of those of the axes"""
    from surface_potential_analysis.kernel import gaussian as G

    a, lam = env.real("a", 0.5, 2.0), 0.37
    Ls = [1.7, 2.3, 0.9][: len(Ns)]
    b = B([("K", k) for k in Ns], [x * np.eye(len(Ns))[i] for i, x in enumerate(Ls)])
    shape = env.pick("terms", [None, tuple(1 + (k > 2) for k in Ns)])
    n = int(np.prod(Ns))
    for f, g in ((G.get_periodic_gaussian_operators_explicit_taylor_stacked, G.get_periodic_gaussian_operators_explicit_taylor), (G.get_linear_gaussian_operators_explicit_taylor_stacked, G.get_linear_gaussian_noise_operators_explicit_taylor)):
        r = f(b, a, lam, shape=shape)
        isbasis(env, r["basis"][1][0], [("P", k) for k in Ns])
        ax = [g(B([("P", k)], [np.array([x])])[0], a, lam, n_terms=None if shape is None else shape[i]) for i, (k, x) in enumerate(zip(Ns, Ls))]
        D, w = np.ones((1, 1)), np.ones(1)
        for k, x in zip(Ns, ax):
            X = x["data"].reshape(-1, k)
            D = env.array([[D[i, p] * X[j, q] for p in range(D.shape[1]) for q in range(k)] for i in range(len(D)) for j in range(len(X))])
            w = env.array([u * v for u in w for v in x["eigenvalue"]])
        env.eq(r["data"].reshape(-1, n), D, "operators")
        env.eq(r["eigenvalue"], w, "rates")
        env.true(tuple(r["basis"][0].shape) == tuple(x["basis"][0].n for x in ax), "operators per axis")


@harness("C14", [{"n": n, "k": k} for n, k in ((3, None), (4, None), (5, 1), (5, 2), (6, 2), (7, 2))], [{"n": 8, "k": 3}, {"n": 9, "k": None}], T)
def chebyshev(env, n, k):
    """the fitted cosine series passes through the kernel within the fitted displacements"""
    from surface_potential_analysis.kernel import solve as So

    g = env.array([x + 0j for x in even(env, "g", n)])
    a = env.pick("basis", [("P", n)])
    r = So.get_periodic_noise_operators_real_isotropic_taylor_expansion({"basis": B(a), "data": g}, n=k)
    kk = (n + 1) // 2 if k is None else k
    c = cosine_operators(env, r, n, kk + 1)
    f = [sum(c[i] * np.cos(2 * np.pi * i * d / n) for i in range(kk + 1)) for d in range(n)]
    near = [d for d in range(n) if min(d, n - d) <= kk]
    env.eq(env.array([f[d] for d in near]), env.array([g[d] for d in near]), "series through the kernel")
    K = diag_kernel(r["eigenvalue"], r["data"].reshape(-1, n))
    env.eq(K, env.array([[f[(i - j) % n] for j in range(n)] for i in range(n)]), "kernel of the operators")


@harness("C14", [{"Ns": s} for s in ([5], [3, 4], [4, 5])], [{"Ns": [3, 3, 3]}], T)
def chebyshev_stacked(env, Ns):
    """separable kernels"""
    from surface_potential_analysis.kernel import solve as So

    n = int(np.prod(Ns))
    ax, g = separable(env, Ns)
    shape = env.pick("terms", [None, tuple(1 for _ in Ns), tuple(1 if i else None for i in range(len(Ns)))])
    r = So.get_periodic_noise_operators_real_isotropic_stacked_taylor_expansion({"basis": B([("P", k) for k in Ns]), "data": g}, shape=shape)
    K = diag_kernel(r["eigenvalue"], r["data"].reshape(-1, n))
    isbasis(env, r["basis"][1][0], [("P", k) for k in Ns])
    ix = list(itertools.product(*[range(k) for k in Ns]))
    T_ = [(k + 1) // 2 if shape is None or shape[i] is None else 1 for i, k in enumerate(Ns)]
    env.true(tuple(r["basis"][0].shape) == tuple(2 * t + 1 for t in T_), "operators kept on every axis")
    near = [p for p in ix if all(min(p[i], Ns[i] - p[i]) <= T_[i] for i in range(len(Ns)))]
    z = ix.index(tuple(0 for _ in Ns))
    env.eq(env.array([K[ix.index(p), z] for p in near]), env.array([g[ix.index(p)] for p in near]), "kernel at small displacements")


@harness("C14", [{"Ns": s} for s in ([3], [4], [2, 3])], [{"Ns": [5]}, {"Ns": [3, 3]}], T)
def gaussian_periodic(env, Ns):
    """plane-wave operators of the Gaussian kernel rebuild it; truncation keeps the heaviest"""
    from surface_potential_analysis.kernel import gaussian as G

    n = int(np.prod(Ns))
    a, lam = env.real("a", 0.5, 2.0), 0.6
    b = B([("K", k) for k in Ns], [x * np.eye(len(Ns))[i] for i, x in enumerate([1.7, 2.3][: len(Ns)])])
    r = G.get_gaussian_noise_operators_periodic(b, a, lam)
    isbasis(env, r["basis"][1][0], [("P", k) for k in Ns])
    K = G.get_gaussian_noise_kernel(b, a, lam)["data"].reshape(n, n)
    L = r["data"].reshape(-1, n)
    env.true(len(L) == n, "all operators")
    env.eq(diag_kernel(r["eigenvalue"], L), K, "operators rebuild the kernel")
    r = G.get_gaussian_noise_operators_periodic(b, a, lam, truncation=[0])
    L = r["data"].reshape(-1, n)
    env.eq(L, np.ones((1, n)) / np.sqrt(n), "uniform operator is the heaviest")
    env.eq(r["eigenvalue"], env.array([np.sum(K[0])]), "its rate")
