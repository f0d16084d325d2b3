"""C15: temperature correction, truncation and sampling of noise operators."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .c13 import alts, diag_kernel, dnoise, full_kernel, noise
from .h import *  # noqa: F403
from .oracle import dag
from .spectral import Spectral, rng_unitary

BOUNDS = "operators 1x1 to 3x3 (4x4 thorough), lists of 1-3 with symbolic Hamiltonian, operators, rates and temperature; truncation of 1-4 operators in every order of rates; samples: the response to every normal draw, 1-2 samples"
T = ("kernel.build.*temperature*", "kernel.build.truncate*", "kernel.sample.*", "kernel.gaussian.get_temperature*", "kernel.gaussian.get_effective_gaussian_noise_operators_periodic")


def conv_op(X, a, b):
    c = conv(a, b)
    return c @ X @ dag(c)


@harness("C15", [{"n": n, "k": k} for n, k in ((1, 1), (2, 1), (2, 2), (3, 1))], [{"n": 4, "k": 1}, {"n": 3, "k": 2}, {"n": 2, "k": 4}, {"n": 4, "k": 2}], T)
def temperature_full(env, n, k):
    """L - [H, L] / 4kT in the basis of the Hamiltonian"""
    from scipy.constants import Boltzmann

    from surface_potential_analysis.kernel.build import get_temperature_corrected_noise_operators

    s = 1e3 * Boltzmann
    a = env.pick("H basis", alts(n))
    b = env.pick("L basis", alts(n)[:2])
    H, L, lam, t = env.hermitian("H", n), env.cvec("L", k, n, n), env.rvec("rate", k), env.real("T", 0.5, 2.0)
    before = snap(H, L, lam)
    r = get_temperature_corrected_noise_operators(op(s * H, a), noise(L, lam, b), 1e3 * t)
    unchanged(env, before, H, L, lam)
    for i in range(2):
        isbasis(env, r["basis"][1][i], a)
    env.true(r["basis"][0].n == k and r["data"].shape == (k * n * n,), "shape")
    C = env.array([conv_op(L[m], b, a) for m in range(k)])
    env.eq(r["data"].reshape(k, n, n) * t, env.array([C[m] * t - (H @ C[m] - C[m] @ H) / 4 for m in range(k)]), "corrected operators")
    env.eq(r["eigenvalue"], lam, "rates unchanged")


@harness("C15", [{"n": n, "k": k} for n, k in ((1, 1), (2, 1), (2, 3), (3, 2))], [{"n": 4, "k": 2}, {"n": 2, "k": 5}, {"n": 5, "k": 1}], T)
def temperature_diagonal(env, n, k):
    """diagonal operators, corrected in their own basis"""
    from scipy.constants import Boltzmann

    from surface_potential_analysis.kernel.build import get_temperature_corrected_diagonal_noise_operators, get_temperature_corrected_noise_operators

    s = 1e3 * Boltzmann
    a, b = env.pick("bases", [(x, y) for x in alts(n)[:3] for y in alts(n) if not (isinstance(x, list) and isinstance(y, list) and len(x) != len(y))])
    H, D, lam, t = env.hermitian("H", n), env.cvec("D", k, n), env.rvec("rate", k), env.real("T", 0.5, 2.0)
    before = snap(H, D, lam)
    r = get_temperature_corrected_diagonal_noise_operators(op(s * H, a), dnoise(D, lam, b), 1e3 * t)
    unchanged(env, before, H, D, lam)
    for i in range(2):
        isbasis(env, r["basis"][1][i], b)
    Hb = conv_op(H, a, b)
    want = env.array([np.diag(D[m]) * t - (Hb @ np.diag(D[m]) - np.diag(D[m]) @ Hb) / 4 for m in range(k)])
    env.eq(r["data"].reshape(k, n, n) * t, want, "corrected operators")
    env.eq(r["eigenvalue"], lam, "rates unchanged")
    full = env.array([np.diag(D[m]) for m in range(k)])
    q = get_temperature_corrected_noise_operators(op(s * H, a), noise(full, lam, b), 1e3 * t)
    env.eq(q["data"].reshape(k, n, n) * t, env.array([conv_op(w, b, a) for w in want]), "the same as for the full operators")


@harness("C15", [{"Ns": [3]}, {"Ns": [2, 2]}], [{"Ns": [4]}, {"Ns": [6]}], T)
def temperature_gaussian(env, Ns):
    """corrected operators of Gaussian noise"""
    from scipy.constants import Boltzmann, hbar

    from surface_potential_analysis.kernel import gaussian as G

    n = int(np.prod(Ns))
    s = 1e3 * Boltzmann
    H, t = env.hermitian("H", n), env.real("T", 0.5, 2.0)
    aspec = [("K", k) for k in Ns]
    b = B(aspec, [x * np.eye(len(Ns))[i] for i, x in enumerate([1.7, 2.3][: len(Ns)])])
    ham = {"basis": tup(b, b), "data": s * H.reshape(-1)}
    tr = env.pick("truncation", [None, [0], [n - 1, 0]])
    kw = {} if tr is None else {"truncation": tr}
    ops = G.get_gaussian_noise_operators_periodic(b, 1.3, 0.6, **kw)
    D = ops["data"].reshape(-1, n)
    k = len(D)
    env.true(k == (n if tr is None else len(tr)), "truncated")
    full = G.get_gaussian_noise_operators_periodic(b, 1.3, 0.6)["eigenvalue"]
    w = np.real(full)[np.argsort(-np.abs(full), kind="stable")]
    env.eq(np.real(ops["eigenvalue"]), w if tr is None else w[tr], "heaviest first")
    p = [("P", x) for x in Ns]
    r = G.get_temperature_corrected_gaussian_noise_operators(ham, 1.3, 0.6, 1e3 * t, **kw)
    for i in range(2):
        isbasis(env, r["basis"][1][i], aspec)
    C = [conv_op(np.diag(np.asarray(x)), p, aspec) for x in D]
    env.eq(r["data"].reshape(k, n, n) * t, env.array([c * t - (H @ c - c @ H) / 4 for c in C]), "corrected operators")
    env.eq(r["eigenvalue"], ops["eigenvalue"], "rates")
    eta, T0 = 0.7 * hbar, 1.4 * hbar / Boltzmann
    A, lam = G.get_effective_gaussian_parameters(b, eta, T0)
    e = G.get_effective_gaussian_noise_operators_periodic(b, eta, T0, **kw)
    f = G.get_gaussian_noise_operators_periodic(b, A, lam, **kw)
    env.eq(diag_kernel(e["eigenvalue"], e["data"].reshape(k, n)), diag_kernel(f["eigenvalue"], f["data"].reshape(k, n)), "effective parameters")
    ham = {"basis": tup(b, b), "data": hbar * H.reshape(-1)}
    r = G.get_temperature_corrected_effective_gaussian_noise_operators(ham, eta, T0, **kw)
    q = G.get_temperature_corrected_gaussian_noise_operators(ham, A, lam, T0, **kw)
    env.eq(r["data"], q["data"], "effective parameters")
    env.eq(r["eigenvalue"], q["eigenvalue"], "effective rates")


def rates(env, k):
    """k distinct positive rates in any order; returns (rates, indices of falling rate)"""
    order = env.pick("order", list(itertools.permutations(range(k))))
    e = [env.real("r0", 0.1, 1.0)]
    for i in range(1, k):
        e.append(e[-1] + env.real(f"r{i}", 0.1, 1.0))
    lam = [None] * k
    for i, j in enumerate(order):
        lam[j] = e[i]
    return env.array(lam), list(order[::-1])


def selections(k):
    return [list(range(k)), [0], [k - 1, 0], list(range(k // 2, k)), [k - 1]]


@harness("C15", [{"k": 1, "n": 2}, {"k": 2, "n": 2}, {"k": 3, "n": 2}], [{"k": 4, "n": 1}, {"k": 3, "n": 3}], T)
def truncate_lists(env, k, n):
    """truncation keeps the requested places in order of falling rate, unchanged"""
    from surface_potential_analysis.kernel import build as Bd

    lam, order = rates(env, k)
    sel = env.pick("truncation", selections(k))
    it = env.pick("iterable", ["list", "iterator", "array"])
    mk = {"list": lambda: list(sel), "iterator": lambda: iter(sel), "array": lambda: np.array(sel)}[it]
    a = env.pick("basis", alts(n)[:2])
    L, D = env.cvec("L", k, n, n), env.cvec("D", k, n)
    before = snap(L, D, lam)
    want = [order[i] for i in sel]
    for r, X in ((Bd.truncate_noise_operator_list(noise(L, lam, a), mk()), L), (Bd.truncate_diagonal_noise_operator_list(dnoise(D, lam, a), mk()), D)):
        env.true(r["basis"][0].n == len(sel), "number kept")
        for i in range(2):
            isbasis(env, r["basis"][1][i], a)
        env.eq(r["eigenvalue"], env.array([lam[i] for i in want]), "rates")
        env.eq(r["data"], env.array([X[i].reshape(-1) for i in want]).reshape(-1), "operators")
    unchanged(env, before, L, D, lam)


@harness("C15", [{"n": 1}, {"n": 2}], [{"n": 3}], T)
def truncate_kernels(env, n):
    """a truncated kernel is the sum over its heaviest operators"""
    from surface_potential_analysis.kernel import build as Bd

    sp = Spectral(env)
    b = B(("P", n))
    sel = env.pick("truncation", selections(n))
    E = sp.energies("d", n, lo=0.2, gap=0.2)
    X = sp.unitary("x", n)
    D = sp.build(E, X)
    r = Bd.truncate_diagonal_noise_kernel({"basis": tup(tup(b, b), tup(b, b)), "data": D.reshape(-1)}, sel)
    want = sum(E[n - 1 - i] * np.outer(X[:, n - 1 - i], np.conj(X[:, n - 1 - i])) for i in sel)
    env.eq(r["data"].reshape(n, n), want, "diagonal kernel")
    m = n * n
    sel = [i for i in env.pick("full truncation", selections(m))]
    E, X = sp.energies("f", m, lo=0.2, gap=0.2), rng_unitary(m, 7)
    F = sp.build(E, X)
    K4 = np.transpose(F.reshape(n, n, n, n), (1, 0, 2, 3))
    r = Bd.truncate_noise_kernel({"basis": tup(tup(b, b), tup(b, b)), "data": K4.reshape(-1)}, sel)
    want = sum(E[m - 1 - i] * np.outer(X[:, m - 1 - i], np.conj(X[:, m - 1 - i])) for i in sel)
    env.eq(r["data"].reshape(n, n, n, n), np.transpose(want.reshape(n, n, n, n), (1, 0, 2, 3)), "kernel")


def gaussian_samples(env, run, ns, K, label=""):
    """samples drawn with covariance hbar times the kernel, independent and circular"""
    from scipy.constants import hbar

    mean, V = gaussian_response(env, run)
    m = K.shape[0]
    env.eq(mean, np.zeros((ns, m)), "zero mean" + label)
    for i in range(ns):
        for j in range(ns):
            cov = sum(np.conj(v[i])[:, None] * v[j][None] for v in V) / hbar
            env.eq(cov, K if i == j else np.zeros((m, m)), "covariance of the samples" + label)
            env.eq(sum(v[i][:, None] * v[j][None] for v in V) / hbar, np.zeros((m, m)), "circular noise" + label)


@harness("C15", [{"n": 1, "k": 1, "ns": 2}, {"n": 2, "k": 1, "ns": 1}, {"n": 2, "k": 2, "ns": 2}, {"n": 3, "k": 1, "ns": 1}], [{"n": 3, "k": 3, "ns": 2}, {"n": 4, "k": 2, "ns": 3}], T)
def samples(env, n, k, ns):
    """noise sampled from operators"""
    from scipy.constants import hbar

    from surface_potential_analysis.kernel import sample as Sa

    D = env.cvec("D", k, n)
    s = env.rvec("s", k, lo=0.1)
    lam = s * s
    a = env.pick("basis", alts(n)[:3])
    K = diag_kernel(lam, D)
    ops = dnoise(D * 1.0, lam, a)

    def run():
        r = Sa.sample_noise_from_diagonal_operators(ops, n_samples=ns)
        env.true(r["basis"][0].n == ns, "one operator per sample")
        for i in range(2):
            isbasis(env, r["basis"][1][i], a)
        return r["data"].reshape(ns, n) / 1.0

    gaussian_samples(env, run, ns, K, " (diagonal)")
    L = env.cvec("L", k, n, n)
    full = noise(L, lam, a)
    Lf = L.reshape(k, n * n)

    def run_full():
        r = Sa.sample_noise_from_operators(full, n_samples=ns)
        env.true(r["basis"][0].n == ns, "one operator per sample")
        for i in range(2):
            isbasis(env, r["basis"][1][i], a)
        return r["data"].reshape(ns, n * n)

    gaussian_samples(env, run_full, ns, diag_kernel(lam, Lf), " (full)")
    env.true(hbar > 0, "")


@harness("C15", [{"n": 1, "k": 2, "ns": 1}, {"n": 2, "k": 2, "ns": 2}], [{"n": 3, "k": 3, "ns": 2}, {"n": 4, "k": 4, "ns": 1}], T)
def split_samples(env, n, k, ns):
    """samples split by operator, their sum and their components"""
    from scipy.constants import hbar

    from surface_potential_analysis.kernel import sample as Sa

    D, s = env.cvec("D", k, n), env.rvec("s", k, lo=0.1, hi=1.0)
    lam = s * s
    a = env.pick("basis", alts(n)[:2])
    ops = dnoise(D, lam, a)

    def run():
        r = Sa.sample_noise_from_diagonal_operators_split(ops, n_samples=ns)
        env.true(tuple(r["basis"][0].shape) == (k, ns), "operators x samples")
        isbasis(env, r["basis"][1][0], a)
        return np.transpose(r["data"].reshape(k, ns, n), (1, 0, 2)).reshape(ns, k * n)

    K = env.array([[lam[i] * np.conj(D[i, x]) * D[j, y] if i == j else 0 * lam[0] for j in range(k) for y in range(n)] for i in range(k) for x in range(n)])
    gaussian_samples(env, run, ns, K, " (split)")
    X = env.cvec("X", k, ns, n)
    sp = {"basis": tup(tup(fb(k), fb(ns)), tup(B(a), B(a))), "data": X.reshape(-1)}
    r = Sa.diagonal_operator_list_from_diagonal_split(sp)
    env.true(r["basis"][0].n == ns, "samples")
    isbasis(env, r["basis"][1][0], a)
    env.eq(r["data"].reshape(ns, n), sum(X[i] for i in range(k)), "sum over operators")
    c = Sa.get_diagonal_split_noise_components(sp)
    env.true(len(c) == k, "a component per operator")
    for i in range(k):
        env.true(c[i]["basis"][0].n == ns and c[i]["data"].shape == (ns * n,), "shape")
        isbasis(env, c[i]["basis"][1][1], a)
        env.eq(c[i]["data"].reshape(ns, n), X[i], "component")
    env.true(hbar > 0, "")


@harness("C15", [{"n": 1}, {"n": 2}], [{"n": 3}], T)
def kernel_samples(env, n):
    """noise sampled from a diagonal kernel, with and without truncation"""
    from surface_potential_analysis.kernel import sample as Sa

    sp = Spectral(env, phases=False)
    s = sp.energies("s", n, lo=0.3, gap=0.2)
    E, X = s * s, rng_unitary(n, 3)
    D = sp.build(E, X)
    sel = env.pick("truncation", [None, *selections(n)[:3]])
    b = B(("P", n))
    k = {"basis": tup(tup(b, b), tup(b, b)), "data": D.reshape(-1)}
    ns = 1

    def run():
        r = Sa.sample_noise_from_diagonal_kernel(k, n_samples=ns, truncation=sel)
        env.true(r["basis"][0].n == ns, "samples")
        return r["data"].reshape(ns, n)

    idx = range(n) if sel is None else sel
    K = sum(E[n - 1 - i] * np.outer(X[:, n - 1 - i], np.conj(X[:, n - 1 - i])) for i in idx)
    gaussian_samples(env, run, ns, K)
