"""C30: figures of operators, noise kernels, rates, bases and wavepackets."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .c16 import bands, deltas, expand, samples, single
from .c28 import CELL, MEASURES, cell, check_line, closed, expected, frame_vectors, generic, limits, measured, numeric, numeric_measure, points, seed_of
from .c29 import drawn, scales
from .figs import Canvas, plotting_modules
from .h import *  # noqa: F403
from .oracle import dag, freqs, fsize
from .spectral import Spectral

plotting_modules()

BOUNDS = "operators on 2-6 points in 1-2 axes, kernels on 2-4 points, 1-3 noise operators with every Gaussian draw, 3-60 rates, 2-3 bands on 2-6 samples in 1-2 axes; amplitudes whose modulus or order is drawn within 0.003 of generic values"
T = ("operator.plot.*", "basis.plot.*", "kernel.plot.*", "dynamics.incoherent_propagation.plot.*", "stacked_basis.plot.*", "wavepacket.plot.*", "util.plot.*")


def matrix(env, name, n, seed):
    return generic(env, name, n * n, seed, m=2).reshape(n, n)


OPS = [{"spec": [("P", 3)]}, {"spec": [("P", 2), ("P", 3)]}, {"spec": [("K", 4)]}, {"spec": [("K", 2), ("P", 2)]}, {"spec": [("P", 3), ("K", 2)]}]


@harness("C30", OPS, None, T)
def operators(env, spec):
    """matrix elements of operators: their diagonal by index or position, all of them as a map"""
    from surface_potential_analysis.operator import plot as P

    n, d = N(spec), len(spec)
    b = B(spec, cell(d))
    z = matrix(env, "z", n, 5)
    num = numeric(n * n, 5).reshape(n, n)
    before = snap(z)
    o = {"basis": tup(b, b), "data": z.reshape(-1)}
    other = fb(n)
    u = generic(env, "d", n, 6)
    dnum = numeric(n, 6)
    do = {"basis": tup(b, b), "data": u}
    diag = env.array([z[i, i] for i in range(n)])
    plain = all(q[0] == "P" for q in spec)
    for j, measure in enumerate(MEASURES[:3]):
        scale = ["linear", "symlog", "squared"][j]
        for f, arg, want in ((P.plot_diagonal_operator_along_diagonal, do, u), (P.plot_operator_along_diagonal, o, diag)) if plain else ():
            with Canvas() as cv:
                fig, ax, line = f(arg, ax=cv.ax, measure=measure, scale=scale)
                env.true(fig is cv.fig and ax is cv.ax and ax.curves == [line], "draws on the axes given")
            check_line(env, ax, line, np.arange(n), want, measure, scale)
            env.true(line.get_label() == f"{measure} operator", "label")
        rect = {"basis": tup(b, other), "data": z.reshape(-1)}
        for f, arg, want, flat in ((P.plot_operator_2d, rect, z, num), (P.plot_operator_2d_diagonal, do, np.diag(u) if not env.sym else env.array([[u[i] if i == k else 0.0 for k in range(n)] for i in range(n)]), np.diag(dnum))):
            kw = {"scale": scale} if f is P.plot_operator_2d else {}
            ax = drawn(env, f, arg, measure=measure, **kw)
            measured(env, ax.meshes[0].C, want, measure)
            limits(env, ax.meshes[0], ax.meshes[0].C, flat, measure, kw.get("scale", "linear"))
        if not plain:
            continue
        lists = {"basis": tup(fb(2), tup(b, b)), "data": env.array(list(u) + [3 * q for q in u])}
        with Canvas() as cv:
            fig, ax, ani = P.animate_diagonal_operator_list_along_diagonal(lists, ax=cv.ax, measure=measure, scale=scale, periodic=bool(j))
            env.true(fig is cv.fig and ax is cv.ax and len(ani.frames) == 2, "one frame for every operator")
        for i, (line,) in enumerate(ani.frames):
            x, y = np.arange(n), (1 + 2 * i) * u
            if j:
                x, y = closed(x, y)
            check_line(env, ax, line, x, y, measure, scale)
    unchanged(env, before, z)


@harness("C30", OPS, None, T)
def local(env, spec):
    """the diagonal of an operator in position"""
    from surface_potential_analysis.operator import plot as P

    n, d = N(spec), len(spec)
    b = B(spec, cell(d))
    V = BM(spec)
    Z = matrix(env, "z", n, 5)
    num = np.diag(V @ numeric(n * n, 5).reshape(n, n) @ dag(V))
    before = snap(Z)
    W = V @ Z @ dag(V)
    diag = env.array([W[i, i] for i in range(n)])
    o = {"basis": tup(b, b), "data": Z.reshape(-1)}
    pts = [("P", m) for m in (fsize(q) for q in spec)]
    plain = all(q[0] == "P" for q in spec)
    u = generic(env, "d", n, 6)
    sh = [fsize(q) for q in spec]
    for j, measure in enumerate(MEASURES[:3]):
        scale = ["linear", "symlog", "squared"][j]
        for f, arg, want in ((P.plot_operator_along_diagonal_1d_x, o, diag), (P.plot_diagonal_operator_along_diagonal_1d_x, {"basis": tup(b, b), "data": u}, u)):
            if want is u and not plain:
                W2 = (V * u) @ dag(V)
                want = env.array([W2[i, i] for i in range(n)])
            for a in range(d):
                idx = tuple(sh[i] - 1 for i in range(d) if i != a)
                with Canvas() as cv:
                    fig, ax, line = f(arg, (a,), idx, ax=cv.ax, measure=measure, scale=scale)
                    env.true(fig is cv.fig and ax is cv.ax and ax.curves == [line], "draws on the axes given")
                X, z = expected(pts, want, (a,), idx, "x")
                x, z = closed(X[0], z)
                check_line(env, ax, line, x, z, measure, scale)
        if d == 2:
            for f, arg, want in ((P.plot_operator_along_diagonal_2d_x, o, diag), (P.plot_diagonal_operator_along_diagonal_2d_x, {"basis": tup(b, b), "data": u}, u)):
                if want is u:
                    W2 = (V * u) @ dag(V)
                    want = env.array([W2[i, i] for i in range(n)])
                for axes in ((0, 1), (1, 0)):
                    ax = drawn(env, f, arg, axes, measure=measure, scale=scale)
                    X, z = expected(pts, want, axes, (), "x")
                    env.eq(np.array(ax.meshes[0].X, dtype=float), X[0], "first coordinate")
                    env.eq(np.array(ax.meshes[0].Y, dtype=float), X[1], "second coordinate")
                    measured(env, ax.meshes[0].C, z, measure)
    unchanged(env, before, Z)


@harness("C30", [{"n": 2}, {"n": 3}], [{"n": 5}], T)
def spectra(env, n):
    """eigenvalues and thermal occupations of operators"""
    from scipy.constants import Boltzmann

    from surface_potential_analysis.operator import plot as P

    sp = Spectral(env)
    E = sp.energies("e", n, lo=0.5)
    X = sp.unitary("u", n)
    A = sp.build(E, X)
    b = fb(n)
    before = snap(A)
    o = {"basis": tup(b, b), "data": A.reshape(-1)}
    ax = drawn(env, P.plot_eigenstate_occupations, o, 2.0 / Boltzmann, lines=1, scale="log")
    z = [np.exp(-(q - E[0]) / 2.0) for q in E]
    env.eq(np.real(ax.curves[0].x), E - E[0], "energies above the lowest")
    env.eq(ax.curves[0].y, env.array([q / sum(z) for q in z]), "thermal occupation")
    for h in (True, False):
        for measure in ("real", "abs"):
            ax = drawn(env, P.plot_eigenvalues, o, lines=1, hermitian=h, scale="log", measure=measure)
            measured(env, ax.curves[0].y, E + 0j, measure)
            env.true(scales(ax, "log"), "scale")
    unchanged(env, before, A)


@harness("C30", [{"n": 2}, {"n": 3}, {"n": 4}], [{"n": 6}], T)
def kernels(env, n):
    """noise kernels as maps, and what is left of them when only the smallest eigenvalues are kept"""
    from surface_potential_analysis.kernel import plot as P

    K = matrix(env, "k", n, 8)
    before = snap(K)
    b = B([("P", n)], cell(1))
    db = tup(b, b)
    kernel = {"basis": tup(db, db), "data": K.reshape(-1)}
    i = np.fft.fftshift(np.arange(n))
    full = matrix(env, "f", n * n, 9) if n < 4 else None
    for j, measure in enumerate(MEASURES[:3]):
        scale = ["linear", "symlog", "squared"][j]
        ax = drawn(env, P.plot_diagonal_kernel_2d, kernel, measure=measure, scale=scale)
        measured(env, ax.meshes[0].C, K[i][:, i], measure)
        if full is not None:
            ax = drawn(env, P.plot_kernel_2d, {"basis": tup(db, db), "data": full.reshape(-1)}, measure=measure, scale=scale)
            measured(env, ax.meshes[0].C, full, measure)
    unchanged(env, before, K)
    sp = Spectral(env)
    E = sp.energies("e", n, lo=0.5)
    A = sp.build(E, sp.unitary("u", n))
    ax = drawn(env, P.plot_diagonal_kernel_truncation_error, {"basis": tup(db, db), "data": A.reshape(-1)}, lines=1, scale="symlog")
    env.true(scales(ax, "symlog"), "scale")
    env.eq(np.array(ax.curves[0].x), np.arange(n + 1), "number left out")
    env.eq(ax.curves[0].y, env.array([sum(E[:m]) if m else 0.0 for m in range(n + 1)]), "sum of the eigenvalues left out")
    ops = {"basis": tup(fb(n), db), "data": np.zeros(n * n, dtype=complex), "eigenvalue": env.array([E[q] for q in reversed(range(n))])}
    before = snap(ops["eigenvalue"])
    ax = drawn(env, P.plot_diagonal_noise_operators_eigenvalues, ops, lines=1, scale="symlog")
    env.eq(ax.curves[0].y, env.array([E[q] for q in reversed(range(n))]), "falling eigenvalues")
    unchanged(env, before, ops["eigenvalue"])


@harness("C30", [{"n": 2}], None, T)
def left_out(env, n):
    """the sum of the eigenvalues of a full kernel left out by a truncation"""
    from surface_potential_analysis.kernel import plot as P

    b = fb(n)
    db = tup(b, b)
    sp = Spectral(env)
    E = sp.energies("e", n * n, lo=0.5)
    negative = env.pick("negative", [False, True])
    if negative:  # a kernel need not be positive
        low = -5.5 - env.real("low", 0.0, 0.4)
        E = env.array([low, *E[: n * n - 1]])
    A = sp.build(E, sp.unitary("u", n * n))
    if negative:
        E = env.array([*E[1:], -E[0]])
    K = A.reshape(n, n, n, n).swapaxes(0, 1).reshape(-1)
    before = snap(K)
    kernel = {"basis": tup(db, db), "data": K}
    t = env.pick("truncations", [None, [0, 3], [4, 1, 2]])
    ax = drawn(env, P.plot_kernel_truncation_error, kernel, lines=1, scale="symlog", truncations=t)
    x = list(range(n * n + 1)) if t is None else t
    env.true(list(ax.curves[0].x) == x, "number left out")
    env.eq(ax.curves[0].y, env.array([sum(E[:m]) if m else 0.0 for m in x]), "sum of the eigenvalues left out")
    env.true(scales(ax, "symlog"), "scale")
    unchanged(env, before, K)


@harness("C30", [{"spec": [("P", 3)], "m": 1}, {"spec": [("P", 2)], "m": 3}, {"spec": [("P", 2), ("P", 3)], "m": 2}], None, T)
def samples_of_noise(env, spec, m):
    """one realisation of the noise: sum of sqrt(hbar lambda) (n1 + i n2)/sqrt(2) L over the operators kept, relative to the first point"""
    from scipy.constants import hbar

    from surface_potential_analysis.kernel import plot as P

    n, d = N(spec), len(spec)
    b = B(spec, cell(d))
    L = env.cvec("l", m, n)
    order = env.pick("order", [1, -1])
    w = [env.real(f"w{i}", 0.1, 0.9) + i for i in range(m)][::order]
    lam = env.array([q * q / hbar for q in w])
    before = snap(L, lam)
    sh = [fsize(q) for q in spec]
    own = {"basis": tup(fb(m), tup(b, b)), "data": L.reshape(-1), "eigenvalue": lam}
    waves = [("K", q) for q in sh]
    V = BM(waves)
    full = env.array([list((dag(V) @ (L[i][:, None] * V)).reshape(-1)) for i in range(m)]).reshape(-1)
    kb = B(waves, cell(d))
    other = {"basis": tup(fb(m), tup(kb, kb)), "data": full, "eigenvalue": lam}
    idx = tuple(q - 1 for q in sh[:-1])
    for trunc in [None, [0]] + ([[1, 0]] if m > 1 else []):
        rank = sorted(range(m), key=lambda i: i * order, reverse=True)
        keep = [rank[i] for i in (range(m) if trunc is None else trunc)]
        cov = sum(w[q] * w[q] * np.outer(L[q] - L[q][0], np.conj(L[q] - L[q][0])) for q in keep)
        at = expected(spec, np.arange(n), (d - 1,), idx, "x")
        line = [int(i) for i in closed(at[0][0], at[1])[1]]
        for f, arg in ((P.plot_diagonal_noise_operators_single_sample, own), (P.plot_noise_operators_single_sample_x, other)):
            if f is P.plot_noise_operators_single_sample_x and (m > 2 or trunc):
                continue
            for measure in ("real", "imag"):
                axis = []

                def run():
                    ax = drawn(env, f, arg, trunc, (d - 1,), idx, lines=1, measure=measure, scale="symlog")
                    env.true(scales(ax, "symlog"), "scale")
                    axis.append(np.array(ax.curves[0].x, dtype=float))
                    return ax.curves[0].y

                zero, rows = gaussian_response(env, run)
                env.true(len(rows) == 2 * len(keep), "two numbers for every operator")
                env.eq(axis[0], closed(at[0][0], at[1])[0], "coordinates")
                env.eq(zero, np.zeros(len(line)), "no noise without draws")
                env.eq(sum(np.outer(q, q) for q in rows), np.real(cov)[np.ix_(line, line)] / 2, "correlations of the realisations")
    unchanged(env, before, L, lam)


@harness("C30", [{"spec": [("P", 3)]}, {"spec": [("P", 2), ("P", 3)]}], None, T)
def samples_of_known_noise(env, spec):
    """realisations of given operators and kernels, for every draw: the operators kept, the line asked for"""
    from scipy.constants import hbar

    from surface_potential_analysis.kernel import plot as P

    n, d, m = N(spec), len(spec), 2
    b = B(spec, cell(d))
    L = np.linalg.qr(numeric(n * n, 17).reshape(n, n))[0].T[:m]
    lam = np.array([0.7, 2.1]) / hbar
    sh = [fsize(q) for q in spec]
    V = BM([("K", q) for q in sh])
    kb = B([("K", q) for q in sh], cell(d))
    own = {"basis": tup(fb(m), tup(b, b)), "data": L.reshape(-1), "eigenvalue": lam}
    other = {"basis": tup(fb(m), tup(kb, kb)), "data": np.array([dag(V) @ (L[i][:, None] * V) for i in range(m)]).reshape(-1), "eigenvalue": lam}
    K = sum(lam[i] * np.outer(np.conj(L[i]), L[i]) for i in range(m))
    kernel = {"basis": tup(tup(b, b), tup(b, b)), "data": K.reshape(-1)}
    idx = env.pick("point", list(itertools.product(*[range(q) for q in sh[:-1]])))
    at = expected(spec, np.arange(n), (d - 1,), idx, "x")
    line = [int(i) for i in closed(at[0][0], at[1])[1]]
    for f, arg, trunc in ((P.plot_diagonal_noise_operators_single_sample, own, None), (P.plot_noise_operators_single_sample_x, other, None), (P.plot_noise_operators_single_sample_x, other, [0]), (P.plot_noise_operators_single_sample_x, other, [1]), (P.plot_noise_kernel_single_sample, kernel, [0]), (P.plot_noise_kernel_single_sample, kernel, [1]), (P.plot_noise_kernel_single_sample, kernel, [0, 1])):
        keep = [(1, 0)[i] for i in (trunc or range(m))]
        cov = sum(lam[q] * hbar * np.outer(L[q] - L[q][0], np.conj(L[q] - L[q][0])) for q in keep)
        for measure in ("real", "imag"):
            def run():
                ax = drawn(env, f, arg, trunc, (d - 1,), idx, lines=1, measure=measure)
                return ax.curves[0].y

            zero, rows = gaussian_response(env, run)
            env.eq(sum(np.outer(q, q) for q in rows), np.real(cov)[np.ix_(line, line)] / 2, "correlations of the realisations")
    if d == 1:
        ops = {"basis": tup(fb(3), tup(b, b)), "data": np.zeros(3 * n, dtype=complex), "eigenvalue": np.array([1.0, -5.0, 3.0])}
        ax = drawn(env, P.plot_diagonal_noise_operators_eigenvalues, ops, lines=1)
        env.eq(ax.curves[0].y, np.array([3.0, 1.0, -5.0]), "falling eigenvalues of either sign")
        ax = drawn(env, P.plot_diagonal_kernel_truncation_error, {"basis": kernel["basis"], "data": (0j + np.diag([1.0, -5.0, 3.0])).reshape(-1)}, lines=1)
        env.eq(np.real(ax.curves[0].y), np.array([0.0, 1.0, 4.0, 9.0]), "sizes of the eigenvalues left out")


@harness("C30", [{"spec": [("P", 3)]}, {"spec": [("P", 4)]}], None, T)
def fits_of_kernels(env, spec):
    """error of a fitted isotropic kernel in per cent"""
    from surface_potential_analysis.kernel import plot as P

    n = N(spec)
    b = B(spec, cell(1))
    true, fit = numeric(n, 3), generic(env, "f", n, 4)
    other = [("K", n)]
    before = snap(fit)
    k0 = {"basis": b, "data": true}
    own = env.pick("own", [True, False])
    k1 = {"basis": b if own else B(other, cell(1)), "data": fit}
    v = fit if own else conv(other, spec) @ fit
    want = np.real((v - true) * 100 / true)
    ax = drawn(env, P.plot_isotropic_kernel_error_1d, k0, k1, lines=1)
    env.eq(np.array(ax.curves[0].x), np.arange(n), "index")
    env.eq(ax.curves[0].y, want, "error in per cent")
    ax = drawn(env, P.plot_isotropic_kernel_error_1d_x, k0, k1, lines=1)
    x, want = closed(np.arange(n) * 2.5 / n, want)
    env.eq(np.array(ax.curves[0].x), x, "coordinates")
    env.eq(ax.curves[0].y, want, "error in per cent")
    unchanged(env, before, fit)


@harness("C30", [{"n": 3, "m": 2}, {"n": 60, "m": 1}, {"n": 2, "m": 3}], None, T)
def decomposed_rates(env, n, m):
    """rates against temperature, those with the largest weight first, at most fifty"""
    from surface_potential_analysis.dynamics.incoherent_propagation import plot as P
    from surface_potential_analysis.dynamics.incoherent_propagation.isf import RateDecomposition

    order = np.array([np.random.RandomState(i).permutation(n) for i in range(m)])
    rates, want = [], []
    for i in range(m):
        ev = env.array([env.cplx(f"r{i}.{j}") if j < 5 else 1.0 * j + 0j for j in range(n)])
        size = [(env.real(f"c{i}.{j}", 0.1, 0.9) if j < 3 else 0.5) + j for j in range(n)]
        co = env.array([size[j] * np.exp(2j * j) for j in order[i]])
        rates.append(RateDecomposition(ev, co))
        at = {int(j): p for p, j in enumerate(order[i])}
        want.append([-np.real(ev[at[j]]) for j in reversed(range(n))])
    temps = np.arange(m) + 1.5
    ax = drawn(env, P.plot_rate_decomposition_against_temperature, rates, temps, lines=min(50, n))
    for j, line in enumerate(ax.curves):
        env.eq(np.array(line.x), temps, "temperatures")
        env.eq(line.y, env.array([w[j] for w in want]), "rates by weight")


@harness("C30", [{"shape": [2, 3]}, {"shape": [3, 2, 2]}], None, T)
def places(env, shape):
    """points of a basis projected on a plane"""
    from surface_potential_analysis.stacked_basis import plot as P

    d = len(shape)
    spec = [("P", q) for q in shape]
    b = B(spec, cell(d))
    C = np.array(CELL[d])
    axes = env.pick("axes", list(itertools.permutations(range(d), 2)))
    p = env.rvec("p", d, 3)
    before = snap(p)
    K = 2 * np.pi * np.linalg.inv(C).T
    rest = [shape[i] for i in range(d) if i not in axes]
    idx = tuple(q - 1 for q in rest)

    def line(f, *a):
        ax = drawn(env, f, *a, lines=1)
        return env.array([list(ax.curves[0].x), list(ax.curves[0].y)])

    def grid(V, at):
        e = frame_vectors(V, axes)
        return np.array([e @ sum(i * v for i, v in zip(q, V)) for q in at]).T

    for f, V in ((P.plot_k_points_projected_2d, K), (P.plot_x_points_projected_2d, C)):
        env.eq(line(f, b, axes, p), frame_vectors(V, axes) @ p, "projected points")
    plane = []
    for q in itertools.product(*[range(s) for s in shape]):
        if tuple(q[i] for i in range(d) if i not in axes) == idx:
            plane.append(q)
    env.eq(line(P.plot_fundamental_x_in_plane_projected_2d, b, axes, idx), grid(C / np.array(shape)[:, None], plane), "points of the plane")
    waves = [tuple(freqs(s)[i] for s, i in zip(shape, q)) for q in plane]
    env.eq(line(P.plot_fundamental_k_in_plane_projected_2d, b, axes, idx), grid(K, waves), "wave vectors of the plane")
    flat = int(np.prod(shape)) - 2
    for at in (flat, tuple(int(i) for i in np.unravel_index(flat, shape))):
        env.eq(line(P.plot_fundamental_x_at_index_projected_2d, b, at, axes), grid(C / np.array(shape)[:, None], [np.unravel_index(flat, shape)]), "point at the index")
    near = [q for q in itertools.product((0, 1, -1), repeat=d)]
    got = line(P.plot_bragg_points_projected_2d, b, axes)
    env.eq(got, grid(K * np.array(shape)[:, None], near), "Bragg points")
    unchanged(env, before, p)


PACKETS = [{"s": [3], "x": [2]}, {"s": [4], "x": [3]}, {"s": [2, 3], "x": [2, 2]}]


def packet(env, s, x, nb, e, spec=None):
    k, n = int(np.prod(s)), int(np.prod(x))
    c = np.zeros((nb, k, n), dtype=complex)
    for b in range(nb):
        c[b, :, b] = 1
    return bands(c, s, spec or [("K", a) for a in x], e, deltas(len(s)))


@harness("C30", PACKETS, None, T)
def band_structure(env, s, x):
    """band energies against wave vector, sample or hopping distance"""
    from scipy.constants import hbar

    from surface_potential_analysis.wavepacket import plot as W

    d = len(s)
    nb, k = 2, int(np.prod(s))
    ks = [tuple(a % m for a, m in zip(q, s)) for q in samples(s)]
    at = {q: i for i, q in enumerate(itertools.product(*[range(m) for m in s]))}
    # band energies: E(k) = E(-k), clearly largest at k = 0
    r = np.random.RandomState(3).uniform(1.0, 2.0, size=(nb, *s))
    e = []
    for b in range(nb):
        row = []
        for i, q in enumerate(ks):
            row.append(r[(b, *q)] + 3 * (i == 0) + (env.real(f"e{b}{i}", -0.003, 0.003) if i < 2 else 0.0))
        e.append(row)
    e = env.array(e)
    before = snap(e)
    w = packet(env, s, x, nb, e)
    super_cell = [m * v for m, v in zip(s, deltas(d))]
    C = np.array(super_cell)
    K = 2 * np.pi * np.linalg.inv(C).T
    D = np.array([q for q in itertools.product(*[freqs(m) for m in s])])
    F = np.exp(2j * np.pi * np.array([[sum(a * j / m for a, j, m in zip(q, p, s)) for q in D] for p in itertools.product(*[range(m) for m in s])])) / np.sqrt(k)
    pick = env.pick("bands", [None, [1]])
    which = [0, 1] if pick is None else pick
    for measure in ("real", "abs"):
        for a in range(d):
            others = [i for i in range(d) if i != a]
            row = [i for i, q in enumerate(D) if all(q[o] == 0 for o in others)]
            row.sort(key=lambda i: D[i][a])
            with Canvas() as cv:
                fig, ax, lines = W.plot_wavepacket_eigenvalues_1d_k(w, (a,), pick, ax=cv.ax, measure=measure, scale="symlog")
                env.true(fig is cv.fig and ax is cv.ax and ax.curves == lines and len(lines) == len(which), "one line for every band")
            for line, b in zip(lines, which):
                X = np.array([K[a] * D[i][a] for i in row]) @ (K[a] / np.linalg.norm(K[a]))
                xx, z = closed(X, e[b][row] + 0j)
                check_line(env, ax, line, xx, z, measure, "symlog")
            hop = [i for i, p in enumerate(itertools.product(*[range(m) for m in s])) if all(p[o] == 0 for o in others)]
            if d == 1:
                ax = drawn(env, W.plot_wavepacket_eigenvalues_1d_x, w, (a,), pick, lines=len(which), measure=measure, scale="symlog")
                for line, b in zip(ax.curves, which):
                    xx, z = closed(np.linalg.norm(C[a]) / s[a] * np.arange(s[a]), F[hop] @ e[b])
                    env.eq(np.array(line.x, dtype=float), xx, "hopping distance")
                    measured(env, line.y, z, measure)
            # lowest harmonic
            p = tuple(1 if i == a else 0 for i in range(d))
            ax = drawn(env, W.plot_wavepacket_transformed_energy_1d, w, 2.0, (a,), pick, lines=2, measure=measure, scale="symlog")
            env.eq(np.array(ax.curves[0].x), which, "band")
            measured(env, ax.curves[0].y, env.array([F[at[p]] @ e[b] for b in which]), measure, "lowest harmonic")
            env.eq(np.array(ax.curves[1].x), which, "band")
            L = np.linalg.norm(deltas(d)[a])
            free = [np.sqrt(k) * hbar**2 * (2 * b + 1) / (2.0 * L**2) for b in which]
            env.eq(np.array(ax.curves[1].y) / hbar**2, np.array(free) / hbar**2, "free particle")
    unchanged(env, before, e)


@harness("C30", PACKETS, None, T)
def samples_of_packets(env, s, x):
    """sampled wave vectors, energies along a row of samples, energies over uneven wave vectors, maps of the energies of a band"""
    from surface_potential_analysis.wavepacket import plot as W

    d = len(s)
    k, n = int(np.prod(s)), int(np.prod(x))
    r = np.random.RandomState(3).uniform(1.0, 2.0, size=k)
    e = env.array([r[i] + 3 * (i == 0) + (env.real(f"e{i}", -0.003, 0.003) if i < 2 else 0.0) for i in range(k)])
    before = snap(e)
    c = np.zeros((k, n), dtype=complex)
    c[:, 0] = 1
    w = single(c, s, [("K", a) for a in x], e, deltas(d))
    C = np.array([m * v for m, v in zip(s, deltas(d))])
    K = 2 * np.pi * np.linalg.inv(C).T
    D = np.array([q for q in itertools.product(*[freqs(m) for m in s])])
    V = np.array([sum(q[i] * K[i] for i in range(d)) for q in D])
    if d == 2:
        ax = drawn(env, W.plot_wavepacket_sample_frequencies, w, (0, 1), lines=1)
        env.eq(np.array([ax.curves[0].x, ax.curves[0].y]), V.T, "sampled wave vectors")
        ax = drawn(env, W.plot_wavepacket_sample_frequencies, w, (1, 0), lines=1)
        env.eq(np.array([ax.curves[0].x, ax.curves[0].y]), V.T[::-1], "sampled wave vectors")
        for axes in ((0, 1), (1, 0)):
            spec = [("K", m) for m in s]
            for f, kind in ((W.plot_wavepacket_eigenvalues_2d_k, "k"), (W.plot_wavepacket_eigenvalues_2d_x, "x")):
                for measure in ("real", "abs"):
                    ax = drawn(env, f, w, axes, measure=measure, scale="symlog")
                    vals = conv(spec, points(spec, kind)) @ e
                    _, z = expected(spec, vals, axes, (), kind)
                    measured(env, ax.meshes[0].C, z, measure)
                    G = np.array([V[np.ravel_multi_index([q % m for q, m in zip(p, s)], s)] for p in itertools.product(*[sorted(freqs(m)) for m in s])]) if kind == "k" else np.array([sum(j * C[i] / s[i] for i, j in enumerate(p)) for p in itertools.product(*[range(m) for m in s])])
                    E = frame_vectors(K if kind == "k" else C, axes)
                    pr = (G @ E.T).reshape(*s, 2)
                    if axes == (1, 0):
                        pr = pr.swapaxes(0, 1)
                    env.eq(np.array(ax.meshes[0].X), pr[..., 0], "first coordinate")
                    env.eq(np.array(ax.meshes[0].Y), pr[..., 1], "second coordinate")
    for a in range(d):
        idx = tuple(s[i] - 1 for i in range(d) if i != a)
        ax = drawn(env, W.plot_eigenvalues_1d_x, w, (a,), idx if d > 1 else None, lines=1, scale="log")
        G = e.reshape(s)
        env.eq(ax.curves[0].y, G if d == 1 else (G[:, idx[0]] if a == 0 else G[idx[0], :]), "energies along a row of samples")
        env.eq(np.array(ax.curves[0].x), np.arange(s[a]), "sample")
        env.true(scales(ax, "log"), "scale")
    unchanged(env, before, e)


@harness("C30", [{"s": [2, 3, 2]}, {"s": [3, 1, 2]}], None, T)
def sampled_planes(env, s):
    """the sampled wave vectors of one plane of a three dimensional packet"""
    from surface_potential_analysis.wavepacket import plot as W

    d = 3
    k = int(np.prod(s))
    w = single(np.ones((k, 1), dtype=complex), s, [("K", 1)] * 3, env.rvec("e", k), deltas(d))
    K = 2 * np.pi * np.linalg.inv(np.array([m * v for m, v in zip(s, deltas(d))])).T
    D = np.array([q for q in itertools.product(*[freqs(m) for m in s])])
    V = np.array([sum(q[i] * K[i] for i in range(d)) for q in D]).T.reshape(d, *s)
    axes = env.pick("axes", [(0, 1), (1, 2), (0, 2)])
    c = [i for i in range(d) if i not in axes][0]
    for idx in [None] + [(i,) for i in range(s[c])]:
        ax = drawn(env, W.plot_wavepacket_sample_frequencies, w, axes, idx, lines=1)
        env.eq(np.array([ax.curves[0].x, ax.curves[0].y]), np.take(V, 0 if idx is None else idx[0], axis=1 + c)[list(axes)].reshape(2, -1), "sampled wave vectors of the plane")


@harness("C30", [{"s": [3], "x": [2]}, {"s": [2, 3], "x": [2, 2]}], None, T)
def uneven(env, s, x):
    """band energies over wave vectors in any order, ascending along an axis"""
    from surface_potential_analysis.wavepacket import plot as W

    d = len(s)
    nb, k, n = 2, int(np.prod(s)), int(np.prod(x))
    from surface_potential_analysis.basis.block_fraction_basis import ExplicitBlockFractionBasis

    e = env.rvec("e", nb, k)
    fr = np.array([[q / m for q, m in zip(t, s)] for t in samples(s)])[::-1].T + 0.01
    w = {"basis": tup(tup(fb(nb), ExplicitBlockFractionBasis(fr)), B([("K", q) for q in x], deltas(d))), "data": np.zeros(nb * k * n, dtype=complex), "eigenvalue": e.reshape(-1)}
    before = snap(e)
    pick = env.pick("bands", [None, [1], [1, 0]])
    which = [0, 1] if pick is None else pick
    Ku = 2 * np.pi * np.linalg.inv(np.array(deltas(d))).T
    D = fr.T
    for a in range(d):
        u = Ku[a] / np.linalg.norm(Ku[a])
        pos = D @ Ku @ u
        if len(set(np.round(pos, 6))) < k:
            continue
        order = np.argsort(pos)
        ax = drawn(env, W.plot_uneven_wavepacket_eigenvalues_1d_k, w, (a,), pick, lines=len(which), measure="real", scale="symlog")
        for line, b in zip(ax.curves, which):
            env.eq(np.array(line.x), pos[order], "wave vector along the axis")
            env.eq(line.y, e[b][order], "energy")
        env.true(scales(ax, "symlog"), "scale")
    unchanged(env, before, e)


@harness("C30", [{"s": [2], "x": [2]}, {"s": [3], "x": [2]}, {"s": [2, 2], "x": [2, 1]}, {"s": [2, 1, 1], "x": [1, 2, 2]}], None, T)
def packets(env, s, x):
    """wavepackets over the whole of their cell, in position and momentum, and along a path"""
    from surface_potential_analysis.wavepacket import plot as W

    d = len(s)
    k, n = int(np.prod(s)), int(np.prod(x))
    c = generic(env, "c", k * n, 5, m=2).reshape(1, k, n)
    cn = numeric(k * n, 5).reshape(1, k, n)
    before = snap(c)
    uspec = [("K", a) for a in x]
    w = single(c[0], s, uspec, env.array([1.0 + i for i in range(k)]), deltas(d))
    spec = [("K", p * q) for p, q in zip(s, x)]
    psi = sum(env.array(list(q)) for q in expand(c, s, uspec)[0]) / np.sqrt(k)
    num = sum(expand(cn, s, uspec)[0]) / np.sqrt(k)
    C = [m * v for m, v in zip(s, deltas(d))]
    sh = [p * q for p, q in zip(s, x)]

    def geometry(kind, axes):
        V = 2 * np.pi * np.linalg.inv(np.array(C)).T if kind == "k" else np.array(C) / np.array(sh)[:, None]
        return V, frame_vectors(V, axes)

    for j, measure in enumerate(MEASURES[:3]):
        scale = ["linear", "symlog", "squared"][j]
        for kind, one, two in (("x", W.plot_wavepacket_1d_x, W.plot_wavepacket_2d_x), ("k", W.plot_wavepacket_1d_k, W.plot_wavepacket_2d_k)):
            vals = conv(spec, points(spec, kind)) @ psi
            nums = conv(spec, points(spec, kind)) @ num
            for a in range(d):
                idx = tuple(sh[i] - 1 for i in range(d) if i != a)
                with Canvas() as cv:
                    fig, ax, line = one(w, (a,), idx, ax=cv.ax, measure=measure, scale=scale)
                    env.true(fig is cv.fig and ax is cv.ax and ax.curves == [line], "draws on the axes given")
                _, z = expected(spec, vals, (a,), idx, kind)
                V, E = geometry(kind, (a,))
                at = sorted(freqs(sh[a])) if kind == "k" else range(sh[a])
                off = sum((freqs(sh[i])[q] if kind == "k" else q) * V[i] for i, q in zip([i for i in range(d) if i != a], idx)) if d > 1 else np.zeros(d)
                X = np.array([E[0] @ (i * V[a] + off) for i in at])
                xx, z = closed(X, z)
                check_line(env, ax, line, xx, z, measure, scale)
            if d > 1:
                for axes in list(itertools.permutations(range(d), 2))[:: 1 if d == 2 else 2]:
                    idx = tuple(0 for i in range(d) if i not in axes)
                    with Canvas() as cv:
                        fig, ax, mesh = two(w, axes, idx, ax=cv.ax, measure=measure, scale=scale)
                        env.true(fig is cv.fig and ax is cv.ax and ax.meshes == [mesh], "draws on the axes given")
                    _, z = expected(spec, vals, axes, idx, kind)
                    measured(env, mesh.C, z, measure)
                    limits(env, mesh, mesh.C, expected(spec, nums, axes, idx, kind)[1], measure, scale)
        path = np.array([[0, 1, 1], [1, 0, 1], [0, 0, 1]])[:d]
        path = np.array([p % m for p, m in zip(path, sh)])
        ax = drawn(env, W.plot_wavepacket_along_path, w, path, lines=1, measure=measure, scale="symlog")
        vals = conv(spec, points(spec, "x")) @ psi
        measured(env, ax.curves[0].y, vals[np.ravel_multi_index(path, sh)], measure)
        if d == 3:
            with Canvas() as cv:
                fig, ax, ani = W.animate_wavepacket_3d_x(w, (0, 1, 2), ax=cv.ax, measure=measure, scale=scale)
            G = vals.reshape(sh)
            env.true(len(ani.frames) == sh[2], "one frame for every plane")
            for p, (mesh,) in enumerate(ani.frames):
                measured(env, mesh.C, G[:, :, p], measure)
    if d == 2:
        for f, kind in ((W.plot_all_wavepacket_states_2d_x, "x"), (W.plot_all_wavepacket_states_2d_k, "k")):
            with Canvas():
                out = list(f(w, (0, 1), measure="real"))
            env.true(len(out) == k, "one figure for every sample")
            for i, (_fig, _ax, mesh) in enumerate(out):
                vals = conv(spec, points(spec, kind)) @ env.array(list(expand(c, s, uspec)[0][i]))
                _, z = expected(spec, vals, (0, 1), (), kind)
                measured(env, mesh.C, z, "real")
    unchanged(env, before, c)


@harness("C30", [{"s": [2], "x": [2]}, {"s": [3], "x": [2]}, {"s": [2, 3], "x": [2, 2]}], None, T)
def masses_and_occupations(env, s, x):
    """effective mass (or its relative error) against the average energy or the index of every band; thermal occupation of every band"""
    from scipy.constants import Boltzmann, hbar

    from surface_potential_analysis.wavepacket import plot as W

    d, nb, k = len(s), 2, int(np.prod(s))
    ks = [tuple(a % m for a, m in zip(q, s)) for q in samples(s)]
    r = np.random.RandomState(3).uniform(1.0, 2.0, size=(nb, *s))
    e = env.array([[r[(b, *q)] + b + 3 * (i == 0) + (env.real(f"e{b}{i}", -0.003, 0.003) if i < 2 else 0.0) for i, q in enumerate(ks)] for b in range(nb)])
    before = snap(e)
    w = packet(env, s, x, nb, e)
    mean = np.sum(e, axis=1) / k
    for axis in range(d):
        ph = np.array([np.exp(2j * np.pi * q[axis] / s[axis]) for q in samples(s)])
        L2 = np.sum(np.array(deltas(d)[axis]) ** 2)
        for true in (None, 2.0):
            ax = drawn(env, W.plot_wavepacket_transformed_energy_effective_mass_against_energy, w, (axis,), lines=1, scale="symlog", **({} if true is None else {"true_mass": true * hbar**2}))
            env.true(scales(ax, "symlog"), "scale")
            env.eq(ax.curves[0].x, mean, "average energy of the band")
            env.true(ax.ylim[0] == 0, "axis starts at zero")
            for b in range(nb):
                hop2 = np.real(np.sum(ph * e[b])) ** 2 + np.imag(np.sum(ph * e[b])) ** 2
                m = ax.curves[0].y[b] / hbar**2 if true is None else (ax.curves[0].y[b] + 1) * true
                env.eq(m**2 * hop2, ((2 * b + 1) * k / L2) ** 2, "effective mass")
        ax = drawn(env, W.plot_wavepacket_transformed_energy_effective_mass_against_band, w, (axis,), lines=1, scale="symlog")
        env.true(scales(ax, "symlog") and ax.ylim[0] == 0, "scale")
        env.eq(np.array(ax.curves[0].x), np.arange(nb), "band")
        for b in range(nb):
            hop2 = np.real(np.sum(ph * e[b])) ** 2 + np.imag(np.sum(ph * e[b])) ** 2
            env.eq((ax.curves[0].y[b] / hbar**2) ** 2 * hop2, ((2 * b + 1) * k / L2) ** 2, "effective mass")
    f = np.exp(-e / 2.0)
    for fn, at in ((W.plot_occupation_against_band, np.arange(nb)), (W.plot_occupation_against_band_average_energy, mean)):
        ax = drawn(env, fn, w, 2.0 / Boltzmann, lines=1, measure="real", scale="symlog")
        env.true(scales(ax, "symlog"), "scale")
        env.eq(ax.curves[0].x, at, "bands")
        for b in range(nb):
            env.eq(ax.curves[0].y[b] * np.sum(f), np.sum(f[b]), "share of the band")
    unchanged(env, before, e)


@harness("C30", [{"s": [2, 1], "x": [1, 2]}, {"s": [2, 2], "x": [2, 1]}, {"s": [1, 2, 1], "x": [2, 1, 2]}], None, T)
def differences_of_packets(env, s, x):
    """difference of two wavepackets in position relative to the larger"""
    from surface_potential_analysis.wavepacket import plot as W

    d, k, n = len(s), int(np.prod(s)), int(np.prod(x))
    c = generic(env, "c", k * n, 5, m=2).reshape(1, k, n)
    other = numeric(k * n, 8).reshape(1, k, n)
    before = snap(c)
    uspec = [("K", a) for a in x]
    e = env.array([1.0 + i for i in range(k)])
    V = BM([("K", p * q) for p, q in zip(s, x)])
    u, v = (V @ sum(env.array(list(q)) for q in expand(a, s, uspec)[0]) / np.sqrt(k) for a in (c, other))
    mine, theirs = single(c[0], s, uspec, e, deltas(d)), single(other[0], s, uspec, e, deltas(d))
    if env.pick("swap", [False, True]):
        mine, theirs, u, v = theirs, mine, v, u
    sh = [p * q for p, q in zip(s, x)]
    axes = env.pick("axes", [(0, 1), (1, 0)] if d == 2 else [(0, 1), (2, 0)])
    idx = tuple(sh[a] - 1 for a in range(d) if a not in axes)
    at = expected([("P", m) for m in sh], np.arange(int(np.prod(sh))), axes, idx, "x")[1].reshape(-1)
    re = drawn(env, W.plot_wavepacket_difference_2d_x, mine, theirs, axes, idx, measure="real", scale="symlog").meshes[0]
    im = drawn(env, W.plot_wavepacket_difference_2d_x, mine, theirs, axes, idx, measure="imag").meshes[0]
    for p, q, a, b in zip(re.C.reshape(-1), im.C.reshape(-1), u[at], v[at]):
        a2, b2, z = np.real(a * np.conj(a)), np.real(b * np.conj(b)), a - b
        big2 = a2 if bool(a2 > b2) else b2
        env.eq((p * p + q * q) * big2, np.real(z * np.conj(z)), "difference relative to the larger")
        env.eq(p * np.imag(z), q * np.real(z), "phase of the difference")
        env.true(p * np.real(z) + q * np.imag(z) >= 0, "sign of the difference")
    unchanged(env, before, c)


@harness("C30", [{"parent": ("P", 3), "m": 2}, {"parent": ("K", 4), "m": 1}, {"parent": ("TP", 3, 5), "m": 3}], None, T)
def states_of_a_basis(env, parent, m):
    """functions of an explicit basis over the positions of its grid"""
    from surface_potential_analysis.basis import plot as P

    from .c01 import _explicit
    from .oracle import bm, mk

    E, u = _explicit(env, m, parent, length=True)
    before = snap(u)
    F = bm(parent) @ u.T
    x = np.linalg.norm(mk(parent).delta_x) / fsize(parent) * np.arange(fsize(parent))
    for measure in MEASURES[:3]:
        with Canvas() as cv:
            fig, ax, lines = P.plot_explicit_basis_states_x(E, ax=cv.ax, measure=measure)
            env.true(fig is cv.fig and ax is cv.ax and ax.curves == lines and len(lines) == m, "one line for every state")
        for i, line in enumerate(lines):
            env.eq(np.array(line.x, dtype=float), x, "positions")
            measured(env, line.y, F[:, i], measure)
        for i in range(m):
            ax = drawn(env, P.plot_explicit_basis_state_x, E, i, lines=1, measure=measure)
            env.eq(np.array(ax.curves[0].x, dtype=float), x, "positions")
            measured(env, ax.curves[0].y, F[:, i], measure)
    unchanged(env, before, u)


@harness("C30", [{"shape": [3, 4], "skew": 0.4}, {"shape": [4, 3, 2], "skew": -0.3}, {"shape": [5, 4, 1], "skew": 0.4}], None, T)
def points_of_the_zone(env, shape, skew):
    """the wave vectors of a basis moved to the first Brillouin zone of its grid: as many, equivalent, and nearest to the origin"""
    from surface_potential_analysis.stacked_basis import plot as P

    d = len(shape)
    if d == 2:  # three axes are needed
        shape = [*shape, 1]
    C = np.eye(3)
    C[1] = [2 * skew, 2.0, 0]
    C[0] *= env.pick("length", [1.5, 2.0])
    b = B([("K", q) for q in shape], list(C))
    K = 2 * np.pi * np.linalg.inv(C).T
    e = frame_vectors(K, (0, 1))
    ax = drawn(env, P.plot_brillouin_zone_points_projected_2d, b, (0, 1), lines=1)
    got = np.array([ax.curves[0].x, ax.curves[0].y], dtype=float)
    G = [a * shape[0] * K[0] + c * shape[1] * K[1] for a in (-2, -1, 0, 1, 2) for c in (-2, -1, 0, 1, 2)]
    near = []
    for p in itertools.product(freqs(shape[0]), freqs(shape[1])):
        k = p[0] * K[0] + p[1] * K[1]
        near.append(min(np.linalg.norm(k + g) for g in G))
    env.true(got.shape == (2, len(near)), "a point for every wave vector")
    env.eq(np.linalg.norm(got, axis=0), np.array(near), "nearest to the origin")
    back = np.linalg.solve(np.array([e @ K[0], e @ K[1]]).T, got)
    want = np.array(list(itertools.product(freqs(shape[0]), freqs(shape[1])))).T
    q = (back - want) / np.array(shape[:2])[:, None]
    env.eq(q, np.round(q), "equivalent to the wave vector")
