"""C29: figures of values over time, of spectra and occupations, and along paths."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .c28 import CELL, MEASURES, cell, generic, measured, numeric
from .figs import Canvas, plotting_modules
from .h import *  # noqa: F403
from .oracle import freqs, fsize
from .spectral import Spectral

plotting_modules()

BOUNDS = "1-5 values, 1-3 repeats, 2-4 states or bands, 1-3 axes of 2-6 points; value amplitudes within 0.003 of generic values where a modulus or an order is drawn, symbolic energies in separate ranges, symbolic 2x2 eigenvectors (fixed ones for 3x3)"
T = ("state_vector.plot_value_list.*", "state_vector.eigenvalue_list_plot.*", "state_vector.plot.*", "dynamics.plot.*", "dynamics.isf_plot.*", "probability_vector.plot.*", "potential.plot.*", "potential.plot_*", "overlap.plot.*", "stacked_basis.plot.*", "wavepacket.plot.*")


def even(n, step, offset, dt=0.5):
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis

    return EvenlySpacedTimeBasis(n, step, offset, dt * n)


def clock(n, step, offset, dt=0.5):
    return dt * (np.arange(n) + offset / step)


def drawn(env, f, *a, lines=None, **k):
    """what is drawn on the axes given"""
    with Canvas() as cv:
        r = f(*a, ax=cv.ax, **k)
        env.true(r[0] is cv.fig and r[1] is cv.ax, "draws on the axes given")
        if lines is not None:
            env.true(len(cv.ax.curves) == lines, "number of lines")
        if len(r) > 2 and not isinstance(r[2], list):
            env.true(r[2] in (cv.ax.curves or cv.ax.meshes), "returns what was drawn")
        return cv.ax


def scales(ax, scale):
    return ax.scale() == scale


LISTS = [{"n": 1, "step": 1, "offset": 0}, {"n": 4, "step": 1, "offset": 0}, {"n": 5, "step": 1, "offset": 2}, {"n": 3, "step": 2, "offset": 1}, {"n": 4, "step": 1, "offset": 3}]


@harness("C29", LISTS, [{"n": 6, "step": 1, "offset": -2}], T)
def one_list(env, n, step, offset):
    """values against their index, time, frequency and momentum"""
    from surface_potential_analysis.basis.momentum_basis_like import MomentumBasis
    from surface_potential_analysis.state_vector import plot_value_list as P

    z = generic(env, "z", n, 1)
    before = snap(z)
    tb = even(n, step, offset)
    for j, measure in enumerate(MEASURES[:3]):
        scale = ["linear", "symlog", "squared"][j]
        ax = drawn(env, P.plot_value_list_against_nx, {"basis": fb(n), "data": z}, lines=1, measure=measure, scale=scale)
        env.eq(np.array(ax.curves[0].x), np.arange(n), "index")
        measured(env, ax.curves[0].y, z, measure)
        env.true(scales(ax, scale), "scale")
        ax = drawn(env, P.plot_value_list_against_time, {"basis": tb, "data": z}, lines=1, measure=measure, scale=scale)
        env.eq(np.array(ax.curves[0].x), clock(n, step, offset), "times")
        measured(env, ax.curves[0].y, z, measure)
        env.true(scales(ax, scale), "scale")
        k = np.array([0.5, -1.0, 2.0, 3.5, 4.0, 7.0])[:n]
        err = env.rvec("err", n)
        for extra in ({}, {"standard_deviation": err}):
            ax = drawn(env, P.plot_value_list_against_momentum, {"basis": MomentumBasis(k), "data": z, **extra}, lines=1, measure=measure, scale=scale)
            env.eq(np.array(ax.curves[0].x), k, "momenta")
            measured(env, ax.curves[0].y, z, measure)
            if extra:
                env.eq(ax.curves[0].yerr, err, "errors")
            else:
                env.true(ax.curves[0].yerr is None, "no errors")
            env.true(scales(ax, scale), "scale")
        if step == 1:
            ax = drawn(env, P.plot_value_list_against_frequency, {"basis": tb, "data": z}, lines=1, measure=measure, scale=scale)
            f = np.sort(np.fft.fftfreq(n, 0.5))
            env.eq(np.array(ax.curves[0].x), f, "frequencies")
            w = np.exp(-2j * np.pi * np.outer(f, clock(n, 1, offset)))
            measured(env, ax.curves[0].y, w @ z, measure, "spectrum")
            env.true(scales(ax, scale), "scale")
    unchanged(env, before, z)


@harness("C29", [{"r": 1, "n": 3}, {"r": 2, "n": 4}, {"r": 3, "n": 2}], [{"r": 4, "n": 5}, {"r": 2, "n": 8}], T)
def many_lists(env, r, n):
    """stacks of values over time: every one, their running sums, their average with its error"""
    from surface_potential_analysis.state_vector import plot_value_list as P

    off = 2
    z = generic(env, "z", r * n, 2)
    before = snap(z)
    Z = z.reshape(r, n)
    values = {"basis": tup(fb(r), even(n, 1, off)), "data": z}
    t = clock(n, 1, off)
    f = np.sort(np.fft.fftfreq(n, 0.5))
    w = np.exp(-2j * np.pi * np.outer(f, t))
    for j, measure in enumerate(MEASURES[:3]):
        scale = ["linear", "symlog", "squared"][j]
        ax = drawn(env, P.plot_all_value_list_against_time, values, lines=r, measure=measure, scale=scale)
        for i in range(r):
            env.eq(np.array(ax.curves[i].x), t, "times")
            measured(env, ax.curves[i].y, Z[i], measure)
        env.true(scales(ax, scale), "scale")
        ax = drawn(env, P.plot_split_value_list_against_time, values, lines=r, measure=measure, scale=scale)
        for i in range(r):
            env.eq(np.array(ax.curves[i].x), t, "times")
            measured(env, ax.curves[i].y, sum(Z[: i + 1]), measure, "running sum")
        env.true(scales(ax, scale), "scale")
        ax = drawn(env, P.plot_split_value_list_against_frequency, values, lines=r, measure=measure, scale=scale)
        for i in range(r):
            env.eq(np.array(ax.curves[i].x), f, "frequencies")
            measured(env, ax.curves[i].y, w @ sum(Z[: i + 1]), measure, "running sum of spectra")
        env.true(scales(ax, scale), "scale")
        if measure == "abs":
            continue
        m = np.real(Z) if measure == "real" else np.imag(Z)
        mean = sum(m) / r
        ax = drawn(env, P.plot_average_value_list_against_time, values, lines=1, measure=measure, scale=scale)
        env.eq(np.array(ax.curves[0].x), t, "times")
        env.eq(ax.curves[0].y, mean, "average")
        env.true(len(ax.fills) == 1, "one band of errors")
        lo, hi = ax.fills[0].lo, ax.fills[0].hi
        env.eq(np.array(ax.fills[0].x), t, "times")
        env.eq(hi + lo, 2 * mean, "errors about the average")
        env.eq((hi - lo) ** 2 * r, 4 * (sum(q**2 for q in m) / r - mean**2), "standard error of the mean")
        env.ge((hi - lo)[0], 0.0, "upper above lower")
        env.true(scales(ax, scale), "scale")
    unchanged(env, before, z)


@harness("C29", [{"n": 1}, {"n": 4}], None, T)
def correlations(env, n):
    """scattering functions against time, averaged over repeats, and the fits of them"""
    from surface_potential_analysis.dynamics import isf, isf_plot as I
    from surface_potential_analysis.state_vector.eigenvalue_list_plot import plot_eigenvalue_against_time

    tb = even(n, 1, 1)
    t = clock(n, 1, 1)
    r = 2
    z = generic(env, "z", r * n, 4)
    before = snap(z)
    Z = z.reshape(r, n)
    err = env.rvec("err", n)
    for j, measure in enumerate(MEASURES[:3]):
        scale = ["linear", "symlog", "log"][j]
        one = {"basis": tup(tb, fb(1)), "data": Z[0]}
        for f in (plot_eigenvalue_against_time, I.plot_isf_against_time):
            for extra in ({}, {"standard_deviation": err}):
                ax = drawn(env, f, {**one, **extra}, lines=1, measure=measure, scale=scale)
                env.eq(np.array(ax.curves[0].x), t, "times")
                measured(env, ax.curves[0].y, Z[0], measure)
                if extra:
                    env.eq(ax.curves[0].yerr, err, "errors")
                env.true(scales(ax, scale), "scale")
        rb = tup(fb(r), tb)
        ax = drawn(env, I.plot_average_isf_against_time, {"basis": tup(rb, rb), "data": z}, lines=1, measure=measure, scale=scale)
        env.eq(np.array(ax.curves[0].x), t, "times")
        measured(env, ax.curves[0].y, (Z[0] + Z[1]) / r, measure)
    unchanged(env, before, z)
    four = isf.ISF4VariableFit(0.5, 0.25, 1.5, 0.75, 0.125)
    for plot, f, fit in ((I.plot_isf_4_variable_fit_against_time, isf.get_isf_from_4_variable_fit, four),
                         (I.plot_isf_fey_4_variable_fit_against_time, isf.get_isf_from_fey_4_variable_model_110, isf.ISFFey4VariableFit(1.25, 0.5, 0.25, 0.5, 0.75, 0.125)),
                         (I.plot_isf_fey_model_fit_112bar_against_time, isf.get_isf_from_fey_model_fit_112bar, isf.ISFFeyModelFit(0.5, 0.25)),
                         (I.plot_isf_fey_model_fit_110_against_time, isf.get_isf_from_fey_model_fit_110, isf.ISFFeyModelFit(0.5, 0.25))):
        ax = drawn(env, plot, fit, t, lines=1, measure="real")
        env.eq(np.array(ax.curves[0].x), t, "times")
        env.eq(ax.curves[0].y, np.real(f(fit, t)["data"]), "the fit")


@harness("C29", [{"n": 2}, {"n": 4}], None, T)
def spectrum(env, n):
    """eigenvalues by size, thermal occupations by energy"""
    from scipy.constants import Boltzmann

    from surface_potential_analysis.state_vector import eigenvalue_list_plot as P

    order = env.pick("order", list(itertools.permutations(range(n)))[:: 5 if n > 2 else 1])
    up = [env.real(f"e{i}", 0.1, 0.9) + i - 1 for i in range(n)]
    e = env.array([up[i] for i in order])
    states = {"basis": tup(fb(n), fb(3)), "data": np.zeros(3 * n, dtype=complex), "eigenvalue": e}
    before = snap(e)
    ax = drawn(env, P.plot_eigenstate_occupations, states, 2.0 / Boltzmann, lines=1, scale="log")
    unchanged(env, before, e)
    E, y = ax.curves[0].x, ax.curves[0].y
    z = [np.exp(-(u - up[0]) / 2.0) for u in up]
    env.eq(E, env.array([u - up[0] for u in up]), "energies above the lowest")
    env.eq(y, env.array([q / sum(z) for q in z]), "thermal occupation")
    env.true(scales(ax, "log"), "scale")
    # sizes: every other one negative
    sized = [(-1) ** i * (env.real(f"s{i}", 0.1, 0.9) + i) for i in range(n)]
    lam = env.array([sized[i] for i in order])
    before = snap(lam)
    for measure in MEASURES[:3]:
        ax = drawn(env, P.plot_eigenvalues, {**states, "eigenvalue": lam}, lines=1, scale="symlog", measure=measure)
        measured(env, ax.curves[0].y, env.array([s + 0j for s in sized]), measure)
        env.eq(np.array(ax.curves[0].x), np.arange(n), "index")
        env.true(scales(ax, "symlog"), "scale")
    unchanged(env, before, lam)


@harness("C29", [{"spec": [("K", 2)], "m": 2}, {"spec": [("P", 2)], "m": 1}, {"spec": [("K", 3)], "m": 2}, {"spec": [("P", 2), ("K", 2)], "m": 3}], None, T)
def occupations(env, spec, m):
    """occupation |<state|eigenstate>|^2 of every eigenstate against its energy above the lowest"""
    from surface_potential_analysis.state_vector import plot as P

    n, d = N(spec), len(spec)
    sp = Spectral(env)
    E = sp.energies("e", n)
    X = sp.unitary("u", n)
    A = sp.build(E, X)
    b = B(spec, cell(d))
    h = {"basis": tup(b, b), "data": A.reshape(-1)}
    other = [("K" if q[0] == "P" else "P", q[1]) for q in spec]
    c = env.cvec("c", m, n)
    before = snap(c, A)
    own = env.pick("basis", [True, False])
    V = (np.eye(n) if own else conv(other, spec))
    occ = [[abs(np.sum(np.conj(V @ c[i]) * X[:, j])) ** 2 for j in range(n)] for i in range(m)]
    e0 = E - E[0]
    states = {"basis": tup(fb(m), b if own else B(other, cell(d))), "data": c.reshape(-1)}
    ax = drawn(env, P.plot_all_eigenstate_occupations, h, states, lines=m, scale="log")
    for i in range(m):
        env.eq(ax.curves[i].x, e0, "energies above the lowest")
        env.eq(ax.curves[i].y, env.array(occ[i]), "occupations")
    with Canvas() as cv:
        fig, ax, ani = P.animate_all_eigenstate_occupations(h, states, ax=cv.ax, scale="log")
    env.true(fig is cv.fig and ax is cv.ax and len(ani.frames) == m and all(len(f) == 1 for f in ani.frames), "one frame for every state")
    for i, (line,) in enumerate(ani.frames):
        env.eq(line.x, e0, "energies above the lowest")
        env.eq(line.y, env.array(occ[i]), "occupations")
    ax = drawn(env, P.plot_eigenstate_occupation, h, {"basis": states["basis"][1], "data": c[0]}, lines=1, scale="log")
    env.eq(ax.curves[0].x, e0, "energies above the lowest")
    env.eq(ax.curves[0].y, env.array(occ[0]), "occupations")
    env.true(scales(ax, "log"), "scale")
    ax = drawn(env, P.plot_average_eigenstate_occupation, h, states, lines=1, scale="log")
    env.eq(ax.curves[0].x, e0, "energies above the lowest")
    env.eq(m * ax.curves[0].y, sum(env.array(o) for o in occ), "average occupation")
    unchanged(env, before, c, A)


@harness("C29", [{"s": [2], "x": [2]}, {"s": [3], "x": [2]}, {"s": [2, 2], "x": [2, 1]}], None, T)
def band_occupation(env, s, x):
    """occupation of every band against its average energy, and the mean energy"""
    from surface_potential_analysis.state_vector.plot import plot_total_band_occupation_against_energy
    from surface_potential_analysis.wavepacket.get_eigenstate import get_full_bloch_hamiltonian

    from .c16 import bands, deltas, expand

    nb = 2
    k, n = int(np.prod(s)), int(np.prod(x))
    c = np.zeros((nb, k, n), dtype=complex)
    for b in range(nb):
        c[b, :, b] = 1
    spec = [("K", a) for a in x]
    e = env.array([[env.real(f"e{b}{i}", 0.1, 0.9) + 1.6 * b - 1.3 for i in range(k)] for b in range(nb)])  # both signs
    h = get_full_bloch_hamiltonian(bands(c, s, spec, e, deltas(len(s))))
    r = np.random.RandomState(5).normal(size=k * n)
    r[0] = 0.0
    v = env.array([env.cplx("v") + 1.5 if i == 0 else complex(r[i], r[-i]) for i in range(k * n)])
    supers = [("K", p * q) for p, q in zip(s, x)]
    state = {"basis": B(supers, [p * q for p, q in zip(s, deltas(len(s)))]), "data": v}
    before = snap(v)
    ax = drawn(env, plot_total_band_occupation_against_energy, h, state, lines=1)
    psi = expand(c, s, spec)
    occ = [sum(abs(np.sum(np.conj(p) * v)) ** 2 for p in psi[b]) for b in range(nb)]
    mean = [sum(e[b]) / k for b in range(nb)]
    env.eq(ax.curves[0].x, env.array(mean), "average band energy")
    env.eq(ax.curves[0].y, env.array(occ), "occupation of the band")
    env.true(len(ax.vlines) == 1, "mean energy")
    env.eq(ax.vlines[0].x * sum(occ), sum(o * q for o, q in zip(occ, mean)), "mean energy")
    unchanged(env, before, v)


@harness("C29", [{"n": 2, "shape": [2, 3, 2], "r": 1}, {"n": 3, "shape": [1, 2, 3], "r": 2}, {"n": 2, "shape": [3, 1, 2], "r": 2}], None, T)
def probabilities(env, n, shape, r):
    """probabilities over time: of every state, in total, of every band and of every site"""
    from surface_potential_analysis.dynamics import plot as D
    from surface_potential_analysis.probability_vector import plot as P

    tb = even(n, 1, 1)
    t = clock(n, 1, 1)
    m = int(np.prod(shape))
    p = env.rvec("p", r * n * m)
    before = snap(p)
    sites = tup(*[fb(q) for q in shape])
    G = p.reshape(r, n, *shape)
    one = {"basis": tup(tb, sites), "data": G[0].reshape(-1)}
    L = drawn(env, P.plot_probability_against_time, one, lines=m, scale="log")
    env.true(scales(L, "log"), "scale")
    L = L.curves
    for i in range(m):
        env.eq(np.array(L[i].x), t, "times")
        env.eq(L[i].y, G[0].reshape(n, m)[:, i], "probability")
    L = drawn(env, P.plot_total_probability_against_time, one, lines=1).curves
    env.eq(L[0].y, env.array([sum(q) for q in G[0].reshape(n, m)]), "total probability")
    a = shape[0] * shape[1]
    F = G.reshape(r, n, a, shape[2])
    L = drawn(env, D.plot_probability_per_band, one, lines=shape[2]).curves
    for i in range(shape[2]):
        env.eq(np.array(L[i].x), t, "times")
        env.eq(L[i].y, env.array([sum(F[0, q, :, i]) for q in range(n)]), "probability of the band")
        env.true(L[i].get_label() == f"band {i}", "label")
    L = drawn(env, D.plot_probability_per_site, one, lines=a).curves
    for i in range(a):
        env.eq(np.array(L[i].x), t, "times")
        env.eq(L[i].y, env.array([sum(F[0, q, i, :]) for q in range(n)]), "probability of the site")
        env.true(L[i].get_label() == f"site {i}", "label")
    both = {"basis": tup(tup(fb(r), tb), sites), "data": p}
    L = drawn(env, D.plot_average_probability_per_band, both, lines=shape[2])
    env.true(f" {r} repeats" in L.props["title"], "number of repeats in the title")
    L = L.curves
    for i in range(shape[2]):
        env.eq(np.array(L[i].x), t, "times")
        env.eq(r * L[i].y, env.array([sum(sum(F[q, w, :, i]) for q in range(r)) for w in range(n)]), "average probability of the band")
    unchanged(env, before, p)


PATHS = {1: [[0, 1, 3]], 2: [[0, 1, 1, 2], [2, 0, 1, 1]], 3: [[0, 1, 2], [1, 0, 0], [0, 1, 1]]}


def travelled(path, V, sh, wrap):
    out, at = [0.0], 0.0
    for i in range(len(path[0]) - 1):
        st = [path[a][i + 1] - path[a][i] for a in range(len(sh))]
        if wrap:
            st = [(q + n // 2) % n - n // 2 for q, n in zip(st, sh)]
        at += np.linalg.norm(sum(q * v for q, v in zip(st, V)))
        out.append(at)
    return np.array(out)


@harness("C29", [{"spec": [("P", 4)]}, {"spec": [("TP", 3, 4), ("P", 3)]}, {"spec": [("K", 3), ("P", 2), ("K", 3)]}, {"spec": [("K", 5), ("P", 3)]}], None, T)
def along_paths(env, spec):
    """potentials, states and overlaps at the points of a path against the distance travelled"""
    from surface_potential_analysis.overlap import plot as O
    from surface_potential_analysis.potential import plot as P
    from surface_potential_analysis.state_vector.plot import plot_state_along_path

    n, d = N(spec), len(spec)
    z = generic(env, "z", n, 3)
    before = snap(z)
    b = B(spec, cell(d))
    sh = [fsize(q) for q in spec]
    path = np.array(PATHS[d])
    path = np.array([p % m for p, m in zip(path, sh)])
    x = (conv(spec, [("P", m) for m in sh]) @ z)
    k = (conv(spec, [("K", m) for m in sh]) @ z)
    at = np.ravel_multi_index(path, sh)
    dx = np.array(CELL[d]) / np.array(sh)[:, None]
    dk = 2 * np.pi * np.linalg.inv(np.array(CELL[d])).T
    for j, measure in enumerate(MEASURES[:3]):
        scale = ["linear", "symlog", "log"][j]
        for wrap in (False, True):
            if wrap and any(2 * abs(q) == m for p, m in zip(np.diff(path), sh) for q in p):
                continue  # half a period in either direction
            ax = drawn(env, plot_state_along_path, {"basis": b, "data": z}, path, lines=1, measure=measure, scale=scale, wrap_distances=wrap)
            env.eq(np.array(ax.curves[0].x), travelled(path, dx, sh, wrap), "distance travelled")
            measured(env, ax.curves[0].y, x[at], measure)
            env.true(scales(ax, scale), "scale")
            far = path + np.array(sh)[:, None] * np.arange(d)[:, None]
            ax = drawn(env, P.plot_potential_along_path, {"basis": b, "data": z}, far, lines=1, measure=measure, scale=scale, wrap_distances=wrap)
            env.eq(np.array(ax.curves[0].x), travelled(path, dx, sh, wrap), "distance travelled")
            measured(env, ax.curves[0].y, x[at], measure)
            env.true(scales(ax, scale), "scale")
            o = {"basis": tup(b, tup(fb(1), fb(1))), "data": z}
            ax = drawn(env, O.plot_overlap_along_path_k, o, path, lines=1, measure=measure, scale=scale, wrap_distances=wrap)
            env.eq(np.array(ax.curves[0].x), travelled(path, dk, sh, wrap), "distance travelled")
            measured(env, ax.curves[0].y, k[at], measure)
            env.true(scales(ax, scale), "scale")
        if d == 3:
            for f, args, p in ((O.plot_overlap_along_k_diagonal, (1,), [[i, i, 1] for i in range(min(sh[:2]))]), (O.plot_overlap_along_k0, (1, 2), [[i, 1, 2] for i in range(sh[0])])):
                if f is O.plot_overlap_along_k_diagonal and sh[1] < sh[0]:
                    continue
                ax = drawn(env, f, o, *args, lines=1, measure=measure, scale=scale)
                p = np.array(p).T
                env.eq(np.array(ax.curves[0].x), travelled(p, dk, sh, False), "distance travelled")
                measured(env, ax.curves[0].y, k[np.ravel_multi_index(p, sh)], measure)
    unchanged(env, before, z)


@harness("C29", [{"spec": [("P", 3), ("K", 2)]}, {"spec": [("K", 2), ("P", 3), ("P", 4)]}, {"spec": [("P", 2), ("P", 3), ("TP", 3, 4)]}], None, T)
def lowest_paths(env, spec):
    """the path of lowest potential along an axis"""
    from surface_potential_analysis.potential import plot as P

    n, d = N(spec), len(spec)
    sh = [fsize(q) for q in spec]
    pts = [("P", m) for m in sh]
    z = generic(env, "z", n, 7)
    num = (conv(spec, pts) @ generic(_Flat, "", n, 7)).real.reshape(sh)
    x = np.real(conv(spec, pts) @ z)
    before = snap(z)
    b = B(spec, cell(d))
    axis = env.pick("axis", [*range(d), -1])
    rest = [i for i in range(d) if i != axis % d]
    path = np.array([[0, 1, sh[i] + 1] for i in rest])
    low = np.argmin(num, axis=axis)
    gap = np.sort(num, axis=axis)
    gap = np.take(gap, 1, axis=axis) - np.take(gap, 0, axis=axis)
    if gap.min() < 0.05:
        env.true(True, "no clear minimum")
        return
    idx = np.ravel_multi_index(path, low.shape, mode="wrap")
    full = np.insert(path, axis % d, low.reshape(-1)[idx], axis=0)
    r = P.get_minimum_path({"basis": b, "data": z}, path, axis)
    env.eq(np.array(r), full, "path of lowest potential")
    ax = drawn(env, P.plot_potential_minimum_along_path, {"basis": b, "data": z}, path, axis, lines=1, scale="log")
    env.true(scales(ax, "log"), "scale")
    at = np.ravel_multi_index(full, sh, mode="wrap")
    env.eq(ax.curves[0].y, x[at], "potential along the path")
    dx = np.array(CELL[d]) / np.array(sh)[:, None]
    env.eq(np.array(ax.curves[0].x), travelled(full, dx, sh, False), "distance travelled")
    unchanged(env, before, z)


class _Flat:
    array = staticmethod(lambda q: np.array(q))
    cplx = staticmethod(lambda *_: 0.0)


@harness("C29", [{"shape": [6, 6, 3]}, {"shape": [5, 7, 2]}], None, T)
def sites(env, shape):
    """potentials above the named sites of a surface, and above any others"""
    from surface_potential_analysis.potential import plot as P

    spec = [("P", m) for m in shape]
    n = N(spec)
    z = generic(env, "z", n, 3)
    before = snap(z)
    pot = {"basis": B(spec, cell(3)), "data": z}
    G = np.real(z).reshape(shape)
    a, b, c = shape
    off = env.pick("offset", [(0, 0), (1, 0)])
    named = {
        P.plot_potential_1d_x2_comparison_111: {"Top Site": (2 * a // 3, 2 * b // 3), "Bridge Site": (a // 6, b // 6), "FCC Site": (0, 0), "HCP Site": (a // 3, b // 3)},
        P.plot_potential_1d_x2_comparison_100: {"Hollow Site": (0, 0), "Bridge Site": (a // 2, 0), "Top Site": (a // 2, b // 2)},
    }
    for f, at in named.items():
        ax = drawn(env, f, pot, off, lines=len(at), scale="symlog")
        got = {q.get_label(): q for q in ax.curves}
        env.true(set(got) == set(at), "one line for every site")
        env.true(scales(ax, "symlog"), "scale")
        for name, i in at.items():
            i = (i[0] + off[0], i[1] + off[1])
            v = G[i[0], i[1]]
            env.eq(got[name].y, np.append(v, v[:1]), "potential above the site")
            x = np.arange(c + 1) * np.linalg.norm(CELL[3][2]) / c
            env.eq(np.array(got[name].x) - got[name].x[0], x, "distance along the axis")
    ax = drawn(env, P.plot_potential_1d_comparison, pot, {"a": ((1, 1), 0), "b": ((2, 0), 1)}, lines=2)
    for q, v in zip(ax.curves, (G[:, 1, 1], G[2, :, 0])):
        env.eq(q.y, np.append(v, v[:1]), "potential along the axis")
    env.true([q.get_label() for q in ax.curves] == ["a", "b"], "labels")
    unchanged(env, before, z)


@harness("C29", [{"shape": [6, 6, 3]}, {"shape": [5, 7, 2]}], None, T)
def heights(env, shape):
    """potentials sampled at uneven heights or scattered points against the height"""
    from surface_potential_analysis.potential import plot_point_potential as Q, plot_uneven_potential as P
    from surface_potential_analysis.basis.basis import FundamentalBasis

    n = int(np.prod(shape))
    v = env.rvec("v", n)
    before = snap(v)
    zs = np.array([0.5, 0.75, 2.0])[: shape[2]]
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.potential.potential import UnevenPotential3d  # noqa: F401

    C = cell(3)
    from surface_potential_analysis.basis.basis import FundamentalPositionBasis

    class Heights(FundamentalBasis):
        z_points = zs

    pot = {"basis": TupleBasis(FundamentalPositionBasis(C[0][:2], shape[0]), FundamentalPositionBasis(C[1][:2], shape[1]), Heights(shape[2])), "data": v}
    G = v.reshape(shape)
    a, b, _ = shape
    off = env.pick("offset", [(0, 0), (1, 0)])
    ax = drawn(env, P.plot_uneven_potential_z, pot, (1, 2), lines=1, scale="symlog")
    env.true(scales(ax, "symlog"), "scale")
    env.eq(np.array(ax.curves[0].x), zs, "heights")
    env.eq(ax.curves[0].y, G[1, 2], "potential above the point")
    for f, at in ((P.plot_uneven_potential_z_comparison_111, {"Top Site": (2 * a // 3, 2 * b // 3), "Bridge Site": (a // 6, b // 6), "FCC Site": (0, 0), "HCP Site": (a // 3, b // 3)}),
                  (P.plot_uneven_potential_z_comparison_100, {"Hollow Site": (0, 0), "Bridge Site": (a // 2, 0), "Top Site": (a // 2, b // 2)})):
        ax = drawn(env, f, pot, off, lines=len(at), scale="symlog")
        got = {q.get_label(): q for q in ax.curves}
        env.true(set(got) == set(at), "one line for every site")
        for name, i in at.items():
            env.eq(np.array(got[name].x), zs, "heights")
            env.eq(got[name].y, G[i[0] + off[0], i[1] + off[1]], "potential above the site")
    # scattered points
    xs, ys, zp = np.array([0.0, 1.0, 0.0, 1.0, 0.0]), np.array([2.0, 3.0, 2.0, 2.0, 5.0]), np.array([0.1, 0.2, 0.3, 0.4, 0.5])
    p = env.rvec("p", 5)
    pts = {"x_points": xs, "y_points": ys, "z_points": zp, "points": p}
    ax = drawn(env, Q.plot_point_potential_location_xy, pts, lines=1)
    env.eq(np.array(ax.curves[0].x), np.array([0.0, 0.0, 1.0, 1.0]), "places")
    env.eq(np.array(ax.curves[0].y), np.array([2.0, 5.0, 2.0, 3.0]), "places")
    ax = drawn(env, Q.plot_point_potential_all_z, pts, lines=4)
    for q, i in zip(ax.curves, ([0, 2], [4], [3], [1])):
        env.eq(np.reshape(np.array(q.x), -1), zp[i], "heights")
        env.eq(np.reshape(q.y, -1) if not env.sym else q.y.reshape(-1), p[i], "potential")
    unchanged(env, before, v)


@harness("C29", [{"d": 1, "kind": "k"}, {"d": 2, "kind": "k"}, {"d": 2, "kind": "x"}, {"d": 3, "kind": "x"}], None, T)
def differences(env, d, kind):
    """differences of potentials (plain, or relative to the first) and of states (relative to the larger), whatever bases they are in"""
    from surface_potential_analysis.potential import plot as P
    from surface_potential_analysis.state_vector import plot as S

    sh = [4, 3, 2][:d] if d < 3 else [3, 2, 2]
    own = [("P" if kind == "x" else "K", m) for m in sh]
    other = [("K" if i % 2 == (kind == "k") else "P", m) for i, m in enumerate(sh)]
    n = N(own)
    swap = env.pick("swap", [False, True])
    z, fixed = generic(env, "a", n, 4), numeric(n, 14)
    before = snap(z, fixed)
    symbolic, known = {"basis": B(own, cell(d)), "data": z}, {"basis": B(other, cell(d)), "data": fixed}
    first, second = (known, symbolic) if swap else (symbolic, known)
    f = conv(other, own) @ fixed
    u, v = (f, z) if swap else (z, f)
    order = [np.ravel_multi_index(p, sh) for p in itertools.product(*[sorted(range(m), key=lambda i, m=m: freqs(m)[i]) if kind == "k" else range(m) for m in sh])]
    u, v = u[order], v[order]

    def relative(re, im):
        for p, q, s, t in zip(re, im, u, v):
            big = abs(s) if bool(abs(s) > abs(t)) else abs(t)
            env.eq((p + 1j * q) * big, s - t, "difference relative to the larger")

    if d == 1:
        re = drawn(env, S.plot_state_difference_1d_k, first, second, lines=1, measure="real", scale="symlog").curves[0]
        im = drawn(env, S.plot_state_difference_1d_k, first, second, lines=1, measure="imag").curves[0]
        relative(re.y[:-1], im.y[:-1])
    elif d == 2:
        f = S.plot_state_difference_2d_k if kind == "k" else S.plot_state_difference_2d_x
        re = drawn(env, f, first, second, measure="real", scale="symlog").meshes[0]
        im = drawn(env, f, first, second, measure="imag").meshes[0]
        relative(re.C.reshape(-1), im.C.reshape(-1))
        if kind == "x":
            ax = drawn(env, P.plot_potential_difference_2d_x, first, second)
            env.eq(ax.meshes[0].C.reshape(-1), np.real(u - v), "difference of the potentials")
    elif swap:
        third = {"basis": B(own, cell(d)), "data": numeric(n, 9)}
        w = numeric(n, 21)
        with Canvas() as cv:
            ani = P.animate_potential_difference_3d_x(third, {"basis": B(other, cell(d)), "data": w}, ax=cv.ax)[2]
        q = np.abs(1 - (conv(other, own) @ w) / third["data"]).reshape(sh)
        for p, (mesh,) in enumerate(ani.frames):
            env.eq(np.array(mesh.C, dtype=float).reshape(sh[:2]), q[:, :, p], "relative difference of numbers")
        second = {"basis": B(other, cell(d)), "data": z}
        u, v = numeric(n, 9), conv(other, own) @ z
        with Canvas() as cv:
            fig, ax, ani = P.animate_potential_difference_3d_x(third, second, ax=cv.ax)
        env.true(fig is cv.fig and ax is cv.ax and len(ani.frames) == sh[2], "one frame for every plane")
        U, V = u.reshape(sh), v.reshape(sh)
        for p, (mesh,) in enumerate(ani.frames):
            for y, s, t in zip(mesh.C.reshape(-1), U[:, :, p].reshape(-1), V[:, :, p].reshape(-1)):
                q = t - s
                env.eq(y * y * abs(s) ** 2, np.real(q * np.conj(q)), "relative difference")
    unchanged(env, before, z, fixed)
