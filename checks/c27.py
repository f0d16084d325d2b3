"""C27: observables of lists of states: positions, momenta, spreads, displacements, scattering functions, band energies and masses."""
from __future__ import annotations

import numpy as np

from symx.harness import harness

from .figs import Canvas, plotting_modules
from .h import *  # noqa: F403

plotting_modules()

BOUNDS = "lists of 1-3 states over 1-2 repeats and 2-4 times, bases of 3-4 points (position, momentum, truncated, 2x3 stack); all complex amplitudes, all wave vectors; every time lag"
T = ("state_vector.plot.*", "wavepacket.plot.get_*", "state_vector.plot_value_list.*")


def times(n, dt=0.5):
    from surface_potential_analysis.basis.time_basis_like import FundamentalTimeBasis

    return FundamentalTimeBasis(n, dt * n)


def trajectory(env, spec, runs, steps, ds, kind="c"):
    """runs x steps states in the basis of the spec"""
    n = N(spec)
    c = env.cvec("c", runs * steps, n)
    return c, {"basis": tup(tup(fb(runs), times(steps)), B(spec, ds)), "data": c.reshape(-1)}


SP = [{"spec": [("P", 3)], "ds": [1.5]}, {"spec": [("K", 3)], "ds": [1.5]}, {"spec": [("TP", 2, 4)], "ds": [2.0]}, {"spec": [("K", 3), ("P", 2)], "ds": [1.5, 2.0]}, {"spec": [("K", 3), ("P", 2)], "ds": [[1.5, 0.4], [-0.6, 2.0]]}]


def axis_steps(spec, axis):
    """flat list of the index along the axis of every point of the stack of fundamental points"""
    sh = [fs(s) for s in spec]
    return np.indices(sh).reshape(len(sh), -1)[axis], sh[axis]


def fs(s):
    return FN([s])


def size(ds, axis):
    return float(np.linalg.norm(deltas(ds)[axis]))


def wave(ds, axis):
    """length of the reciprocal lattice vector"""
    return float(np.linalg.norm(2 * np.pi * np.linalg.inv(np.array(deltas(ds)))[:, axis]))


def deltas(ds):
    if isinstance(ds[0], list):
        return [np.array(d) for d in ds]
    return [np.eye(len(ds))[i] * d for i, d in enumerate(ds)] if len(ds) > 1 else [np.array(ds)]


@harness("C27", SP, [], T)
def periodic_operator(env, spec, ds):
    """the periodic position operator multiplies by exp(2 pi i sum_a m_a x_a / L_a)"""
    from surface_potential_analysis.state_vector.plot import get_periodic_x_operator

    d = env.pick("direction", [None, *[tuple(int(i == j) for i in range(len(spec))) for j in range(len(spec))], tuple(2 - i for i in range(len(spec))), tuple(-1 for _ in spec)])
    b = B(spec, deltas(ds))
    o = get_periodic_x_operator(b) if d is None else get_periodic_x_operator(b, d)
    env.true(o["basis"][0] is b and o["basis"][1] is b, "basis")
    d = d or (1,) * len(spec)
    ph = 0
    for a, m in enumerate(d):
        j, n = axis_steps(spec, a)
        ph = ph + m * j / n
    U = BM(spec)
    v = env.cvec("v", N(spec))
    w = np.conj(U.T) @ (np.exp(2j * np.pi * ph) * (U @ v))
    env.eq(M(o) @ v, w, "acts on every state")


def moment(c, spec, w):
    """<w> of every row of c, w a function of the fundamental points"""
    x = [BM(spec) @ r for r in c]
    return [np.sum(np.conj(p) * w * p) for p in x]


def drawn(env, f, *a, **k):
    with Canvas() as cv:
        r = f(*a, ax=cv.ax, **k)
        env.true(r[1] is cv.ax and r[0] is cv.fig, "draws on the axes given")
        return [(line.x, line.y) for line in cv.ax.curves]


@harness("C27", SP, [], T)
def averages(env, spec, ds):
    """mean position and mean momentum of every state against time"""
    from surface_potential_analysis.state_vector import plot as P

    runs, steps = 2, 2
    axis = env.pick("axis", list(range(len(spec))))
    c, s = trajectory(env, spec, runs, steps, deltas(ds))
    before = snap(c)
    j, n = axis_steps(spec, axis)
    k = np.fft.fftfreq(n, 1 / n)[j]
    K = [("K", fs(q)) for q in spec]
    for f, want in ((P.plot_averaged_occupation_1d_x, moment(c, spec, j * size(ds, axis) / n)),
                    (P.plot_averaged_occupation_1d_k, [np.sum(np.conj(p) * wave(ds, axis) * k * p) for p in (conv(spec, K) @ r for r in c)])):
        L = drawn(env, f, s, (axis,))
        env.true(len(L) == runs, "one line for every repeat")
        for r, (x, y) in enumerate(L):
            env.eq(np.array(x), 0.5 * np.arange(steps), "times")
            env.eq(y, np.real(env.array(want[r * steps:(r + 1) * steps])), "mean of every state")
    unchanged(env, before, c)


def few(env, spec, m):
    """m unnormalised states with a symbolic phase between two components"""
    n = N(spec)
    rows = []
    for i in range(m):
        t = env.real(f"t{i}", -3.2, 3.2)
        row = [0.0] * n
        row[i % n] = 1.5
        row[(i + 1) % n] = 2.0 * np.exp(1j * t)
        rows.append(row)
    return env.array(rows)


@harness("C27", [q for q in SP if len(q["spec"]) == 1 or True], [], T)
def periodic(env, spec, ds):
    """periodic mean position: the angle of <exp(2 pi i x / L)>; spread: -4/q^2 log|<exp(iqx)>|; continuous in time once restored"""
    from surface_potential_analysis.state_vector import plot as P

    axis = env.pick("axis", list(range(len(spec))))
    runs, steps = env.pick("shape", [(1, 3), (2, 2)])
    c = few(env, spec, runs * steps)
    s = {"basis": tup(tup(fb(runs), times(steps)), B(spec, deltas(ds))), "data": c.reshape(-1)}
    before = snap(c)
    j, n = axis_steps(spec, axis)
    z = moment(c, spec, np.exp(2j * np.pi * j / n))
    n2 = [np.sum(np.abs(r) ** 2) for r in c]
    L = size(ds, axis)
    q = 2 * np.pi / L
    lines = drawn(env, P.plot_spread_1d, s, (axis,))
    unchanged(env, before, c)
    env.true(len(lines) == runs, "one line for every repeat")
    for r, (x, y) in enumerate(lines):
        env.eq(np.array(x), 0.5 * np.arange(steps), "times")
        for t in range(steps):
            i = r * steps + t
            env.eq(np.exp(-(y[t] ** 2) * q**2 / 4) * n2[i], abs(z[i]), "spread")
    lines = drawn(env, P.plot_periodic_averaged_occupation_1d_x, s, (axis,))
    unchanged(env, before, c)
    for r, (x, y) in enumerate(lines):
        env.eq(np.array(x), 0.5 * np.arange(steps), "times")
        for t in range(steps):
            i = r * steps + t
            env.eq(np.exp(1j * q * y[t]) * abs(z[i]), z[i], "restored position modulo the cell")
            if t:
                env.true(y[t] - y[t - 1] <= L / 2 + 1e-9, "no jump up")
                env.true(y[t] - y[t - 1] >= -L / 2 - 1e-9, "no jump down")
    if runs > 1:
        alone = {"basis": tup(tup(fb(1), times(steps)), s["basis"][1]), "data": c[steps:].reshape(-1)[: steps * c.shape[1]]}
        (_x, y), (_x, w) = drawn(env, P.plot_periodic_averaged_occupation_1d_x, alone, (axis,))[0], lines[1]
        for t in range(steps):
            env.eq(y[t], w[t], "a repeat drawn alone is the same as together with others")
    lines = drawn(env, P.plot_spread_against_x, s, (axis,))
    env.true(len(lines) == 1, "one line")
    for i in range(runs * steps):
        x, y = lines[0][0][i], lines[0][1][i]
        env.eq(np.exp(1j * q * x) * abs(z[i]), z[i], "mean position modulo the cell")
        env.true(x >= -1e-12, "in the first cell")
        env.true(x <= L, "in the first cell")
        env.eq(np.exp(-(y ** 2) * q**2 / 4) * n2[i], abs(z[i]), "spread")


def lines_of(f, *a, **k):
    with Canvas() as cv:
        f(*a, ax=cv.ax, **k)
        return [(line.x, line.y) for line in cv.ax.curves]


def coherent_rows(env, spec, m):
    """normalised states with a symbolic phase"""
    c = few(env, spec, m)
    return c / 2.5


@harness("C27", SP, [], T)
def coherent(env, spec, ds):
    """coordinates of a coherent state: mean position, mean momentum, spread of every state"""
    from surface_potential_analysis.state_vector import plot as P

    axis = env.pick("axis", list(range(len(spec))))
    m = 2
    c = coherent_rows(env, spec, m)
    before = snap(c)
    lb = fb(m)
    s = {"basis": tup(lb, B(spec, deltas(ds))), "data": c.reshape(-1)}
    r = P.get_coherent_coordinates(s, axis)
    unchanged(env, before, c)
    env.true(r["basis"][0].n == 3 and r["basis"][1] is lb, "three values for every state")
    R = r["data"].reshape(3, m)
    j, n = axis_steps(spec, axis)
    z = moment(c, spec, np.exp(2j * np.pi * j / n))
    K = [("K", fs(q)) for q in spec]
    k = np.fft.fftfreq(n, 1 / n)[j] * wave(ds, axis)
    q = 2 * np.pi / size(ds, axis)
    L = lines_of(P.plot_spread_against_k, s, (axis,))
    for i in range(m):
        env.eq(np.exp(1j * q * R[0, i]) * abs(z[i]), z[i], "mean position modulo the cell")
        p = conv(spec, K) @ c[i]
        mean = np.sum(np.conj(p) * k * p)
        env.eq(R[1, i], mean, "mean momentum")
        env.eq(np.exp(-(R[2, i] ** 2) * q**2 / 4), abs(z[i]), "spread")
        env.eq(np.real(L[0][0][i]), np.real(mean), "drawn momentum")
        env.eq(L[0][1][i], R[2, i], "drawn spread")


LAGS = [{"runs": 1, "steps": 1}, {"runs": 1, "steps": 2}, {"runs": 2, "steps": 3}, {"runs": 1, "steps": 4}, {"runs": 1, "steps": 5}]


def value_list(x, runs, steps, dt):
    return {"basis": tup(fb(runs), times(steps, dt)), "data": x.reshape(-1)}


def lag_basis(env, r, runs, steps, dt):
    env.true(r["basis"][0].n == runs and r["basis"][1].n == steps and r["data"].shape == (runs * steps,), "one value for every lag")
    env.eq(np.array(r["basis"][1].times), dt * np.arange(steps), "lag times")


@harness("C27", LAGS, [{"runs": 3, "steps": 7}, {"runs": 4, "steps": 5}], T)
def displacement(env, runs, steps):
    """mean square displacement at every lag: the average over all pairs of times that far apart"""
    from surface_potential_analysis.state_vector.plot import get_average_displacements

    x = env.rvec("x", runs, steps)
    before = snap(x)
    r = get_average_displacements(value_list(x, runs, steps, 0.25))
    unchanged(env, before, x)
    lag_basis(env, r, runs, steps, 0.25)
    R = r["data"].reshape(runs, steps)
    for i in range(runs):
        for d in range(steps):
            env.eq(R[i, d], sum((x[i, t + d] - x[i, t]) ** 2 for t in range(steps - d)) / (steps - d), "mean square displacement")


@harness("C27", LAGS, [{"runs": 2, "steps": 6}, {"runs": 4, "steps": 5}], T)
def scattering(env, runs, steps):
    """scattering function at every lag: the average of exp(i k (x(t + lag) - x(t)))"""
    from surface_potential_analysis.state_vector.plot import get_average_isf

    x = env.rvec("x", runs, steps)
    k = env.pick("k", [0.0, 1.0, 2.5, -1.5])
    before = snap(x)
    r = get_average_isf(value_list(x, runs, steps, 0.25), k)
    unchanged(env, before, x)
    lag_basis(env, r, runs, steps, 0.25)
    R = r["data"].reshape(runs, steps)
    for i in range(runs):
        for d in range(steps):
            env.eq(R[i, d], sum(np.exp(1j * k * x[i, t + d]) * np.exp(-1j * k * x[i, t]) for t in range(steps - d)) / (steps - d), "scattering function")


@harness("C27", [{"runs": 1, "steps": 3}, {"runs": 2, "steps": 2}], [], T)
def drawn_lags(env, runs, steps):
    """the drawn displacement and scattering function are those of the restored trajectory, averaged over the repeats"""
    from surface_potential_analysis.state_vector import plot as P

    spec, ds = [("K", 3)], [1.5]
    c = few(env, spec, runs * steps)
    s = {"basis": tup(tup(fb(runs), times(steps)), B(spec, deltas(ds))), "data": c.reshape(-1)}
    X = [y for _x, y in lines_of(P.plot_periodic_averaged_occupation_1d_x, s, (0,))]
    L = lines_of(P.plot_average_displacement_1d_x, s, (0,), measure="real")
    env.true(len(L) == 1, "one line")
    env.eq(np.array(L[0][0]), 0.5 * np.arange(steps), "lag times")
    for d in range(steps):
        want = sum(sum((x[t + d] - x[t]) ** 2 for t in range(steps - d)) / (steps - d) for x in X) / runs
        env.eq(L[0][1][d], want, "averaged displacement")
    L = lines_of(P.plot_average_isf_1d_x, s, 2.0, (0,), measure="real")
    env.eq(np.array(L[0][0]), 0.5 * np.arange(steps), "lag times")
    for d in range(steps):
        want = sum(sum(np.cos(2.0 * (x[t + d] - x[t])) for t in range(steps - d)) / (steps - d) for x in X) / runs
        env.eq(L[0][1][d], want, "averaged scattering function")


@harness("C27", [{"spec": [("K", 3)], "ds": [1.5]}, {"spec": [("P", 2), ("K", 3)], "ds": [2.0, 1.5]}], [], T)
def drawn_drift(env, spec, ds):
    """the drawn drift along an axis at every lag: change of the position over the sum of inverse momenta, both along that axis"""
    from surface_potential_analysis.state_vector import plot as P

    runs, steps = 1, 2
    axis = len(spec) - 1
    c = few(env, spec, runs * steps)
    c = c[::-1] if env.pick("order", [0, 1]) else c
    s = {"basis": tup(tup(fb(runs), times(steps)), B(spec, deltas(ds))), "data": c.reshape(-1)}
    before = snap(c)
    X = [y for _x, y in lines_of(P.plot_periodic_averaged_occupation_1d_x, s, (axis,))]
    K = [y for _x, y in lines_of(P.plot_averaged_occupation_1d_k, s, (axis,))]
    L = lines_of(P.plot_average_drift_1d_x, s, (axis,), measure="real")
    env.true(len(L) == 1, "one line")
    env.eq(np.array(L[0][0]), 0.5 * np.arange(steps), "lag times")
    for d in range(steps):
        want = sum(sum(x[t] - x[t + d] for t in range(steps - d)) / sum(1 / k[t] for t in range(steps - d)) for x, k in zip(X, K)) / runs
        env.eq(L[0][1][d], want, "averaged drift")
    unchanged(env, before, c)


PACKETS = [{"s": [2], "x": [3]}, {"s": [3], "x": [2]}, {"s": [4], "x": [2]}, {"s": [2, 3], "x": [2, 2]}]


def energies(env, nb, s):
    """band energies, symmetric in the wavevector"""
    k = samples_(s)
    n = len(k)
    out = []
    for b in range(nb):
        seen = {}
        row = []
        for i, q in enumerate(k):
            key = min(q, tuple((-a) % m for a, m in zip(q, s)))
            if key not in seen:
                seen[key] = env.real(f"e{b}.{i}", 0.0, 0.2) + [2.0, 1.1, 0.4, 0.7, 0.3, 0.9][len(seen)] + b
            row.append(seen[key])
        out.append(row)
    assert all(len(r) == n for r in out)
    return env.array(out)


def samples_(s):
    from .c16 import samples

    return [tuple(a % m for a, m in zip(q, s)) for q in samples(s)]


@harness("C27", PACKETS, [], T)
def bands_(env, s, x):
    """average band energies, thermal band occupations and effective masses"""
    from scipy.constants import Boltzmann, hbar
    from surface_potential_analysis.state_vector.plot import get_average_band_energy
    from surface_potential_analysis.wavepacket import plot as W
    from surface_potential_analysis.wavepacket.get_eigenstate import get_full_bloch_hamiltonian
    from surface_potential_analysis.wavepacket.localization_operator import get_identity_operator

    from .c16 import bands

    nb = 2
    ds = [1.5, 2.0][: len(s)]
    n, k = int(np.prod(x)), int(np.prod(s))
    e = energies(env, nb, s)
    before = snap(e)
    c = np.zeros((nb, k, n), dtype=complex)
    for b in range(nb):
        c[b, :, b] = 1
    spec = [("K", a) for a in x]
    w = bands(c, s, spec, e, deltas(ds))
    lb = w["basis"][0][0]
    r = get_average_band_energy(get_full_bloch_hamiltonian(w))
    env.true(r["basis"] is lb, "bands")
    env.eq(r["data"], env.array([sum(e[b]) / k for b in range(nb)]), "average energy of the band")
    # thermal occupation
    T0 = 2.0 / Boltzmann
    r = W.get_wavepacket_band_occupation(w, T0)
    f = np.exp(-e / 2.0)
    env.true(r["basis"] is lb and r["data"].shape == (nb,), "bands")
    for b in range(nb):
        env.eq(r["data"][b] * np.sum(f), np.sum(f[b]), "share of the band")
    # effective mass m = hbar^2 (2 n + 1) / (L^2 |hopping|)
    h2 = hbar**2
    wm = bands(c, s, spec, e, deltas(ds))
    for axis in range(len(s)):
        q = samples_(s)
        ph = np.array([np.exp(2j * np.pi * a[axis] / s[axis]) for a in q])
        for f, arg in ((W.get_wavepacket_transformed_energy_effective_mass, ()), (W.get_wavepacket_localized_effective_mass, (get_identity_operator(wm["basis"][0]),))):
            r = f(wm, *arg, axis)
            env.true(r["basis"] is wm["basis"][0][0] and r["data"].shape == (nb,), "a mass for every band")
            for b in range(nb):
                hop = abs(np.sum(np.real(ph) * e[b]) / k)
                env.eq(r["data"][b] / h2, (2 * b + 1) / (size(ds, axis) ** 2 * hop), "effective mass")
    unchanged(env, before, e)
