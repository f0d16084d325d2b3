"""C04: Fourier padding, truncation and interpolation."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import freqs

SLOW = ['band_limited_data', 'real_data']  # larger configurations in the thorough tier only
BOUNDS = "arrays of 1-3 axes of 1-6 points, every input/output length pair up to 6 (1D), selected pairs (2D, 3D), axes in either order and counted from either end; the data entirely symbolic"
T = ("util.interpolation.*", "potential.potential.interpolate_uneven_potential")


def pad_matrix(n, s):
    """0/1 matrix copying frequencies present in both grids"""
    a, b = list(freqs(n)), list(freqs(s))
    m = np.zeros((s, n))
    for i, f in enumerate(b):
        if f in a:
            m[i, a.index(f)] = 1
    return m


def apply(mats, x):
    """apply one matrix per axis (None: leave the axis)"""
    for ax, m in enumerate(mats):
        if m is not None:
            x = np.moveaxis(np.tensordot(m, x, axes=(1, ax)), 0, ax)
    return x


def ft(n):
    return np.exp(-2j * np.pi * np.outer(freqs(n), np.arange(n)) / n) / n


def ift(n):
    return np.exp(2j * np.pi * np.outer(np.arange(n), freqs(n)) / n)


def interp(n, s):
    return ift(s) @ pad_matrix(n, s) @ ft(n)


@harness("C04", [{"n": n} for n in (1, 2, 3, 4, 5, 6)], [{"n": n} for n in (7, 8)], T)
def one_axis(env, n):
    """one axis: padding, interpolation, and back"""
    from surface_potential_analysis.util.interpolation import interpolate_points_fftn, pad_ft_points

    x = env.cvec("x", n)
    (x0,) = snap(x)
    for s in range(1, n + 3):
        p = pad_ft_points(x, (s,), (0,))
        env.true(p.shape == (s,), "padded shape")
        env.eq(p, pad_matrix(n, s) @ x, f"padded to {s}")
        y = interpolate_points_fftn(x, (s,), (0,))
        env.true(y.shape == (s,), "interpolated shape")
        env.eq(y, interp(n, s) @ x, f"interpolated to {s}")
        if s >= n:
            env.eq(interpolate_points_fftn(y, (n,), (0,)), x, "back to the original grid")
    for m in (1, 2, 3):
        env.eq(interpolate_points_fftn(x, (m * n,), (-1,))[::m], x, "passes through the points")
    for f in (pad_ft_points, interpolate_points_fftn):
        for s in (n, n + 2):
            first = f(x, (s,), (0,))
            (kept,) = snap(first)
            f(2.0 * x + 1.0, (s,), (0,))
            env.eq(first, kept, "an earlier result is not changed by a later call")
    env.eq(x, x0, "input untouched")


ND = [((2, 3), (4, 2), (0, 1)), ((3, 2), (2, 5), (1, 0)), ((3, 4), (5,), (0,)), ((3, 4), (3,), (-1,)), ((4, 4), (3, 6), (-1, -2)),
      ((2, 3, 4), (5, 3), (2, 0)), ((2, 3, 4), (3, 4), (1, 2)), ((3, 2, 3), (4, 3, 2), (0, 1, 2)), ((3, 2, 3), (2, 4, 1), (2, 0, 1)), ((3, 4, 2), (6, 2), (-2, -1)), ((5, 2), (3, 3), (0, -1))]
ND2 = [((4, 3, 3), (2, 5, 4), (-1, -3, -2)), ((2, 2, 3, 2), (3, 4), (3, 1)), ((5, 4), (4, 7), (1, 0))]


@harness("C04", [{"k": k} for k in range(len(ND))], [{"k": k} for k in range(len(ND), len(ND) + len(ND2))], T)
def many_axes(env, k):
    """several axes in any order: every axis is treated with its own length"""
    from surface_potential_analysis.util.interpolation import interpolate_points_fftn, pad_ft_points

    shape, s, axes = (ND + ND2)[k]
    x = env.cvec("x", *shape)
    (x0,) = snap(x)
    pm, im = [None] * len(shape), [None] * len(shape)
    for n, a in zip(s, axes):
        pm[a], im[a] = pad_matrix(shape[a], n), interp(shape[a], n)
    p = pad_ft_points(x, s, axes)
    out = list(shape)
    for n, a in zip(s, axes):
        out[a] = n
    env.true(p.shape == tuple(out), "padded shape")
    env.eq(p, apply(pm, x), "padded")
    env.eq(pad_ft_points(x, list(s), np.array(axes)), p, "lists and arrays")
    y = interpolate_points_fftn(x, s, axes)
    env.eq(y, apply(im, x), "interpolated")
    env.eq(x, x0, "input untouched")
    # default axes: the last ones, in order
    s2 = tuple(n + 1 + i for i, n in enumerate(shape[-len(s):]))
    dm = [None] * (len(shape) - len(s)) + [interp(n, m) for n, m in zip(shape[-len(s):], s2)]
    y = interpolate_points_fftn(x, s2)
    env.eq(y, apply(dm, x), "default axes")
    env.eq(interpolate_points_fftn(y, shape[-len(s):]), x, "back to the original grid")


def band_limited(env, shape, lim):
    """a real trigonometric polynomial with |k| <= lim on each axis, as a function of relative position"""
    terms = []
    for ks in itertools.product(*[range(-m, m + 1) for m in lim]):
        if ks > tuple(-k for k in ks):
            a, b = env.real("a" + "_".join(map(str, ks))), env.real("b" + "_".join(map(str, ks)))
            terms.append((ks, a, b))
        elif all(k == 0 for k in ks):
            terms.append((ks, env.real("a0"), 0.0))

    def value(sh):
        g = np.meshgrid(*[np.arange(n) / n for n in sh], indexing="ij")
        tot = 0.0
        for ks, a, b in terms:
            ph = 2 * np.pi * sum(k * q for k, q in zip(ks, g))
            tot = tot + a * np.cos(ph) + (b * np.sin(ph) if any(ks) else 0.0)
        return env.array(tot) if not isinstance(tot, np.ndarray) else tot

    return value


REAL = [((1,), (3,)), ((3,), (5,)), ((4,), (5,)), ((4,), (8,)), ((5,), (3,)), ((6,), (5,)), ((6,), (4,)), ((5,), (10,)), ((3, 3), (4, 5)), ((4, 3), (6, 5)), ((5, 4), (4, 5)), ((3, 4), (3, 8)), ((4, 4), (8, 4))]
REAL2 = [((3, 3, 3), (4, 3, 5)), ((5, 5), (6, 7)), ((8,), (13,))]


@harness("C04", [{"k": k} for k in range(len(REAL))], [{"k": k} for k in range(len(REAL), len(REAL) + len(REAL2))], T)
def band_limited_data(env, k):
    """band-limited real data is reproduced exactly by every routine"""
    from surface_potential_analysis.util.interpolation import interpolate_points_fftn, interpolate_points_rfft, interpolate_points_rfftn

    shape, s = (REAL + REAL2)[k]
    d = len(shape)
    f = band_limited(env, shape, [(min(a, b) - 1) // 2 for a, b in zip(shape, s)])
    x, want = f(shape), f(s)
    (x0,) = snap(x)
    axes = tuple(range(d))
    env.eq(interpolate_points_fftn(x, s, axes), want, "fftn")
    r = interpolate_points_rfftn(x, s, axes)
    env.true(r.shape == tuple(s), "shape")
    env.true(not np.iscomplexobj(r), "real")
    env.eq(r, want, "rfftn")
    env.eq(interpolate_points_rfftn(x, s), want, "rfftn, default axes")
    if d > 1:
        env.eq(interpolate_points_rfftn(x, s[::-1], axes[::-1]), want, "axes reversed")
        env.eq(interpolate_points_rfftn(x, s, tuple(a - d for a in axes)), want, "negative axes")
    y = x
    for a in (range(d) if k % 2 else reversed(range(d))):
        y = interpolate_points_rfft(y, s[a], axis=a if k % 3 else a - d)
    env.true(not np.iscomplexobj(y), "rfft real")
    env.eq(y, want, "rfft")
    env.eq(x, x0, "input untouched")


@harness("C04", [{"shape": s} for s in ((1,), (2,), (3,), (4,), (5,), (6,), (2, 3), (3, 2), (4, 3), (4, 4))], [{"shape": (2, 3, 3)}, {"shape": (5, 4)}, {"shape": (8,)}], T)
def real_data(env, shape):
    """arbitrary real data: same size gives the data back, real results, agreement with fftn"""
    from surface_potential_analysis.util.interpolation import interpolate_points_fftn, interpolate_points_rfft, interpolate_points_rfftn

    d = len(shape)
    x = env.rvec("x", *shape)
    axes = tuple(range(d))
    env.eq(interpolate_points_rfftn(x, shape, axes), x, "rfftn, same size")
    for a in range(d):
        env.eq(interpolate_points_rfft(x, shape[a], axis=a), x, "rfft, same size")
        for s in (shape[a] + 1, shape[a] + 2, 2 * shape[a], max(shape[a] - 2, 1)):
            y = interpolate_points_rfft(x, s, axis=a)
            env.true(not np.iscomplexobj(y), "real")
            env.true(y.shape == shape[:a] + (s,) + shape[a + 1 :], "shape")
            # the coefficients below both Nyquist frequencies are kept
            got, had = np.moveaxis(np.fft.fft(y, axis=a, norm="forward"), a, 0), np.moveaxis(np.fft.fft(x, axis=a, norm="forward"), a, 0)
            for q in range((min(s, shape[a]) + 1) // 2):
                env.eq(got[q], had[q], "low frequencies kept")
            for q in range(shape[a] // 2 + 1, (s + 1) // 2):
                env.eq(got[q], 0 * had[0], "high frequencies empty", scale=1.0)
    if all(n % 2 for n in shape):
        s = tuple(n + 2 for n in shape)
        env.eq(interpolate_points_rfftn(x, s, axes), interpolate_points_fftn(x, s, axes), "real and complex routines agree")
        env.eq(interpolate_points_rfftn(x, tuple(3 * n for n in shape), axes)[tuple(slice(None, None, 3) for _ in shape)], x, "passes through the points")


@harness("C04", [{"n": n} for n in (2, 3, 4, 5)], [{"n": 6}], T)
def symmetric_data(env, n):
    """symmetric real data stays symmetric under rfft interpolation"""
    from surface_potential_analysis.util.interpolation import interpolate_points_rfft

    v = env.rvec("x", n // 2 + 1)
    x = env.array([v[min(i, n - i)] for i in range(n)])
    for s in range(1, n + 4):
        y = interpolate_points_rfft(x, s)
        for i in range(1, s):
            env.eq(y[i], y[s - i], f"symmetric at {s}")
        env.eq(y[0], np.fft.irfft(np.fft.rfft(x, norm="forward"), s, norm="forward")[0], "first point")
        if n % 2:
            env.eq(y, (interp(n, s) @ x) if s >= n or s % 2 else y, "value")


@harness("C04", [{"n": n} for n in (1, 2, 3, 4, 5, 6, 7)], [], T)
def real_axis_padding(env, n):
    """half-spectrum padding keeps the shared non-negative frequencies"""
    from surface_potential_analysis.util.interpolation import pad_ft_points_real_axis

    for shape, axis in (((n,), 0), ((n,), -1), ((2, n), 1), ((n, 3), 0), ((n, 2), -2)):
        x = env.cvec(f"x{len(shape)}{axis}", *shape)
        for s in range(1, 12):
            p = pad_ft_points_real_axis(x, s, axis)
            m = s // 2 + 1
            env.true(p.shape == tuple(m if a == axis % len(shape) else k for a, k in enumerate(shape)), "shape")
            mats = [None] * len(shape)
            mats[axis] = np.eye(m, n)
            env.eq(p, apply(mats, x), "frequencies")


@harness("C04", [{"axis": a} for a in (0, 1, 2, -1, -2, -3)], [], T)
def spline(env, axis):
    """spline interpolation acts along the given axis, passes through knots and reproduces cubics"""
    from surface_potential_analysis.util.interpolation import interpolate_points_along_axis_spline

    z = np.array([0.0, 0.5, 1.0, 1.75, 2.0, 3.0])
    for lead in ((2, 3), (1, 2)):
        shape = list(lead)
        shape.insert(axis % 3, len(z))
        c = env.rvec(f"c{lead[0]}", 4, *lead)
        poly = lambda t: np.moveaxis(env.array([[[c[0, i, j] + c[1, i, j] * q + c[2, i, j] * q**2 + c[3, i, j] * q**3 for j in range(lead[1])] for i in range(lead[0])] for q in t]), 0, axis)  
        y = interpolate_points_along_axis_spline(poly(z), z, 5, axis)
        env.eq(y, poly(np.linspace(0, 3, 5)), "cubic reproduced")
        x = env.rvec(f"x{lead[0]}", *shape)
        y = interpolate_points_along_axis_spline(x, z, 7, axis)
        zi = np.linspace(0, 3, 7)
        for i, q in enumerate(zi):
            for j, w in enumerate(z):
                if abs(q - w) < 1e-12:
                    env.eq(np.take(y, i, axis=axis % 3), np.take(x, j, axis=axis % 3), "passes through the knots")


@harness("C04", [{"shape": (4, 5, 5)}, {"shape": (3, 6, 4)}], [{"shape": (6, 6, 7)}], T)
def uneven(env, shape):
    """interpolation of a potential on uneven z points"""
    from surface_potential_analysis.basis.basis import FundamentalPositionBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.potential import potential as P

    z = np.array([-1.0, 0.25, 0.5, 1.0, 2.0])
    f = band_limited(env, (3, 3), (1, 1))
    w = env.rvec("w", len(z))
    xy = f((3, 3))
    b = TupleBasis(FundamentalPositionBasis(np.array([2.0, 0.0]), 3), FundamentalPositionBasis(np.array([1.0, 1.5]), 3), P.UnevenPotential3dZBasis(z))
    c = np.array([1.0, -0.5, 2.0, 0.25, 1.5])
    data = env.array([[[xy[i, j] * c[k] + w[k] for k in range(len(z))] for j in range(3)] for i in range(3)])
    p = P.interpolate_uneven_potential({"basis": b, "data": data.reshape(-1)}, shape)
    env.true(p["basis"].shape == shape, "shape")
    for i, dx in enumerate(([2.0, 0, 0], [1.0, 1.5, 0], [0, 0, 3.0])):
        env.eq(p["basis"][i].delta_x, np.array(dx), "lattice vectors")
    got = p["data"].reshape(shape)
    fine = f(shape[:2])
    zi = np.linspace(-1, 2, shape[2])
    for i, q in enumerate(zi):
        for k, v in enumerate(z):
            if abs(q - v) < 1e-12:
                env.eq(got[:, :, i], fine * c[k] + w[k], "values at the original heights")
