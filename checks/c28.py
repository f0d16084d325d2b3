"""C28: figures of vectors on a grid: lines, colour maps and animations in position, momentum or index space."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .figs import Canvas, plotting_modules
from .h import *  # noqa: F403
from .oracle import freqs, fsize

plotting_modules()

BOUNDS = "1-3 axes of 2-5 points (position, momentum and truncated bases, skew cells), every pair or triple of axes, planes given or found; measures real, imag, abs and angle; lists of 2-3 vectors; amplitudes: all within 0.003 of generic values"
T = ("util.plot.*", "state_vector.plot.plot_state*", "state_vector.plot.animate_*", "potential.plot.*", "probability_vector.plot.plot_probability_*", "overlap.plot.plot_overlap_2d*", "operator.plot.*", "kernel.plot.plot_isotropic*", "util.util.get_*")
CELL = {1: [[2.5]], 2: [[1.7, 0.4], [-0.6, 2.3]], 3: [[1.7, 0.4, 0.3], [-0.6, 2.3, 0.2], [0.5, 0.1, 1.9]]}
MEASURES = ["real", "imag", "abs", "angle"]


def cell(d):
    return [np.array(v) for v in CELL[d]]


def generic(env, name, n, seed=0, m=3, size=0.003):
    """numbers of generic size and phase, m of them changed by any small amount"""
    r = np.random.RandomState(seed + n)
    z = 2.5 * (0.4 + r.permutation(n) / n) * np.exp(1j * r.uniform(-2.5, 2.5, n))
    out = list(z)
    for i in range(min(m, n)):
        j = (i * (n // m or 1)) % n
        out[j] = out[j] + size * env.cplx(f"{name}{i}")
    return env.array(out)


def points(spec, kind):
    """spec of the fundamental points or plane waves"""
    return [({"x": "P", "k": "K", "n": "F"}[kind], fsize(s)) for s in spec]


def measured(env, y, z, measure, label="measured data"):
    label = label + ": " + measure
    """y is the measure of z"""
    y = np.array(y) if not hasattr(y, "shape") else y
    if y.shape != z.shape:
        env.true(False, label + ": shape")
        return
    if measure == "abs":
        env.eq(y * y, np.real(z * np.conj(z)), label)
        env.ge(y.reshape(-1)[0], 0.0, "not negative")
    elif measure == "angle":
        for a, b in zip(y.reshape(-1), z.reshape(-1)):
            env.eq(np.exp(1j * a) * abs(b), b, label)
    else:
        env.eq(y, np.real(z) if measure == "real" else np.imag(z), label)


def frame_vectors(V, axes):
    """orthonormal directions in the plane of the given lattice vectors, the first along the first"""
    e = []
    for a in axes:
        v = V[a] - sum((np.dot(V[a], u) * u for u in e), np.zeros(len(V)))
        e.append(v / np.linalg.norm(v))
    return np.array(e)


def expected(spec, vals, axes, idx, kind):
    """coordinates (one array for every axis of the plot) and values on the plane through idx, ascending in k"""
    d = len(spec)
    C = np.array(CELL[d])
    sh = [fsize(s) for s in spec]
    g = vals.reshape(sh)
    V = 2 * np.pi * np.linalg.inv(C).T if kind == "k" else C / np.array(sh)[:, None]
    rest = [i for i in range(d) if i not in axes]
    e = frame_vectors(V, axes)
    order = [sorted(range(sh[a]), key=lambda i, n=sh[a]: freqs(n)[i]) if kind == "k" else list(range(sh[a])) for a in axes]
    shape = [sh[a] for a in axes]
    X, Z = np.zeros((len(axes), *shape)), np.empty(shape, dtype=int)
    for pos in np.ndindex(*shape):
        full = [0] * d
        for a, o, p in zip(axes, order, pos):
            full[a] = o[p]
        for a, i in zip(rest, idx):
            full[a] = i
        num = [freqs(n)[i] if kind == "k" else i for n, i in zip(sh, full)]
        X[(slice(None), *pos)] = e @ sum(n * V[i] for i, n in enumerate(num))
        Z[pos] = np.ravel_multi_index(full, sh)
    return X, g.reshape(-1)[Z]


def peak(num, spec, axes):
    """remaining indices of the largest value"""
    sh = [fsize(s) for s in spec]
    full = np.unravel_index(int(np.argmax(np.abs(num))), sh)
    return tuple(int(i) for a, i in enumerate(full) if a not in axes)


class _Numbers:
    array = staticmethod(lambda x: np.array(x))
    cplx = staticmethod(lambda *_: 0.0)


def numeric(n, seed):
    return generic(_Numbers, "", n, seed)


def seed_of(spec, gap=0.3):
    """a seed whose largest value is clearly the largest in every representation"""
    U = [conv(spec, points(spec, k)) for k in "xk"]

    def margin(s):
        return min(np.diff(np.sort(np.abs(u @ numeric(N(spec), s))))[-1] for u in U)

    found = next((s for s in range(1, 300) if margin(s) > gap), None)
    return max(range(1, 300), key=margin) if found is None else found


def smooth(z):
    """no value next to the cut of the angle, no step close to half a turn"""
    a = np.angle(z)
    return np.all(np.abs(a) < 2.9) and np.all(np.abs(np.abs(np.diff(a)) - np.pi) > 0.1)


def closed(x, z):
    return np.append(x, x[-1] + x[1] - x[0]), np.concatenate([z, z[:1]])


def check_line(env, ax, line, x, z, measure, scale="linear"):
    env.eq(np.array(line.x, dtype=float), x, "coordinates")
    measured(env, line.y, z, measure)
    if measure == "abs":
        env.true(ax.ylim[0] == 0, "axis starts at zero")
    env.true(ax.scale() == scale, "scale")


VECTORS = [{"spec": [("K", 4)]}, {"spec": [("P", 5)]}, {"spec": [("TP", 3, 5)]}, {"spec": [("K", 3), ("P", 4)]}, {"spec": [("TP", 2, 3), ("K", 2)]}, {"spec": [("P", 3), ("K", 2), ("TP", 2, 3)]}]
VECTORS += [{"spec": [("P", 2), ("P", 4)]}]
MORE = [{"spec": [("K", 5), ("TP", 3, 4)]}, {"spec": [("K", 3), ("P", 3), ("K", 4)]}]


def kinds_of_vector(kind):
    """(name, call) of every function drawing a vector along one axis"""
    from surface_potential_analysis.kernel.plot import plot_isotropic_noise_kernel_1d_x
    from surface_potential_analysis.potential.plot import plot_potential_1d_x
    from surface_potential_analysis.probability_vector.plot import plot_probability_1d_k, plot_probability_1d_x
    from surface_potential_analysis.state_vector.plot import plot_state_1d_k, plot_state_1d_x
    from surface_potential_analysis.state_vector.state_vector_list_plot import plot_states_1d_k, plot_states_1d_x
    from surface_potential_analysis.util import plot as P

    def many(f):
        def g(v, axes, idx, *, ax, **k):
            f({"basis": tup(fb(1), v["basis"]), "data": v["data"]}, axes, idx, ax=ax, **k)
            return ax.fig, ax, ax.curves[-1]
        return g

    raw = lambda f: lambda v, *a, **k: f(v["basis"], v["data"], *a, **k)  # noqa: E731
    real = lambda f: lambda v, *a, measure, **k: f(v, *a, **k)  # noqa: E731
    return {
        "x": [(raw(P.plot_data_1d_x), MEASURES), (plot_state_1d_x, MEASURES), (many(plot_states_1d_x), MEASURES), (plot_probability_1d_x, MEASURES), (real(plot_potential_1d_x), ["real"]), (plot_isotropic_noise_kernel_1d_x, ["real", "imag"])],
        "k": [(raw(P.plot_data_1d_k), MEASURES), (plot_state_1d_k, MEASURES), (many(plot_states_1d_k), MEASURES), (plot_probability_1d_k, MEASURES)],
        "n": [(raw(P.plot_data_1d_n), MEASURES)],
    }[kind]


@harness("C28", VECTORS, MORE, T)
def lines(env, spec):
    """a line along one axis: values of the points through the index asked for (or the largest value), closed by periodicity"""
    n, d = N(spec), len(spec)
    kind = env.pick("kind", ["x", "k", "n"])
    seed = seed_of(spec)
    v0 = generic(env, "v", n, seed)
    U = conv(spec, points(spec, kind))
    num, vals = U @ numeric(n, seed), U @ v0
    vec0 = {"basis": B(spec, cell(d)), "data": v0}
    before = snap(v0)
    j = 0
    for a in range(d):
        others = [range(fsize(spec[i])) for i in range(d) if i != a]
        for idx in [None, *itertools.islice(itertools.product(*others), 2, 4)] if d > 1 else [None, ()]:
            at = peak(num, spec, (a,)) if idx is None else idx
            for f, measures in kinds_of_vector(kind):
                measure = measures[j % len(measures)]
                if measure == "angle" and not (np.allclose(U, np.eye(len(U), n)) and smooth(expected(spec, num, (a,), at, "x" if kind == "n" else kind)[1])):
                    measure = "abs"
                scale = ["linear", "symlog", "squared", "log"][j % 4]
                j += 1
                with Canvas() as cv:
                    kw = {"periodic": bool(j % 2)} if kind == "n" else {}
                    fig, ax, line = f(vec0, (a,), idx, ax=cv.ax, measure=measure, scale=scale, **kw)
                    env.true(fig is cv.fig and ax is cv.ax and cv.ax.curves == [line], "draws one line on the axes given")
                X, z = expected(spec, vals, (a,), at, "x" if kind == "n" else kind)
                x = np.arange(fsize(spec[a])) if kind == "n" else X[0]
                if kind != "n" or kw["periodic"]:
                    x, z = closed(x, z)
                check_line(env, ax, line, x, z, measure, scale)
    unchanged(env, before, v0)


def colour_checks(env, ax, mesh, X, z, num, measure, scale="linear"):
    env.true(np.shape(mesh.X) == z.shape, "grid")
    env.eq(np.array(mesh.X, dtype=float), X[0], "first coordinate")
    env.eq(np.array(mesh.Y, dtype=float), X[1], "second coordinate")
    measured(env, mesh.C, z, measure)
    limits(env, mesh, mesh.C, num, measure, scale)


def numeric_measure(z, measure):
    return {"real": np.real, "imag": np.imag, "abs": np.abs, "angle": np.angle}[measure](z)


def clearly(c, sign):
    """position of the largest (smallest) of generic values if no other comes close"""
    o = np.argsort(sign * c)
    return int(o[-1]) if len(c) == 1 or abs(c[o[-1]] - c[o[-2]]) > 0.05 else None


def limits(env, mesh, C, num, measure, scale):
    """the colours reach from the smallest (or zero) to the largest value"""
    c, num = np.reshape(C, -1), np.reshape(numeric_measure(num, measure), -1)
    lo, hi = mesh.clim
    for v, w in zip(c, num):
        if w < num.max() - 0.05:
            continue
        env.ge(hi, v - 1e-9, "largest value within the colours")
    i = clearly(num, 1)
    if i is not None:
        env.eq(hi, c[i], "the upper limit is the largest value")
    if measure == "abs":
        env.eq(lo, 0.0, "colours start at zero")
    else:
        i = clearly(num, -1)
        if i is not None:
            env.eq(lo, c[i], "the lower limit is the smallest value")
    n = {"linear": "Normalize", "squared": "Normalize", "log": "LogNorm", "symlog": "SymLogNorm"}[scale]
    env.true(type(mesh.norm).__name__ == n, "colour scale")
    env.eq(mesh.norm.vmin, lo, "colour scale")
    env.eq(mesh.norm.vmax, hi, "colour scale")


def maps_of(kind):
    from surface_potential_analysis.kernel.plot import plot_isotropic_noise_kernel_2d_x
    from surface_potential_analysis.overlap.plot import plot_overlap_2d_k, plot_overlap_2d_x
    from surface_potential_analysis.potential.plot import plot_potential_2d_x
    from surface_potential_analysis.probability_vector.plot import plot_probability_2d_k, plot_probability_2d_x
    from surface_potential_analysis.state_vector.plot import plot_state_2d_k, plot_state_2d_x
    from surface_potential_analysis.util import plot as P

    raw = lambda f: lambda v, *a, **k: f(v["basis"], v["data"], *a, **k)  # noqa: E731
    real = lambda f: lambda v, *a, measure, **k: f(v, *a, **k)  # noqa: E731
    over = lambda f: lambda v, *a, **k: f({"basis": tup(v["basis"], tup(fb(1), fb(1))), "data": v["data"]}, *a, **k)  # noqa: E731
    return {
        "x": [(raw(P.plot_data_2d_x), MEASURES[:3]), (plot_state_2d_x, MEASURES[:3]), (plot_probability_2d_x, MEASURES[:3]), (real(plot_potential_2d_x), ["real"]), (plot_isotropic_noise_kernel_2d_x, ["real", "imag"]), (over(plot_overlap_2d_x), MEASURES[:3])],
        "k": [(raw(P.plot_data_2d_k), MEASURES[:3]), (plot_state_2d_k, MEASURES[:3]), (plot_probability_2d_k, MEASURES[:3]), (over(plot_overlap_2d_k), MEASURES[:3])],
    }[kind]


PLANES = [q for q in VECTORS if len(q["spec"]) > 1]


@harness("C28", PLANES, MORE, T)
def maps(env, spec):
    """a colour map over two axes: values of the points of the plane asked for at their projected coordinates"""
    n, d = N(spec), len(spec)
    kind = env.pick("kind", ["x", "k"])
    axes = env.pick("axes", list(itertools.permutations(range(d), 2)))
    seed = seed_of(spec)
    v0 = generic(env, "v", n, seed, m=2)
    num = conv(spec, points(spec, kind)) @ numeric(n, seed)
    vals = conv(spec, points(spec, kind)) @ v0
    vec0 = {"basis": B(spec, cell(d)), "data": v0}
    before = snap(v0)
    j = sum(axes)
    rest = [fsize(spec[i]) for i in range(d) if i not in axes]
    for idx in [None, tuple(m - 1 for m in rest)]:
        at = peak(num, spec, axes) if idx is None else idx
        for f, measures in maps_of(kind):
            measure = measures[j % len(measures)]
            scale = ["linear", "symlog", "squared"][j % 3]
            j += 1
            with Canvas() as cv:
                fig, ax, mesh = f(vec0, axes, idx, ax=cv.ax, measure=measure, scale=scale)
                env.true(fig is cv.fig and ax is cv.ax and cv.ax.meshes == [mesh] and cv.fig.bars == [mesh], "draws one map and its colour bar")
            X, z = expected(spec, vals, axes, at, kind)
            colour_checks(env, ax, mesh, X, z, expected(spec, num, axes, at, kind)[1], measure, scale)
    unchanged(env, before, v0)


def lists_of(kind, d):
    """(call(states, axes, idx, ...), measures) of the animations through the vectors of a list"""
    from surface_potential_analysis.state_vector import plot as S
    from surface_potential_analysis.util import plot as P

    raw = lambda f: lambda s, *a, **k: f(s["basis"][1], s["data"].reshape(s["basis"].shape), *a, **k)  # noqa: E731
    one = {
        "x": [raw(P.animate_data_through_list_1d_x), S.animate_state_over_list_1d_x],
        "k": [raw(P.animate_data_through_list_1d_k), S.animate_state_over_list_1d_k],
        "n": [raw(P.animate_data_through_list_1d_n)],
    }
    two = {"x": [raw(P.animate_data_through_list_2d_x), S.animate_state_over_list_2d_x], "k": [raw(P.animate_data_through_list_2d_k), S.animate_state_over_list_2d_k], "n": []}
    return one[kind] if d == 1 else two[kind]


@harness("C28", VECTORS, MORE, T)
def frames(env, spec):
    """one frame for every vector of a list, in order, each drawn as the vector alone would be"""
    n, d = N(spec), len(spec)
    kind = env.pick("kind", ["x", "k", "n"])
    seeds = [seed_of(spec), seed_of(spec) + 1, seed_of(spec) + 2]
    m = 3
    rows = [generic(env, f"v{i}", n, s, m=1) for i, s in enumerate(seeds)]
    data = env.array(sum((list(r) for r in rows), []))
    U = conv(spec, points(spec, kind))
    states = {"basis": tup(fb(m), B(spec, cell(d))), "data": data}
    before = snap(data)
    j = 0
    for dim in (1, 2):
        for axes in list(itertools.permutations(range(d), dim))[:3]:
            rest = [fsize(spec[i]) for i in range(d) if i not in axes]
            idx = tuple(q - 1 for q in rest)
            for f in lists_of(kind, dim):
                measure = MEASURES[j % 3]
                scale = ["linear", "symlog", "squared"][(j + dim) % 3]
                kw = {"periodic": bool(j % 2)} if kind == "n" else {}
                j += 1
                with Canvas() as cv:
                    fig, ax, ani = f(states, axes, idx, ax=cv.ax, measure=measure, scale=scale, **kw)
                    env.true(fig is cv.fig and ax is cv.ax and ani.fig is fig, "drawn on the axes given")
                env.true(len(ani.frames) == m and all(len(q) == 1 for q in ani.frames), "one frame for every vector")
                for (artist,), row, s in zip(ani.frames, rows, seeds):
                    X, z = expected(spec, U @ row, axes, idx, "x" if kind == "n" else kind)
                    if dim == 1:
                        x = np.arange(fsize(spec[axes[0]])) if kind == "n" else X[0]
                        if kind != "n" or kw["periodic"]:
                            x, z = closed(x, z)
                        check_line(env, ax, artist, x, z, measure, scale)
                    else:
                        colour_checks(env, ax, artist, X, z, expected(spec, U @ numeric(n, s), axes, idx, kind)[1], measure, scale)
                if dim == 1:
                    env.true(len({q[0].get_color() for q in ani.frames}) == 1, "frames share a colour")
    unchanged(env, before, data)


SURFACES = [{"spec": [("P", 3), ("K", 2), ("TP", 2, 3)]}, {"spec": [("K", 3), ("P", 2), ("K", 2)]}]


@harness("C28", SURFACES, [{"spec": [("P", 2), ("P", 4), ("K", 3)]}], T)
def surfaces(env, spec):
    """one frame for every plane along the third axis, all with the colours of the whole data or those asked for"""
    from surface_potential_analysis.potential.plot import animate_potential_3d_x
    from surface_potential_analysis.state_vector.plot import animate_state_3d_x
    from surface_potential_analysis.util.plot import animate_data_through_surface_x

    n, d = N(spec), len(spec)
    seed = seed_of(spec)
    v0 = generic(env, "v", n, seed, m=2)
    U = conv(spec, points(spec, "x"))
    vec0 = {"basis": B(spec, cell(d)), "data": v0}
    before = snap(v0)
    sh = [fsize(s) for s in spec]
    num, vals = (U @ numeric(n, seed)).reshape(sh), (U @ v0).reshape(sh)
    axes = env.pick("axes", list(itertools.permutations(range(3))))
    raw = lambda v, *a, **k: animate_data_through_surface_x(v["basis"], v["data"].reshape(v["basis"].shape), *a, **k)  # noqa: E731
    real = lambda v, *a, measure, **k: animate_potential_3d_x(v, *a, **k)  # noqa: E731
    for j, (f, measure, clim) in enumerate([(raw, "abs", (None, None)), (raw, "real", (None, 9.0)), (animate_state_3d_x, "imag", (None, None)), (animate_state_3d_x, "abs", (0.25, None)), (real, "real", (None, None)), (real, "real", (-8.0, 7.0)), (raw, "abs", (None, 12.5)), (raw, "real", (-11.0, 0.0)), (animate_potential_3d_x, "imag", (None, None))]):
        scale = ["linear", "symlog", "squared"][j % 3]
        with Canvas() as cv:
            fig, ax, ani = f(vec0, axes, ax=cv.ax, measure=measure, scale=scale, clim=clim)
            env.true(fig is cv.fig and ax is cv.ax and ani.fig is fig, "drawn on the axes given")
        env.true(len(ani.frames) == sh[axes[2]] and all(len(q) == 1 for q in ani.frames), "one frame for every plane")
        if len(ani.frames) != sh[axes[2]]:
            return
        whole = np.reshape(numeric_measure(num, measure), -1)
        for p, (mesh,) in enumerate(ani.frames):
            full = expected_plane(spec, axes, p)
            env.eq(np.array(mesh.X, dtype=float), full[0][0], "first coordinate")
            env.eq(np.array(mesh.Y, dtype=float), full[0][1], "second coordinate")
            measured(env, mesh.C, vals.reshape(-1)[full[1]], measure)
            lo, hi = mesh.clim
            flat = vals.reshape(-1)
            for sign, lim, given in ((1, hi, clim[1]), (-1, lo, clim[0] if clim[0] is not None or measure != "abs" else 0.0)):
                i = clearly(whole, sign)
                if given is not None:
                    env.eq(lim, given, "the limit asked for")
                elif i is not None:
                    if measure == "abs":
                        env.eq(lim * lim, np.real(flat[i] * np.conj(flat[i])), "limit over all planes")
                    else:
                        env.eq(lim, np.real(flat[i]) if measure == "real" else np.imag(flat[i]), "limit over all planes")
            env.eq(mesh.norm.vmin, lo, "colour scale")
            env.eq(mesh.norm.vmax, hi, "colour scale")
    unchanged(env, before, v0)


@harness("C28", [{"sh": [2, 3, 1, 2]}, {"sh": [2, 2, 2, 3]}], None, T)
def hidden_axis(env, sh):
    """planes of points with four coordinates, at the index asked for along the hidden one"""
    from surface_potential_analysis.util.plot import animate_data_through_surface_x

    ds = [1.5, 2.0, 0.7, 3.1]
    v = generic(env, "v", int(np.prod(sh)), 5)
    basis = B([("P", q) for q in sh], [np.eye(4)[i] * q for i, q in enumerate(ds)])
    before = snap(v)
    whole = v.reshape(sh)
    for h, o in ((0, 1), (1, -1), (3, 1), (3, None)):
        axes = tuple(a for a in (2, 0, 3, 1) if a != h)
        with Canvas() as cv:
            fig, ax, ani = animate_data_through_surface_x(basis, v, axes, None if o is None else (o % sh[h],), ax=cv.ax, measure="real")
        env.true(len(ani.frames) == sh[axes[2]], "one frame for every plane")
        part = np.moveaxis(np.take(whole, (o or 0) % sh[h], axis=h), [sorted(axes).index(a) for a in axes], range(3))
        for p, (mesh,) in enumerate(ani.frames):
            env.eq(np.array(mesh.X, dtype=float), ds[axes[0]] / sh[axes[0]] * np.arange(sh[axes[0]])[:, None] * np.ones((1, sh[axes[1]])), "first coordinate")
            env.eq(np.array(mesh.Y, dtype=float), ds[axes[1]] / sh[axes[1]] * np.arange(sh[axes[1]])[None, :] * np.ones((sh[axes[0]], 1)), "second coordinate")
            measured(env, mesh.C, part[:, :, p], "real")
    unchanged(env, before, v)


def expected_plane(spec, axes, p):
    """coordinates and flat indices of the points of a plane along the third axis"""
    sh = [fsize(s) for s in spec]
    V = np.array(CELL[len(spec)]) / np.array(sh)[:, None]
    e = frame_vectors(V, axes)
    shape = [sh[a] for a in axes[:2]]
    X, Z = np.zeros((2, *shape)), np.empty(shape, dtype=int)
    for pos in np.ndindex(*shape):
        full = [0, 0, 0]
        for a, i in zip(axes, (*pos, p)):
            full[a] = i
        X[(slice(None), *pos)] = e[:2] @ sum(i * V[a] for a, i in enumerate(full))
        Z[pos] = np.ravel_multi_index(full, sh)
    return X, Z


@harness("C28", [{"n": 4}, {"n": 3}], None, T)
def plain(env, n):
    """a line of given numbers, their errors and its periodic closure; the scale of an axis of squares"""
    from surface_potential_analysis.util.plot import get_figure, plot_data_1d, plot_data_2d
    from surface_potential_analysis.util.squared_scale import SquaredScale

    z = generic(env, "z", n, 3)
    x = env.rvec("x", n)
    err = env.rvec("e", n)
    for measure in MEASURES[:3]:
        for scale in ("linear", "symlog", "squared", "log"):
            with Canvas() as cv:
                _, ax, line = plot_data_1d(z, x, err, ax=cv.ax, measure=measure, scale=scale)
            env.eq(line.x, x, "coordinates")
            measured(env, line.y, z, measure)
            env.eq(line.yerr, err, "errors")
            env.true(ax.scale() == scale, "scale")
            env.true((ax.ylim[0] == 0) == (measure == "abs"), "axis starts at zero")
            with Canvas() as cv:
                _, ax, line = plot_data_1d(z, x, ax=cv.ax, measure=measure, scale=scale, periodic=True)
            env.eq(line.x, np.append(x, x[-1] + x[1] - x[0]), "coordinates")
            measured(env, line.y, np.append(z, z[:1]), measure)
        with Canvas() as cv:
            grid = env.array(list(z) + [2 * q for q in z]).reshape(2, n)
            first = plot_data_2d(grid, ax=cv.ax, measure=measure)[2]
            second = plot_data_2d(2 * grid, ax=cv.ax, measure=measure)[2]
            measured(env, first.C, grid, measure)
            measured(env, second.C, 2 * grid, measure)
            env.true(first.X is None and cv.fig.bars == [first], "one colour bar")
    with Canvas() as cv:
        env.true(get_figure(cv.ax)[0] is cv.fig and get_figure(cv.ax)[1] is cv.ax, "given axes")
        fig, ax = get_figure(None)
        env.true(ax.fig is fig and fig is not cv.fig, "new axes")
    t = SquaredScale(None).get_transform()
    s = generic(env, "s", n, 5)
    env.eq(t.transform_non_affine(np.real(s)), np.real(s) ** 2, "squares")
    env.eq(t.inverted().transform_non_affine(np.real(s) ** 2), np.abs(np.real(s)), "square roots")
    env.eq(t.inverted().inverted().transform_non_affine(np.real(s)), np.real(s) ** 2, "inverse of the inverse")
