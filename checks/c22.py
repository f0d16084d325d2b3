"""C22: overlaps of states and wavepackets."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .c16 import SHAPES, bands, cells, deltas, expand, has_deltas, single
from .h import *  # noqa: F403
from .oracle import freqs, fsize, size

BOUNDS = "1-3 axes of 1-6 points (bases position, momentum, truncated), 1-3 states or bands, 1-6 samples; all complex amplitudes, all wave vectors and all shifts"
T = ("overlap.calculation.*", "overlap.conversion.*", "overlap.interpolation.*", "overlap.overlap.*")

LISTS = [{"x": [4]}, {"x": [3, 2]}, {"x": [2, 3, 2]}, {"x": [1, 5]}]


def grid(x):
    return list(itertools.product(*[range(n) for n in x]))


@harness("C22", LISTS, [{"x": [4, 5]}, {"x": [3, 3, 3]}, {"x": [9]}, {"x": [4, 2, 3]}], T)
def states(env, x):
    """overlap of every pair of states at every point, one of them shifted by whole points of the periodic grid"""
    from surface_potential_analysis.overlap.calculation import calculate_state_vector_list_overlap

    m = env.pick("states", [1, 2, 3])
    n = int(np.prod(x))
    spec = env.pick("basis", [[("P", a) for a in x], [("F", a) for a in x]])
    c = env.cvec("c", m, n)
    shift = env.pick("shift", [None, *itertools.product(*[sorted({0, 1, a - 1, -1}) for a in x])]) if len(x) < 3 else env.pick("shift", [None, (1, 0, 0), (0, 1, 1), (0, 2, -1), (1, 1, 1)])
    before = snap(c)
    b = B(spec)
    w = {"basis": tup(fb(m), b), "data": c.reshape(-1)}
    r = calculate_state_vector_list_overlap(w) if shift is None else calculate_state_vector_list_overlap(w, shift=shift)
    unchanged(env, before, c)
    env.true(r["basis"][0] is b and tuple(r["basis"][1].shape) == (m, m) and r["data"].shape == (n * m * m,), "one value for every point and pair")
    sh = shift or (0,) * len(x)
    g = grid(x)
    at = [g.index(tuple((p - s) % a for p, s, a in zip(q, sh, x))) for q in g]
    R = r["data"].reshape(n, m, m)
    for i in range(m):
        for j in range(m):
            env.eq(R[:, i, j], np.conj(c[i]) * c[j][at], "conj(psi_i(x)) psi_j(x - shift)")
    if len(x) == 1 and shift is not None:
        q = calculate_state_vector_list_overlap(w, shift=shift[0])
        env.eq(q["data"], r["data"], "flat shift along a line")


@harness("C22", SHAPES, [{"s": [3, 2], "x": [2, 3]}, {"s": [5], "x": [4]}], T)
def wavepackets(env, s, x):
    """overlap of wavepackets: that of their unfurled states, in the position basis of the super-cell"""
    from surface_potential_analysis.overlap.calculation import calculate_wavepacket_list_overlap, calculate_wavepacket_overlap

    spec, n, k, c, ds = cells(env, s, x)
    sup = [a * b for a, b in zip(s, x)]
    f = BM([("K", a) for a in sup])
    v = [f @ (sum(b) / np.sqrt(k)) for b in expand(c, s, spec)]
    before = snap(c)
    r = calculate_wavepacket_overlap(single(c[0], s, spec, ds=ds), single(c[1], s, spec, ds=ds))
    isbasis(env, r["basis"][0], [("P", a) for a in sup])
    has_deltas(env, r["basis"][0], [a * d for a, d in zip(s, ds)])
    env.true(tuple(r["basis"][1].shape) == (1, 1), "a single overlap")
    env.eq(r["data"], np.conj(v[0]) * v[1], "conj(w_0(x)) w_1(x)")
    shift = env.pick("shift", [0, tuple(1 for _ in s), tuple(a - 1 if i else 0 for i, a in enumerate(sup))])
    w = bands(c, s, spec, ds=ds)
    q = calculate_wavepacket_list_overlap(w, shift=shift) if shift else calculate_wavepacket_list_overlap(w)
    unchanged(env, before, c)
    isbasis(env, q["basis"][0], [("P", a) for a in sup])
    has_deltas(env, q["basis"][0], [a * d for a, d in zip(s, ds)])
    env.true(tuple(q["basis"][1].shape) == (2, 2), "all pairs of bands")
    g = grid(sup)
    sh = shift or (0,) * len(s)
    at = [g.index(tuple((p - t) % a for p, t, a in zip(z, sh, sup))) for z in g]
    R = q["data"].reshape(len(g), 2, 2)
    for i in range(2):
        for j in range(2):
            env.eq(R[:, i, j], np.conj(v[i]) * v[j][at], "overlap of the pair of bands")
    env.eq(q["basis"][1][0].n, 2, "bands")
    o = B([("P", a) for a in sup], [a * d for a, d in zip(s, ds)])
    q2 = calculate_wavepacket_list_overlap(w, shift=shift, basis=o)
    env.true(q2["basis"][0] is o, "basis asked for")
    env.eq(q2["data"], q["data"], "in the basis asked for")
    if sup[-1] > 1 and len(s) == 1:
        o = B([("TP", sup[-1] - 1, sup[-1])], [a * d for a, d in zip(s, ds)])
        q3 = calculate_wavepacket_list_overlap(w, shift=(1,), basis=o)
        env.true(q3["basis"][0] is o, "truncated basis asked for")
        u = [conv([("P", sup[-1])], [("TP", sup[-1] - 1, sup[-1])]) @ a for a in v]
        R = q3["data"].reshape(sup[-1] - 1, 2, 2)
        for i in range(2):
            for j in range(2):
                env.eq(R[:, i, j], np.conj(u[i]) * np.roll(u[j], 1), "overlap of the pair, shifted in the basis asked for")


def overlap(env, x, m, ds, spec=None):
    spec = spec or [("P", a) for a in x]
    n = int(np.prod([size(b) for b in spec]))
    d = env.cvec("d", n, m, m)
    return d, {"basis": tup(B(spec, ds), tup(fb(m), fb(m))), "data": d.reshape(-1)}


@harness("C22", [{"x": [4]}, {"x": [3, 2]}, {"x": [1, 3]}, {"x": [2, 2, 3]}], [{"x": [5, 4]}, {"x": [3, 4, 3]}, {"x": [8]}, {"x": [2, 5, 2]}], T)
def convert(env, x):
    """conversion of the points only; position to momentum and back"""
    from surface_potential_analysis.overlap import conversion as C
    from surface_potential_analysis.overlap.overlap import get_single_overlap

    ds = deltas(len(x))
    m = env.pick("states", [1, 2])
    a = env.pick("basis", [[("P", n) for n in x], [("K", n) for n in x], [("TP", n - (n > 1), n) for n in x]])
    d, o = overlap(env, x, m, ds, a)
    before = snap(d)
    lists = o["basis"][1]
    for b, f in (([("K", n) for n in x], C.convert_overlap_to_momentum_basis), ([("P", n) for n in x], C.convert_overlap_to_position_basis)):
        r = f(o)
        isbasis(env, r["basis"][0], b)
        has_deltas(env, r["basis"][0], ds)
        env.true(r["basis"][1] is lists and r["data"].shape == (int(np.prod(x)) * m * m,), "pairs of states")
        T_ = conv(a, b)
        want = T_ @ d.reshape(-1, m * m)
        env.eq(r["data"].reshape(-1, m * m), want, "converted points")
        back = C.convert_overlap_to_basis(r, o["basis"][0])
        env.true(back["basis"][0] is o["basis"][0] and back["basis"][1] is lists, "basis asked for")
        env.eq(back["data"], o["data"], "converts back")
    unchanged(env, before, d)
    for i in range(m):
        for j in range(m):
            for idx in ((i, j), i * m + j):
                q = get_single_overlap(o, idx)
                env.true(q["basis"][0] is o["basis"][0] and tuple(q["basis"][1].shape) == (1, 1), "a single overlap")
                env.eq(q["data"], d[:, i, j], "overlap of the pair")


def wrapped(x, axes=None):
    """grid points nearest the origin along the wrapped axes"""
    out = []
    for q in grid(x):
        out.append([(p + n // 2) % n - n // 2 if axes is None or i in axes else p for i, (p, n) in enumerate(zip(q, x))])
    return np.array(out).T


PAIRS = [{"x": [3, 2]}, {"x": [2, 5]}, {"x": [3, 2, 2]}, {"x": [4, 3, 1]}]


@harness("C22", PAIRS, [{"x": [5, 4]}, {"x": [3, 3, 4]}], T)
def interpolate(env, x):
    """sum over the grid of the overlap times exp(i k.x), the points wrapped around the origin in the plane"""
    from surface_potential_analysis.overlap import conversion as C
    from surface_potential_analysis.overlap import interpolation as I

    nd = len(x)
    ds = deltas(nd)
    d, o = overlap(env, x, 1, ds)
    D = np.array(ds).T  # columns: lattice vectors
    before = snap(d)
    # the wave vectors of the grid: exact samples of the transform
    G = 2 * np.pi * np.linalg.inv(D)  # rows: reciprocal vectors
    ks = np.array(list(itertools.product(*[freqs(n) for n in x])))
    K = (ks @ G).T
    f = I.get_overlap_momentum_interpolator(o)
    mom = C.convert_overlap_to_momentum_basis(o)["data"]
    flat = {tuple(int(v) for v in k): i for i, k in enumerate(ks)}

    def neg(k):
        return flat[tuple(next(f_ for f_ in freqs(n) if (f_ + int(v)) % n == 0) for v, n in zip(k, x))]

    opposite = [neg(k) for k in ks]
    env.eq(f(K), mom[opposite] * np.sqrt(np.prod(x)), "transform at the samples")
    env.eq(f(K.reshape(nd, x[0], -1)), f(K).reshape(x[0], -1), "shape of the points asked for")
    g = I.get_overlap_momentum_interpolator_k_fractions(o)
    env.eq(g(tuple(ks.T)), f(K), "numbers of the wave vectors")
    # anywhere
    k = env.rvec("k", nd, 2)
    X = D @ (wrapped(x, (0, 1)) / np.array(x)[:, None])
    got = f(k)
    for j in range(2):
        env.eq(got[j], sum(d[i, 0, 0] * np.exp(1j * sum(X[a, i] * k[a, j] for a in range(nd))) for i in range(len(X[0]))), "transform of the overlap")
    W = wrapped(x, (0, 1)) / np.array(x)[:, None]
    got = g(tuple(k))
    for j in range(2):
        env.eq(got[j], sum(d[i, 0, 0] * np.exp(2j * np.pi * sum(W[a, i] * k[a, j] for a in range(nd))) for i in range(len(W[0]))), "transform at fractional numbers")
    unchanged(env, before, d)


@harness("C22", [{"x": [3, 2, 2]}, {"x": [2, 4, 3]}, {"x": [4, 3, 1]}], [{"x": [3, 3, 5]}], T)
def interpolate_flat(env, x):
    """at no wave vector across the surface: the transform of the sum across the surface"""
    from surface_potential_analysis.overlap import interpolation as I

    ds = [np.array([1.7, 0.4, 0.0]), np.array([-0.6, 2.3, 0.0]), np.array([0.0, 0.0, 1.9])]
    d, o = overlap(env, x, 1, ds)
    before = snap(d)
    k = env.rvec("k", 2, 2)
    full = I.get_overlap_momentum_interpolator(o)
    k3 = env.array([list(k[0]), list(k[1]), [0.0, 0.0]])
    f = I.get_overlap_momentum_interpolator_flat(o)
    env.eq(f(k), full(k3), "the transform at no wave vector across the surface")
    unchanged(env, before, d)


@harness("C22", [{"x": [3, 2, 2]}], [{"x": [2, 3, 3]}], T)
def interpolate_largest(env, x):
    """with a number of points, those of the largest overlap"""
    from surface_potential_analysis.overlap import interpolation as I

    ds = [np.array([1.7, 0.4, 0.0]), np.array([-0.6, 2.3, 0.0]), np.array([0.0, 0.0, 1.9])]
    plane = x[0] * x[1]
    order = np.random.RandomState(plane).permutation(plane)
    n = env.pick("points", [0, 1, 2, plane - 1, plane, plane + 3])
    big = env.real("big", 1.0, 3.0)
    # the sum across the surface at each point is of known order
    w = [-0.5, *[1.5 / (x[2] - 1)] * (x[2] - 1)]
    c = [(-1) ** i * (1 + int(order[i])) for i in range(plane)]
    d = env.array([big * (c[i] * w[z]) for i in range(plane) for z in range(x[2])])
    o = {"basis": tup(B([("P", a) for a in x], ds), tup(fb(1), fb(1))), "data": d}
    k = env.rvec("k", 2, 1)
    X = (np.array(ds).T @ (wrapped(x, (0, 1)) / np.array(x)[:, None]))[:2].reshape(2, plane, x[2])[:, :, 0]
    keep = [i for i in range(plane) if order[i] >= plane - n]
    got = I.get_overlap_momentum_interpolator_flat(o, n)(k)
    env.eq(got, env.array([sum((big * c[i] * np.exp(1j * (X[0, i] * k[0, 0] + X[1, i] * k[1, 0])) for i in keep), 0.0)]), "the largest")


@harness("C22", [{"shape": [3]}, {"shape": [2, 2]}], [], T)
def angle_average(env, shape):
    """average over directions of the squared modulus at each wave number"""
    from surface_potential_analysis.overlap.interpolation import get_angle_averaged_diagonal_overlap_function

    q = env.rvec("q", *shape, lo=0.1)
    a, b = env.cplx("a"), env.cplx("b")
    before = snap(q)
    m = env.pick("samples", [4, 5])

    def isotropic(k):
        return a + b * (k[0] ** 2 + k[1] ** 2)

    r = get_angle_averaged_diagonal_overlap_function(isotropic, q, theta_samples=m)
    env.true(r.shape == tuple(shape), "one value for every wave number")
    w = a + b * q**2
    env.eq(r, np.real(w) ** 2 + np.imag(w) ** 2, "squared modulus")
    seen = []

    def record(k):
        seen.append(k)
        return a * k[0]

    r = get_angle_averaged_diagonal_overlap_function(record, q, theta_samples=m)
    k0 = [np.asarray([1.0])[0] * 0] if not seen else seen
    env.true(len(k0) == q.size, "one circle for every wave number")
    for i, k in enumerate(seen):
        qq = q.reshape(-1)[i]
        env.eq(k[0] ** 2 + k[1] ** 2, qq**2 * np.ones(m), "wave number")
    s2 = [np.sum(k[0] ** 2) / m for k in seen]
    env.eq(r.reshape(-1), env.array([(np.real(a) ** 2 + np.imag(a) ** 2) * s for s in s2]), "average over the directions")
    unchanged(env, before, q)


@harness("C22", [{}], [], ("overlap.overlap.get_overlap_cache_filename",))
def filename(env):
    """different pairs of states never share a cache file; pairs out of reach have none"""
    from surface_potential_analysis.overlap.overlap import get_overlap_cache_filename as f

    off = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]
    x = (env.pick("i", [0, 1]), env.pick("j", [0, 1]), env.pick("offset", off))
    names = {}
    for o in off:
        for k in (0, 1):
            for y in (((k, x[1]), (x[2], o)), ((x[0], k), (o, x[2]))):
                n = f(*y[0], *y[1])
                env.true(isinstance(n, str) and names.setdefault(n, y) == y, "one file for one pair")
    env.true(f(x[0], x[1]) == f(x[0], x[1], (0, 0), (0, 0)), "no offset unless asked for")
    q = [env.int(f"q{k}", -9, 9) for k in range(4)]
    far = env.pick("far", [0, 1, 2, 3])
    env.assume((q[far] < -1) | (q[far] > 1)) if env.sym else env.assume(not -2 < q[far] < 2)
    for k in range(4):
        if k != far:
            q[k] = 0
    env.true(f(0, 1, (q[0], q[1]), (q[2], q[3])) is None, "no file beyond the neighbouring cells")
    i = env.int("band", 2, 9)
    env.true(f(i, 0) is None and f(0, i) is None, "no file for higher bands")
