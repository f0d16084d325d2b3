"""C05: flat, stacked and wrapped indices."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import freqs

SLOW = ['largest']  # larger configurations in the thorough tier only
BOUNDS = "1-4 axes of 1-5 points; indices symbolic integers in +-50 (all of them at once), index arrays of 1-2 entries; cells with arbitrary skew from a fixed set, points symbolic; slices of arrays with up to 4 axes at every axis"
T = ("basis.util.BasisUtil.get_flat_index", "basis.util.BasisUtil.get_stacked_index", "basis.util.BasisUtil.*n*_points", "basis.util.get_twice_average_nx", "stacked_basis.util.wrap_index_around_origin", "stacked_basis.util.wrap_x_point_around_origin", "stacked_basis.util._wrap_*", "stacked_basis.util.get_x01_mirrored_index", "stacked_basis.util.get_max_idx", "util.util.slice_*", "util.util.get_data_in_axes", "util.util.get_position_in_sorted")

SHAPES = {1: [(1,), (2,), (3,), (4,), (5,)], 2: [(2, 3), (3, 2), (1, 4), (4, 4)], 3: [(2, 3, 2), (3, 1, 4), (5, 4, 3)], 4: [(2, 3, 2, 3)]}
CELL = {1: [[2.0]], 2: [[2.0, 0.0], [1.0, 1.5]], 3: [[2.0, 0.0, 0.5], [1.0, 1.5, 0.0], [0.25, 0.0, 3.0]]}


def util(sh):
    from surface_potential_analysis.basis.util import BasisUtil

    return BasisUtil(B([("P", n) for n in sh]))


@harness("C05", [{"d": 1}, {"d": 2}, {"d": 3}], [{"d": 4}], T)
def flat_stacked(env, d):
    """flat <-> stacked is a row-major bijection; out-of-range raises, wrap mode wraps"""
    sh = env.pick("shape", SHAPES[d])
    u = util(sh)
    n = int(np.prod(sh))
    w = [int(np.prod(sh[i + 1 :], dtype=int)) for i in range(d)]
    i = env.int("i", 0, n - 1)
    s = u.get_stacked_index(i)
    env.true(len(s) == d, "one index per axis")
    env.eq(sum(a * b for a, b in zip(s, w)), i, "row-major position")
    for a, m in zip(s, sh):
        env.true(a >= 0, "not negative")
        env.true(a <= m - 1, "within the axis")
    env.eq(u.get_flat_index(tuple(s)), i, "flat of stacked")
    t = tuple(env.int(f"t{k}", 0, m - 1) for k, m in enumerate(sh))
    f = u.get_flat_index(t)
    env.eq(f, sum(a * b for a, b in zip(t, w)), "flat index")
    for a, b in zip(u.get_stacked_index(f), t):
        env.eq(a, b, "stacked of flat")
    t = tuple(env.int(f"w{k}", -50, 50) for k in range(d))
    f = u.get_flat_index(t, mode="wrap")
    env.true(f >= 0, "wrapped index not negative")
    env.true(f <= n - 1, "wrapped index in range")
    for a, b, m in zip(u.get_stacked_index(f), t, sh):
        env.eq((a - b) % m, 0, "wraps modulo the size of the axis")


@harness("C05", [{"d": 1}, {"d": 2}, {"d": 3}], [], T)
def arrays(env, d):
    """index arrays and out-of-range indices"""
    sh = env.pick("shape", SHAPES[d][:3])
    u = util(sh)
    n = int(np.prod(sh))
    t = tuple(env.array([env.int(f"t{k}_{j}", 0, m - 1) for j in range(2)]) for k, m in enumerate(sh))
    f = u.get_flat_index(t)
    for j in range(2):
        env.eq(f[j], u.get_flat_index(tuple(x[j] for x in t)), "arrays: entry by entry")
    g = u.get_stacked_index(f)
    for a, b in zip(g, t):
        env.eq(a, b, "arrays: there and back")
    ax = env.pick("axis", list(range(d)))
    bad = env.int("bad", -3, 8)
    ok = bool(bad >= 0) and bool(bad <= sh[ax] - 1)
    idx = tuple(bad if k == ax else 0 for k in range(d))
    if ok:
        env.eq(u.get_flat_index(idx), bad * int(np.prod(sh[ax + 1 :], dtype=int)), "in range")
    else:
        env.raises(ValueError, lambda: u.get_flat_index(idx), "out of range")
        env.eq(u.get_flat_index(idx, mode="wrap"), (bad % sh[ax]) * int(np.prod(sh[ax + 1 :], dtype=int)), "wrapped")
    x = env.int("flat", -2, 70)
    if bool(x > n - 1) or bool(x < 0):
        env.raises(ValueError, lambda: u.get_stacked_index(x), "flat out of range")


@harness("C05", [{"d": 1}, {"d": 2}, {"d": 3}], [{"d": 4}], T)
def points(env, d):
    """lists of position and momentum indices: row-major, each once, momentum in FFT order"""
    sh = env.pick("shape", SHAPES[d])
    k = env.pick("kind", ["P", "K", "TP"])
    specs = [{"P": ("P", n), "K": ("K", n), "TP": ("TP", max(n - 1, 1), n)}[k] for n in sh]
    from surface_potential_analysis.basis.util import BasisUtil

    u = BasisUtil(B(specs))
    own = tuple(N(s) for s in specs)
    for got, e in ((u.stacked_nx_points, own), (u.fundamental_stacked_nx_points, sh)):
        env.true(len(got) == d, "one list per axis")
        for ax, g in enumerate(np.meshgrid(*[np.arange(n) for n in e], indexing="ij")):
            env.eq(got[ax], g.reshape(-1), "nx")
    for got, e in ((u.stacked_nk_points, own), (u.fundamental_stacked_nk_points, sh)):
        env.true(len(got) == d, "one list per axis")
        for ax, g in enumerate(np.meshgrid(*[np.array(freqs(n)) for n in e], indexing="ij")):
            env.eq(got[ax], g.reshape(-1), "nk")
    env.eq(u.get_flat_index(tuple(x[: 1] for x in u.stacked_nk_points), mode="wrap")[0], 0, "zero momentum first")
    env.eq(u.get_flat_index(u.stacked_nk_points, mode="wrap"), np.arange(int(np.prod(own))), "momentum indices wrap to their position")


@harness("C05", [{"d": 1}, {"d": 2}, {"d": 3}], [{"d": 4}], T)
def wrapping(env, d):
    """wrapped index: equivalent, within half a period of the origin, per axis"""
    from surface_potential_analysis.stacked_basis.util import get_x01_mirrored_index, wrap_index_around_origin

    sh = env.pick("shape", SHAPES[d])
    b = B([("P", n) for n in sh] if env.pick("grid", ["own", "finer"]) == "own" else [("TP", n, n + 1 + i) for i, n in enumerate(sh)])
    idx = tuple(env.int(f"i{k}", -50, 50) for k in range(d))
    form = env.pick("origin", ["none", "stacked", "flat"])
    if form == "none":
        o, org = None, (0,) * d
    elif form == "stacked":
        o = org = tuple(env.int(f"o{k}", -20, 20) for k in range(d))
    else:
        o = env.pick("flat", sorted({0, 1 % int(np.prod(sh)), int(np.prod(sh)) - 1}))
        org = np.unravel_index(o, sh)
    axes = env.pick("axes", [None, (), *itertools.chain.from_iterable(itertools.combinations(range(d), r) for r in range(1, d + 1))])
    kw = {} if axes is None else {"axes": axes}
    r = wrap_index_around_origin(b, idx, origin=o, **kw)
    env.true(len(r) == d, "one index per axis")
    for ax in range(d):
        n = sh[ax]
        if axes is not None and ax not in axes:
            env.eq(r[ax], idx[ax], "other axes untouched")
            continue
        env.eq((r[ax] - idx[ax]) % n, 0, "equivalent modulo the size")
        dist = r[ax] - org[ax]
        env.true(2 * dist <= n, "at most half a period above the origin")
        env.true(2 * dist >= -n, "at most half a period below the origin")
        if form == "none":
            f = idx[ax] % n
            e = freqs(n)
            env.eq(r[ax], e[env.pick(f"cls{ax}", [0])] if n == 1 else r[ax], "fft representative")
            env.true(dist < n / 2 if n > 1 else dist <= 0, "half-open interval, like the fft frequencies")
            env.true(f >= 0, "class")
    arr = tuple(env.array([x, x + 1]) for x in idx)
    ra = wrap_index_around_origin(b, arr, origin=o, **kw)
    for ax in range(d):
        env.eq(ra[ax][0], r[ax], "arrays: entry by entry")
    if d >= 2:
        m = get_x01_mirrored_index(idx)
        env.true(len(m) == d, "mirror")
        for ax in range(d):
            env.eq(m[ax], idx[{0: 1, 1: 0}.get(ax, ax)], "mirrored about x0=x1")


@harness("C05", [{"d": 1}, {"d": 2}], [{"d": 3}], T)
def wrapped_points(env, d):
    """wrapped point: differs by lattice vectors, within half a cell of the origin"""
    from surface_potential_analysis.stacked_basis.util import wrap_x_point_around_origin

    A = np.array(CELL[d])
    b = tup(*[P(a) for a in A])
    m = env.pick("points", [1, 2])
    x = env.rvec("x", d, m, lo=-8.0, hi=8.0)
    o = env.pick("origin", [0, 1])
    org = env.rvec("o", d, lo=-4.0, hi=4.0) if o else np.zeros(d)
    r = wrap_x_point_around_origin(b, x, origin=org) if o else wrap_x_point_around_origin(b, x)
    env.true(tuple(r.shape) == (d, m), "shape")
    inv = np.linalg.inv(A)
    for j in range(m):
        k = inv.T @ (r[:, j] - x[:, j])
        h = inv.T @ (r[:, j] - org)
        for i in range(d):
            env.eq(np.rint(k[i]) if not env.sym else whole(env, k[i]), k[i], "differs by whole lattice vectors")
            env.true(h[i] <= 0.5 + 1e-6, "half a cell above")
            env.true(h[i] >= -0.5 - 1e-6, "half a cell below")


def whole(env, k):
    """the integer part: every non-integer symbol contributes nothing"""
    from symx.core import S, State

    k = S.lift(k)
    out = S({})
    for key, c in k.t.items():
        ints = not key[1] and all(State.reg.vars[v].kind == "int" for v, _ in key[0])
        if ints:
            out = out + S({key: round(complex(c).real)})
    return out


def P(a, n=3):
    from surface_potential_analysis.basis.basis import FundamentalPositionBasis

    return FundamentalPositionBasis(np.array(a), n)


@harness("C05", [{"d": 1}, {"d": 2}, {"d": 3}, {"d": 4}], [], T)
def slices(env, d):
    """slicing helpers pick exactly the requested positions"""
    sh = (2, 3, 4, 2)[:d]
    V = env.cvec("V", *sh)
    ax = env.pick("axis", list(range(-d, d)))
    what = env.pick("slice", [0, -1, slice(1, None), slice(None, None, 2), slice(None, 0), None])
    sliced(env, V, d, ax, what)


@harness("C05", [{"d": 1}, {"d": 2}, {"d": 3}, {"d": 4}], [], T)
def in_axes(env, d):
    """data selected in some axes, in any order"""
    from surface_potential_analysis.util.util import get_data_in_axes, get_position_in_sorted, slice_ignoring_axes

    sh = (2, 3, 4, 2)[:d]
    V = env.cvec("V", *sh)
    axes = env.pick("axes", [s for r in range(d + 1) for s in itertools.permutations(range(d), r)])
    rest = [i for i in range(d) if i not in axes]
    idx = tuple(env.pick(f"i{i}", [0, sh[i] - 1]) for i in rest)
    full = [slice(None)] * d
    for i, v in zip(rest, idx):
        full[i] = v
    env.true(slice_ignoring_axes(idx, axes) == tuple(full), "slice leaving the axes free")
    g = get_data_in_axes(V, axes, idx)
    E = np.transpose(V, (*axes, *rest))[(*[slice(None)] * len(axes), *idx)]
    env.true(tuple(g.shape) == tuple(sh[i] for i in axes), "axes in the requested order")
    env.eq(g, E, "data in the axes")
    p = get_position_in_sorted(axes)
    env.true(len(p) == len(axes) and all(sorted(axes)[q] == a for q, a in zip(p, axes)), "position in the sorted list")


def sliced(env, V, d, ax, what):
    from surface_potential_analysis.util.util import slice_along_axis

    e = [slice(None)] * d
    if what is None:
        e = e[: ax] if ax >= 0 else e[: d + ax + 1]
        e.append(None)
    else:
        e[ax] = what
    env.eq(V[slice_along_axis(what, ax)], V[tuple(e)], "slice along the axis")
    if ax == -1:
        env.eq(V[slice_along_axis(what)], V[tuple(e)], "default: the last axis")


@harness("C05", [{"d": 1}, {"d": 2}], [{"d": 3}], T)
def largest(env, d):
    """the index of the largest entry, in the axes that are not plotted"""
    from surface_potential_analysis.stacked_basis.util import get_max_idx

    sh = ((3,), (2, 2), (2, 2, 2))[d - 1]
    V = env.rvec("V", *sh)
    if env.pick("phases", [False, True]):
        V = V * np.array([1, 1j, 0.6 + 0.8j, -1j, -0.8 + 0.6j, 1j, -1, 1j])[: V.size].reshape(sh)
    axes = env.pick("axes", [s for r in range(d + 1) for s in itertools.combinations(range(d), r)])
    r = get_max_idx(B([("P", n) for n in sh]), V.reshape(-1), axes)
    rest = [i for i in range(d) if i not in axes]
    env.true(len(r) == len(rest), "one index per remaining axis")
    sub = V[tuple(dict(zip(rest, r)).get(i, slice(None)) for i in range(d))]
    flat = sub.reshape(-1) if len(axes) else [sub]
    for x in V.reshape(-1):
        hit = False
        for y in flat:
            hit = hit or bool(abs(y) >= abs(x))
        env.true(hit, "no entry is larger")


@harness("C05", [{"n": n} for n in (1, 2, 3, 4, 5)], [], T)
def twice_average(env, n):
    """twice the periodic average of two positions"""
    from surface_potential_analysis.basis.util import get_twice_average_nx

    two = env.pick("axes", [1, 2])
    sh = (n,) if two == 1 else (n, 3)
    t = get_twice_average_nx(B([("P", k) for k in sh]))
    env.true(len(t) == len(sh), "one matrix per axis")
    tot = int(np.prod(sh))
    for i, j in itertools.product(range(tot), repeat=2):
        a, b = np.unravel_index(i, sh), np.unravel_index(j, sh)
        for ax, k in enumerate(sh):
            env.true(t[ax].shape == (tot, tot), "shape")
            v = int(t[ax][i, j])
            env.true(0 <= v < 2 * k, "range")
            env.true((v - a[ax] - b[ax]) % k == 0, "equivalent to the sum")
            m = (v / 2 - a[ax] + k / 2) % k - k / 2, (v / 2 - b[ax] + k / 2) % k - k / 2
            env.true(abs(m[0]) <= k / 4 + 1e-9 and abs(m[1]) <= k / 4 + 1e-9, "on the short way between the two")
