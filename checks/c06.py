"""C06: lattice geometry, reciprocal lattice, Brillouin zones."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import freqs, fsize, is_k

SLOW = ['folding', 'path_lengths', 'wrapped_paths', 'plane_coordinates']  # larger configurations in the thorough tier only
BOUNDS = "1-3 dimensions; symbolic skew cells (diagonal 0.5..2, off-diagonal +-0.35) for duals, volumes, points, path lengths; fixed skew cells with symbolic points and integer indices (+-2 periods) for projections, wrapped paths and zone folding; grids of 1-5 points per axis"
T = ("basis.util.BasisUtil.*", "stacked_basis.util.project_*", "stacked_basis.util.get_*_coordinates_in_axes", "stacked_basis.util.calculate_*", "util.util.calculate_cumulative_distances_along_path", "stacked_basis.brillouin_zone.*", "stacked_basis.build.*")

CELLS = {
    1: [[[2.0]], [[0.7]]],
    2: [[[2.0, 0.0], [1.0, 1.5]], [[1.0, 0.5], [-0.25, 2.0]], [[1.0, 0.0], [0.0, 1.5]], [[1.0, 0.0], [0.5, np.sqrt(3) / 2]]],
    3: [[[2.0, 0.0, 0.5], [1.0, 1.5, 0.0], [0.25, 0.0, 3.0]], [[1.0, 0.0, 0.0], [0.5, np.sqrt(3) / 2, 0.0], [0.0, 0.0, 2.0]]],
}


def cell(env, d, full=True):
    c = [[env.real(f"c{i}{j}", 0.5, 2.0) if i == j else (env.real(f"c{i}{j}", -0.35, 0.35) if full or j < i else 0.0) for j in range(d)] for i in range(d)]
    return env.array(c)


def adj_t(c):
    """transposed adjugate: the rows are det * dual vectors"""
    d = len(c)
    if d == 1:
        return [[1.0]]
    if d == 2:
        return [[c[1][1], -c[1][0]], [-c[0][1], c[0][0]]]
    cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]  # noqa: E731
    return [cr(c[1], c[2]), cr(c[2], c[0]), cr(c[0], c[1])]


def det(c):
    a = adj_t(c)
    return sum(c[0][j] * a[0][j] for j in range(len(c)))


def util(b):
    from surface_potential_analysis.basis.util import BasisUtil

    return BasisUtil(b)


SPECS = {
    1: [[("P", 4)], [("K", 3)], [("TP", 3, 5)], [("ETP", 2, 2, 1)]],
    2: [[("P", 2), ("P", 3)], [("K", 3), ("P", 2)], [("TP", 3, 5), ("P", 4)], [("TP", 2, 4), ("TP", 3, 4)]],
    3: [[("P", 2), ("P", 3), ("P", 2)], [("K", 2), ("TP", 3, 4), ("P", 1)]],
}


@harness("C06", [{"d": d, "k": k} for d in SPECS for k in range(len(SPECS[d]))], [], T)
def lattice(env, d, k):
    """duals, volumes, steps and sample points of a symbolic cell"""
    spec = SPECS[d][k]
    c = cell(env, d)
    b = B(spec, [c[i] for i in range(d)])
    u = util(b)
    rows = [[c[i, j] for j in range(d)] for i in range(d)]
    V, A = det(rows), adj_t(rows)
    env.eq(u.delta_x_stacked, c, "lattice vectors")
    env.eq(u.fundamental_delta_x_stacked, c, "fundamental lattice vectors")
    env.eq(u.volume, V, "volume")
    dk = u.dk_stacked
    env.eq(dk * V, 2 * np.pi * env.array(A), "reciprocal vectors")
    env.eq(u.fundamental_dk_stacked * V, 2 * np.pi * env.array(A), "fundamental reciprocal vectors")
    env.eq(np.dot(c, np.transpose(dk)), 2 * np.pi * np.eye(d), "duality")
    env.eq(u.reciprocal_volume * V, (2 * np.pi) ** d, "reciprocal volume")
    n, N = [size_of(s) for s in spec], [fsize(s) for s in spec]
    env.true(tuple(u.shape) == tuple(n), "shape")
    env.true(tuple(u.fundamental_shape) == tuple(N), "fundamental shape")
    for i in range(d):
        env.eq(u.dx_stacked[i] * n[i], c[i], "dx")
        env.eq(u.fundamental_dx_stacked[i] * N[i], c[i], "fundamental dx")
        env.eq(u.delta_k_stacked[i] * V, 2 * np.pi * n[i] * env.array(A[i]), "delta_k")
        env.eq(u.fundamental_delta_k_stacked[i] * V, 2 * np.pi * N[i] * env.array(A[i]), "fundamental delta_k")
        a = util(b[i])
        env.eq(a.delta_x, c[i], "axis length")
        env.eq(a.x_points, env.array([[c[i, j] * (q / n[i]) for q in range(n[i])] for j in range(d)]), "axis points")
        env.eq(a.fundamental_x_points, env.array([[c[i, j] * (q / N[i]) for q in range(N[i])] for j in range(d)]), "fundamental axis points")

    def points(m, js, cols):
        return env.array([[sum(js_t[i] / m[i] * cols[i][j] for i in range(d)) for js_t in js] for j in range(d)])

    pos = lambda m: list(itertools.product(*[range(q) for q in m]))  # noqa: E731
    mom = lambda m: list(itertools.product(*[freqs(q) for q in m]))  # noqa: E731
    one = [1] * d
    env.eq(u.x_points_stacked, points(n, pos(n), rows), "x points")
    env.eq(u.fundamental_x_points_stacked, points(N, pos(N), rows), "fundamental x points")
    env.eq(u.k_points * V, 2 * np.pi * points(one, mom(n), A), "k points")
    env.eq(u.fundamental_stacked_k_points * V, 2 * np.pi * points(one, mom(N), A), "fundamental k points")
    i = env.pick("flat", range(int(np.prod(n))))
    t = tuple(int(q) for q in np.unravel_index(i, n))
    env.eq(u.get_x_points_at_index(i), points(n, [t], rows)[:, 0], "x at flat index")
    env.eq(u.get_x_points_at_index(t), points(n, [t], rows)[:, 0], "x at index")
    env.eq(u.get_k_points_at_index(t) * V, 2 * np.pi * points(one, [t], A)[:, 0], "k at index")
    env.eq(u.get_k_points_at_index(i) * V, 2 * np.pi * points(one, [t], A)[:, 0], "k at flat index")


def size_of(s):
    from .oracle import size

    return size(s)


@harness("C06", [{"d": d, "c": c} for d in CELLS for c in range(len(CELLS[d]))], [], T)
def indexed_points(env, d, c):
    """points at symbolic integer indices"""
    C = np.array(CELLS[d][c])
    sh = [3, 2, 4][:d]
    u = util(B([("P", n) for n in sh], list(C)))
    K = 2 * np.pi * np.linalg.inv(C).T
    t = tuple(env.int(f"t{k}", -20, 20) for k in range(d))
    env.eq(u.get_x_points_at_index(t), sum((t[i] / sh[i]) * C[i] for i in range(d)), "x")
    env.eq(u.get_k_points_at_index(t), sum(t[i] * K[i] for i in range(d)), "k")
    arr = tuple(env.array([env.int(f"a{k}{j}", -20, 20) for j in range(2)]) for k in range(d))
    env.eq(u.get_x_points_at_index(arr), sum(np.outer(C[i], arr[i]) / sh[i] for i in range(d)), "x array")
    env.eq(u.get_k_points_at_index(arr), sum(np.outer(K[i], arr[i]) for i in range(d)), "k array")


@harness("C06", [{"d": 1}, {"d": 2}, {"d": 3}], [], T)
def constructors(env, d):
    """constructors keep the lattice vectors they are given"""
    from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis, FundamentalTransformedBasis, FundamentalTransformedPositionBasis
    from surface_potential_analysis.stacked_basis import build, conversion

    c = cell(env, d)
    sh = [3, 1, 2][:d]
    new = [2, 4, 5][:d]
    b = build.position_basis_from_shape(tuple(sh), c)
    p = B([("TP", n, n + 1) for n in sh], [c[i] for i in range(d)])
    todo = [(b, FundamentalPositionBasis, sh), (build.position_basis_from_shape(tuple(new)), FundamentalPositionBasis, new)]
    todo += [(conversion.stacked_basis_as_fundamental_position_basis(p), FundamentalPositionBasis, [n + 1 for n in sh]), (conversion.stacked_basis_as_fundamental_momentum_basis(p), FundamentalTransformedPositionBasis, [n + 1 for n in sh])]
    todo += [(conversion.stacked_basis_as_fundamental_with_shape(p, tuple(new)), FundamentalPositionBasis, new)]
    if d == 3:
        todo += [(build.position_basis_3d_from_parent(p, tuple(new)), FundamentalPositionBasis, new), (build.position_basis_3d_from_shape(tuple(new), c), FundamentalPositionBasis, new)]
        todo += [(build.momentum_basis_3d_from_resolution(tuple(new), tuple(c[i] for i in range(3))), FundamentalTransformedPositionBasis, new), (build.momentum_basis_3d_from_resolution(tuple(new)), FundamentalTransformedPositionBasis, new)]
    for q, (x, ty, s) in enumerate(todo):
        env.true(x.shape == tuple(s), f"shape {q}")
        env.true(all(type(x[i]) is ty or isinstance(x[i], ty) for i in range(d)), f"kind {q}")
        want = np.eye(d) if q == 1 or (d == 3 and q == 8) else c
        for i in range(d):
            env.eq(x[i].delta_x, want[i], f"lattice vectors {q}")
    for f, ty in ((build.fundamental_stacked_basis_from_shape, FundamentalBasis), (build.fundamental_transformed_stacked_basis_from_shape, FundamentalTransformedBasis)):
        x = f(tuple(new))
        env.true(x.shape == tuple(new) and all(isinstance(x[i], ty) for i in range(d)), "plain basis")


@harness("C06", [{"d": 1}, {"d": 2}], [{"d": 3}], T)
def path_lengths(env, d):
    """path lengths through a symbolic cell"""
    from surface_potential_analysis.stacked_basis import util as U
    from surface_potential_analysis.util.util import calculate_cumulative_distances_along_path

    c = cell(env, d, full=d < 3)
    sh = [4, 3, 2][:d]
    b = B([("P", n) for n in sh], [c[i] for i in range(d)])
    path = np.array([[0, 1, 3, 0, 0, 2], [0, 2, 1, 1, 2, 2], [1, 1, 0, 1, 0, 0]][:d])
    diff = path[:, 1:] - path[:, :-1]
    rows = [[c[i, j] for j in range(d)] for i in range(d)]
    V, A = det(rows), adj_t(rows)
    for f, cols, m, s in ((U.calculate_cumulative_x_distances_along_path, rows, sh, 1.0), (U.calculate_cumulative_k_distances_along_path, A, [1] * d, V / (2 * np.pi))):
        r = f(b, path)
        env.true(r.shape == (path.shape[1],), "one distance per point")
        env.eq(r[0], 0.0, "starts at zero", scale=1.0)
        for q in range(diff.shape[1]):
            step = (r[q + 1] - r[q]) * s
            v = [sum(diff[i, q] / m[i] * cols[i][j] for i in range(d)) for j in range(d)]
            env.eq(step * step, sum(x * x for x in v), "squared length of a step")
            env.ge(r[q + 1], r[q], "increasing")
    grid = env.rvec("g", d, *sh)
    r = calculate_cumulative_distances_along_path(path, grid)
    env.eq(r[0], 0.0, "starts at zero", scale=1.0)
    for q in range(diff.shape[1]):
        step = r[q + 1] - r[q]
        e = grid[(slice(None), *path[:, q + 1])] - grid[(slice(None), *path[:, q])]
        env.eq(step * step, np.sum(e * e), "squared length of a step")
        env.ge(r[q + 1], r[q], "increasing")


@harness("C06", [{"d": 1, "c": 0}, {"d": 2, "c": 0}, {"d": 2, "c": 1}, {"d": 3, "c": 0}], [{"d": 2, "c": 3}, {"d": 3, "c": 1}], T)
def wrapped_paths(env, d, c):
    """steps of a path, optionally wrapped into the cell"""
    from surface_potential_analysis.stacked_basis import util as U

    C = np.array(CELLS[d][c])
    sh = [4, 3, 5][:d]
    b = B([("P", n) for n in sh], list(C))
    path = env.array([[env.int(f"p{i}{j}", 0, sh[i] - 1) for j in range(3)] for i in range(d)])
    plain = U.calculate_distances_along_path(b, path)
    wrap = U.calculate_distances_along_path(b, path, wrap_distances=True)
    env.true(plain.shape == (d, 2), "one step per pair of points")
    sgn = env.pick("step", [0, 1])
    env.true(wrap.shape == (d, 2), "one wrapped step per pair of points")
    for i in range(d):
        e = path[i, sgn] - path[i, sgn + 1]
        env.eq(plain[i, sgn], e, "step")
        w = wrap[i, sgn]
        env.eq((w - e) % sh[i], 0, "wrapped step equivalent")
        env.true(2 * w <= sh[i], "at most half a period")
        env.true(2 * w >= -sh[i], "at least minus half a period")
    K = 2 * np.pi * np.linalg.inv(C).T
    for f, X in ((U.calculate_cumulative_x_distances_along_path, C / np.array(sh)[:, None]), (U.calculate_cumulative_k_distances_along_path, K)):
        for flag, st in ((False, plain), (True, wrap)):
            r = f(b, path, wrap_distances=flag)
            v = sum(np.outer(X[i], st[i]) for i in range(d))
            s = r[sgn + 1] - r[sgn]
            env.eq(s * s, np.sum(v[:, sgn] * v[:, sgn]), "squared length", scale=1.0)
            env.ge(s, 0.0, "not negative")


AXES = {1: [(0,)], 2: [(0,), (1,), (0, 1), (1, 0)], 3: [(0,), (2,), (0, 1), (2, 0), (1, 2), (2, 1), (0, 1, 2), (1, 2, 0), (2, 1, 0)]}


@harness("C06", [{"d": d, "c": c} for d in CELLS for c in range(len(CELLS[d]))], [], T)
def projections(env, d, c):
    """projection keeps lengths and scalar products of in-plane vectors, drops the rest"""
    from surface_potential_analysis.stacked_basis import util as U

    C = np.array(CELLS[d][c])
    sh = [3, 2, 2][:d]
    b = B([("P", n) for n in sh], list(C))
    K = 2 * np.pi * np.linalg.inv(C).T
    for axes in AXES[d]:
        for X, f, g in ((C, U.project_x_points_along_axes, U.get_fundamental_stacked_x_points_projected_along_axes), (K, U.project_k_points_along_axes, U.get_fundamental_stacked_k_points_projected_along_axes)):
            tag = "".join(map(str, axes)) + ("x" if X is C else "k")
            a = env.rvec("a" + tag, len(axes))
            e = env.rvec("b" + tag, len(axes))
            v = sum(a[i] * X[ax] for i, ax in enumerate(axes))
            w = sum(e[i] * X[ax] for i, ax in enumerate(axes))
            p = f(env.array([[v[j], w[j]] for j in range(d)]), b, axes)
            env.true(p.shape == (len(axes), 2), "shape")
            env.eq(np.dot(p[:, 0], p[:, 0]), np.dot(v, v), "length")
            env.eq(np.dot(p[:, 0], p[:, 1]), np.dot(v, w), "scalar product")
            # the first coordinate is along the first axis
            env.eq(p[0, 0] * np.linalg.norm(X[axes[0]]), np.dot(v, X[axes[0]]), "first axis")
            q = f(env.array([[x] for x in X[axes[0]]]), b, axes)
            env.eq(q[:, 0], np.array([np.linalg.norm(X[axes[0]])] + [0.0] * (len(axes) - 1)), "first axis alone")
            # the rest: orthogonal projection of an arbitrary vector
            y = env.rvec("y" + tag, d)
            py = f(env.array([[t] for t in y]), b, axes)
            env.eq(np.dot(py[:, 0], p[:, 0]), np.dot(y, v), "orthogonal projection")
            pts = util(b).fundamental_x_points_stacked if X is C else util(b).fundamental_stacked_k_points
            env.eq(g(b, axes), f(pts, b, axes), "points of the basis")


@harness("C06", [{"d": 2, "c": 0}, {"d": 3, "c": 0}], [{"d": 2, "c": 1}, {"d": 3, "c": 1}], T)
def plane_coordinates(env, d, c):
    """grids of coordinates in a plane through an index"""
    from surface_potential_analysis.stacked_basis import util as U

    C = np.array(CELLS[d][c])
    sh = [3, 2, 4][:d]
    b = B([("P", n) for n in sh], list(C))
    for axes in AXES[d]:
        rest = [i for i in range(d) if i not in axes]
        for idx in [None, tuple(1 for _ in rest)]:
            for g, h, mom in ((U.get_x_coordinates_in_axes, U.project_x_points_along_axes, False), (U.get_k_coordinates_in_axes, U.project_k_points_along_axes, True)):
                r = g(b, axes, idx)
                env.true(r.shape == (len(axes), *[sh[a] for a in axes]), "shape")
                u = util(b)
                for pos in np.ndindex(*[sh[a] for a in axes]):
                    full = [0] * d
                    for a, q in zip(axes, pos):
                        full[a] = freqs(sh[a])[q] if mom else q
                    for a, q in zip(rest, (0,) * len(rest) if idx is None else idx):
                        full[a] = freqs(sh[a])[q] if mom else q
                    pt = (u.get_k_points_at_index if mom else u.get_x_points_at_index)(tuple(full))
                    env.eq(r[(slice(None), *pos)], h(pt.reshape(d, 1), b, axes)[:, 0], "coordinate")


@harness("C06", [{"d": 2}], [], T)
def symbolic_projection(env, d):
    """projection in a symbolic skew cell"""
    from surface_potential_analysis.stacked_basis import util as U

    c = cell(env, d)
    b = B([("P", 2)] * d, [c[i] for i in range(d)])
    v = env.rvec("v", d)
    pts = env.array([[x] for x in v])
    for axes in ((0, 1), (1, 0)):
        p = U.project_x_points_along_axes(pts, b, axes)[:, 0]
        r = c[axes[0]]
        L = np.linalg.norm(r)
        env.eq(p[0] * L, np.dot(v, r), "component along the first axis")
        env.eq(p[1] * p[1] + p[0] * p[0], np.dot(v, v), "length")


@harness("C06", [{"d": d} for d in (1, 2, 3)], [], T)
def bragg(env, d):
    """bragg points are the lattice points of the reciprocal cell; plane distance; folding is a translation"""
    from surface_potential_analysis.stacked_basis import brillouin_zone as Z

    c = cell(env, d, full=d < 3)
    sh = [3, 2, 4][:d]
    rows = [[c[i, j] for j in range(d)] for i in range(d)]
    V, A = det(rows), adj_t(rows)
    b = B([("P", n) for n in sh], [c[i] for i in range(d)])
    for nb in (1, 2) if d < 3 else (1,):
        want = list(itertools.product(*[freqs(2 * nb + 1)] * d))
        idx = Z.get_all_brag_point_index(b, n_bands=nb)
        env.eq(env.array(list(idx)), np.array([[w[i] * sh[i] for w in want] for i in range(d)]), "indices")
        pts = Z.get_all_brag_point(b, n_bands=nb)
        env.true(pts.shape == (d, len(want)), "points")
        sel = env.pick("point", [0, 1, len(want) - 1, len(want) // 2])
        env.eq(pts[:, sel] * V, 2 * np.pi * env.array([sum(want[sel][i] * sh[i] * A[i][j] for i in range(d)) for j in range(d)]), "point")
    g = env.array([env.real(f"g{i}", 0.2, 1.0) for i in range(d)])
    p = env.rvec("p", d)
    dist = Z.get_bragg_plane_distance(g, p)
    norm = np.linalg.norm(g)
    env.eq((dist + norm / 2) * norm, np.dot(g, p), "distance from the plane")
    m = env.rvec("m", d, 2)
    dist = Z.get_bragg_plane_distance(g, m)
    env.true(dist.shape == (2,), "distances")
    for j in range(2):
        env.eq((dist[j] + norm / 2) * norm, np.dot(g, m[:, j]), "distances from the plane")
    t = tuple(env.int(f"t{i}", -9, 9) for i in range(d))
    h = tuple(env.int(f"h{i}", -9, 9) for i in range(d))
    f = Z.fold_point_in_bragg_plane(h, t)
    for i in range(d):
        env.eq(f[i], t[i] - h[i], "folded")




@harness("C06", [{"d": 1, "c": 0}, {"d": 2, "c": 0}, {"d": 2, "c": 2}, {"d": 2, "c": 3}, *[{"d": 3, "c": 1, "rest": r} for r in ([0, 0], [2, -1], [-1, 1])]], [{"d": 1, "c": 1}, {"d": 2, "c": 1}, {"d": 3, "c": 1}], T)
def folding(env, d, c, rest=()):
    """decrementing the zone: equivalent, closer unless already in the first zone, nearest plane first"""
    from surface_potential_analysis.stacked_basis import brillouin_zone as Z

    C = np.array(CELLS[d][c])
    sh = [4, 3, 2][:d]
    b = B([("P", n) for n in sh], list(C))
    K = 2 * np.pi * np.linalg.inv(C).T
    R = 1.5 if d < 3 else 1.0
    t = (*[env.int(f"t{i}", -int(R * sh[i]), int(R * sh[i])) for i in range(d - len(rest))], *rest)
    form = "single" if rest else env.pick("form", ["single", "array"] if d == 1 or c == 1 else ["single"])
    arg = t if form == "single" else tuple(env.array([x]) for x in t)
    fn = Z.decrement_brillouin_zone_3d if d == 3 else Z.decrement_brillouin_zone
    r = fn(b, arg)
    env.true(len(r) == d, "one index per axis")
    if form == "array":
        env.true(all(x.shape == (1,) for x in r), "shape kept")
        r = tuple(x[0] for x in r)
    tol = 1e-5 * min(np.linalg.norm(k) for k in K)
    k0 = sum(t[i] * K[i] for i in range(d))
    k1 = sum(r[i] * K[i] for i in range(d))
    near = []
    for w in itertools.product((0, 1, -1), repeat=d):
        if any(w):
            G = sum(w[i] * sh[i] * K[i] for i in range(d))
            near.append((w, np.dot(k0, G) / np.linalg.norm(G) - np.linalg.norm(G) / 2))
    moved = [bool(r[i] != t[i]) for i in range(d)]
    if not any(moved):
        for _, q in near:
            env.ge(10 * tol, q, "a point left alone lies in the first zone")
        return
    hit = [w for w, _ in near if all(bool(t[i] - r[i] == w[i] * sh[i]) for i in range(d))]
    env.true(len(hit) == 1, "translated by one bragg vector")
    mine = dict(near)[hit[0]]
    env.ge(np.dot(k0, k0), np.dot(k1, k1), "not farther from the origin")
    for w, q in near:
        if w != hit[0] and bool(q > 10 * tol):
            env.ge(q + 1e-6, mine, "the closest plane inside the point")
