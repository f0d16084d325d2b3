"""C02: stacked bases convert as tensor products; derived bases keep geometry."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .oracle import bm, dag, fsize, is_k, lin, mk, nsize, sbm, size, stack

SLOW = ['convert_stacked_axis']  # larger configurations in the thorough tier only
BOUNDS = "1-3 axes, axis sizes 1..5, mixed kinds with equal or different truncation per axis, nested stacks of depth 2, any axis of a 1-3 dim array"

T = ("basis.stacked_basis.TupleBasis.*", "basis.basis_like.convert_vector", "stacked_basis.conversion.*", "stacked_basis.build.*", "basis.conversion.*")


def alts(N):
    out = [("P", N), ("K", N), ("R", max(1, N - 1), N), ("TP", max(1, N - 1), N)]
    if N % 2 == 0:
        out += [("E", N // 2, 2, 1), ("ETP", N // 2, 2, -1)]
    return out


def stacks(Ns):
    return [list(x) for x in itertools.product(*[alts(N) for N in Ns])]


@harness("C02", [{"Ns": x} for x in ([4], [2, 3], [3, 3], [4, 2])], [{"Ns": x} for x in ([3, 5], [4, 4], [2, 2, 3])], T)
def convert_stacked(env, Ns):
    """every stack to every stack of the same grid, 1-d data"""
    from surface_potential_analysis.basis.basis_like import convert_dual_vector, convert_vector

    st = stacks(Ns)
    a = env.pick("source", st)
    v = env.cvec("v", nsize(a))
    A = stack(a)
    env.true(A.n == nsize(a) and A.fundamental_n == int(np.prod(Ns)), "sizes")
    env.true(tuple(A.shape) == tuple(size(s) for s in a) and tuple(A.fundamental_shape) == tuple(Ns) and A.ndim == len(Ns), "shapes")
    x = sbm(a) @ v
    xd = np.conj(sbm(a)) @ v
    for b in st[:: 1 if len(st) < 20 else 3]:
        env.eq(convert_vector(v, A, stack(b)), dag(sbm(b)) @ x, f"{a}->{b}")
        env.eq(convert_dual_vector(v, A, stack(b)), dag(sbm(b)).conj() @ xd, f"dual {a}->{b}")


@harness("C02", [{"Ns": [2, 3]}, {"Ns": [3, 2]}], [{"Ns": [2, 2, 2]}, {"Ns": [4, 3]}], T)
def convert_stacked_axis(env, Ns):
    """conversion along one axis of a larger data array leaves the other axes alone"""
    from surface_potential_analysis.basis.basis_like import convert_vector

    st = stacks(Ns)[::3]
    a = env.pick("source", st)
    b = env.pick("target", st[::-1])
    nd = env.pick("ndim", [2, 3])
    ax = env.pick("axis", list(range(-nd, nd)))
    shape = [2, 3, 4][:nd]
    shape[ax] = nsize(a)
    v = env.cvec("v", *shape)
    env.eq(convert_vector(v, stack(a), stack(b), axis=ax), lin(dag(sbm(b)) @ sbm(a), v, ax), f"{a}->{b} axis {ax} of {shape}")


@harness("C02", [{"Ns": [2, 3]}, {"Ns": [3]}], [{"Ns": [2, 2, 3]}, {"Ns": [4, 3]}], T)
def stacked_protocol(env, Ns):
    """into/from the fundamental and transformed grids of a stack, along any axis"""
    from surface_potential_analysis.basis.util import BasisUtil

    a = env.pick("basis", stacks(Ns))
    ax = env.pick("axis", [0, -1, 1])
    A = stack(a)
    n, N = nsize(a), int(np.prod(Ns))
    F = dag(sbm([("K", m) for m in Ns]))
    sv, sf = [2, 2], [2, 2]
    sv[ax], sf[ax] = n, N
    v, f = env.cvec("v", *sv), env.cvec("f", *sf)
    B = sbm(a)
    env.eq(A.__into_fundamental__(v, ax), lin(B, v, ax), "into fundamental")
    env.eq(A.__into_transformed__(v, ax), lin(F @ B, v, ax), "into transformed")
    env.eq(A.__from_fundamental__(f, ax), lin(dag(B), f, ax), "from fundamental")
    env.eq(A.__from_transformed__(f, ax), lin(dag(B) @ dag(F), f, ax), "from transformed")
    env.eq(BasisUtil(A).vectors, B.T, "vectors")


@harness("C02", [{"Ns": [2, 3, 2]}, {"Ns": [3, 2, 2]}], [{"Ns": [4, 2, 3]}], T)
def nested(env, Ns):
    """a stack inside a stack is the flat stack of all axes"""
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    st = [[alts(N)[i % len(alts(N))] for i, N in zip(c, Ns)] for c in ((0, 1, 2), (1, 1, 0), (2, 3, 1), (3, 0, 3), (5, 2, 1), (0, 0, 0))]
    a = env.pick("source", st)
    b = env.pick("target", st)
    left = env.pick("nesting", [0, 1])

    def nest(s):
        if left:
            return TupleBasis(stack(s[:2]), mk(s[2]))
        return TupleBasis(mk(s[0]), stack(s[1:]))

    v = env.cvec("v", nsize(a))
    env.eq(convert_vector(v, nest(a), nest(b)), dag(sbm(b)) @ (sbm(a) @ v), f"{a}->{b}")
    env.true(nest(a).n == nsize(a) and nest(a).fundamental_n == int(np.prod(Ns)), "sizes")
    # a nested and a flat description of the same grid convert through the common grid
    env.eq(nest(a).__into_fundamental__(v), sbm(a) @ v, "into fundamental")


@harness("C02", [{"Ns": [2, 3]}, {"Ns": [4]}, {"Ns": [2, 2, 3]}], [{"Ns": [4, 3]}], T)
def lossless_stacked(env, Ns):
    """through any complete stack and back: unchanged, inner products kept"""
    from surface_potential_analysis.basis.basis_like import convert_dual_vector, convert_vector

    a = env.pick("source", stacks(Ns)[:: 1 if len(Ns) < 3 else 7])
    v, w = env.cvec("v", nsize(a)), env.cvec("w", nsize(a))
    A = stack(a)
    for kinds in (("P", "K"), ("K", "P"), ("FT", "FT"), ("K", "K"), ("P", "P")):
        b = [(kinds[i % 2], N) for i, N in enumerate(Ns)]
        cv = convert_vector(v, A, stack(b))
        env.eq(convert_vector(cv, stack(b), A), v, f"{a}->{b}->{a}")
        cw = convert_dual_vector(np.conj(w), A, stack(b))
        env.eq(np.sum(cw * cv), np.sum(np.conj(w) * v), "inner product", scale=2.0 * nsize(a))


@harness("C02", [{"nd": 1}, {"nd": 2}, {"nd": 3}], None, T)
def derived_stacks(env, nd):
    """fundamental position/momentum/transformed/resized relatives: sizes, lattice vectors, functions"""
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.stacked_basis import build as bu
    from surface_potential_analysis.stacked_basis import conversion as c

    Ns = [3, 4, 2][:nd]
    specs = env.pick("basis", [s for s in ([("P", 3), ("K", 4), ("TP", 1, 2)], [("TP", 2, 3), ("RP", 3, 4), ("P", 2)], [("ETP", 3, 1, 1), ("ETP", 2, 2, 1), ("K", 2)])])[:nd]
    d = env.rvec("d", nd, nd, lo=0.5, hi=3.0)
    A = stack(specs, d)
    env.eq(A.delta_x_stacked, d, "lattice vectors of the stack")
    N = int(np.prod(Ns))
    v = env.cvec("v", N)
    P = stack([("F", n) for n in Ns])
    K = sbm([("K", n) for n in Ns])
    for fn, M, length in ((c.stacked_basis_as_fundamental_position_basis, np.eye(N), True), (c.stacked_basis_as_fundamental_momentum_basis, K, True),
                          (c.stacked_basis_as_fundamental_transformed_basis, K, False), (c.stacked_basis_as_fundamental_basis, np.eye(N), False)):
        r = fn(A)
        env.true(tuple(r.shape) == tuple(Ns) and tuple(r.fundamental_shape) == tuple(Ns), "shape")
        if length:
            env.eq(r.delta_x_stacked, d, "lattice vectors " + fn.__name__)
        env.eq(convert_vector(v, P, r), dag(M) @ v, fn.__name__)
    shape = (5, 2, 3)[:nd]
    r = c.stacked_basis_as_fundamental_with_shape(A, shape)
    env.true(tuple(r.shape) == shape and tuple(r.fundamental_shape) == shape, "resized shape")
    env.eq(r.delta_x_stacked, d, "lattice vectors resized")
    w = env.cvec("w", int(np.prod(shape)))
    env.eq(convert_vector(w, r, stack([("F", n) for n in shape])), w, "resized is a position basis")


@harness("C02", [{}], None, T)
def builders(env):
    """bases built from shapes / resolutions have these shapes, lattice vectors and functions"""
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.stacked_basis import build as bu

    d = env.rvec("d", 3, 3, lo=0.5, hi=3.0)
    shape = env.pick("shape", [(2, 3, 2), (3, 1, 2), (1, 2, 3)])
    N = int(np.prod(shape))
    v = env.cvec("v", N)
    P, K = stack([("F", n) for n in shape]), sbm([("K", n) for n in shape])
    for r, M, dd in (
        (bu.position_basis_from_shape(shape, d), np.eye(N), d), (bu.position_basis_3d_from_shape(shape, d), np.eye(N), d), (bu.position_basis_from_shape(shape), np.eye(N), np.eye(3)),
        (bu.momentum_basis_3d_from_resolution(shape, (d[0], d[1], d[2])), K, d), (bu.momentum_basis_3d_from_resolution(shape), K, np.eye(3)),
        (bu.position_basis_3d_from_parent(stack([("K", 2), ("TP", 2, 3), ("P", 5)], d), shape), np.eye(N), d),
        (bu.fundamental_stacked_basis_from_shape(shape), np.eye(N), None), (bu.fundamental_transformed_stacked_basis_from_shape(shape), K, None),
    ):
        env.true(tuple(r.shape) == shape and tuple(r.fundamental_shape) == shape, "shape")
        if dd is not None:
            env.eq(r.delta_x_stacked, dd, "lattice vectors")
        env.eq(convert_vector(v, P, r), dag(M) @ v, "functions")
    two = bu.position_basis_from_shape(shape[:2], d[:2, :2])
    env.true(tuple(two.shape) == shape[:2], "2d shape")
    env.eq(two.delta_x_stacked, d[:2, :2], "2d lattice vectors")


@harness("C02", [{}], None, T)
def slices(env):
    """any slice of the axes is the stacked basis of these axes, in this order"""
    from surface_potential_analysis.basis.basis_like import convert_vector

    axes = [("K", 2), ("TP", 2, 3), ("P", 2), ("ETP", 2, 2, 1)]
    b = stack(axes)
    at = env.pick("slice", [slice(None), slice(None, None, 2), slice(1, None, 2), slice(None, None, -1), slice(-1, None, -2), slice(1, 3), slice(-2, None), slice(2, 0, -1)])
    r, want = b[at], axes[at]
    env.true(tuple(r.shape) == tuple(size(a) for a in want) and tuple(r.fundamental_shape) == tuple(fsize(a) for a in want), "shape")
    env.true(all(x is y for x, y in zip(r, list(b)[at])), "the axes themselves")
    v = env.cvec("v", nsize(want))
    env.eq(convert_vector(v, r, stack([("P", fsize(a)) for a in want])), sbm(want) @ v, "functions")


@harness("C02", [{}], None, ("basis.explicit_basis.ExplicitStackedBasisWithLength",))
def explicit_stacked(env):
    """explicit states over a stacked grid: expansion, projection, geometry"""
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.basis.explicit_basis import ExplicitStackedBasisWithLength
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    parent = env.pick("parent", [[("P", 2), ("K", 3)], [("TP", 2, 3), ("P", 2)], [("K", 2), ("ETP", 2, 2, 1)]])
    m = env.pick("count", [1, 3])
    d = env.rvec("d", 2, 2, lo=0.5, hi=3.0)
    pb = stack(parent, d)
    u = env.cvec("u", m, nsize(parent))
    E = ExplicitStackedBasisWithLength({"basis": TupleBasis(FundamentalBasis(m), pb), "data": u.reshape(-1)})
    Ns = [fsize(s) for s in parent]
    B = sbm(parent) @ u.T
    v = env.cvec("v", m)
    f = env.cvec("f", int(np.prod(Ns)))
    env.eq(E.delta_x_stacked, d, "lattice vectors")
    env.true(tuple(E.fundamental_shape) == tuple(Ns) and E.fundamental_n == int(np.prod(Ns)) and E.n == m, "sizes of the grid")
    P = [("P", n) for n in Ns]
    env.eq(E.__into_fundamental__(v), B @ v, "into fundamental")
    env.eq(E.__from_fundamental__(f), dag(B) @ f, "from fundamental")
    env.eq(convert_vector(f, stack(P), E), dag(B) @ f, "points -> explicit")
    env.eq(convert_vector(v, E, stack([("K", n) for n in Ns])), dag(sbm([("K", n) for n in Ns])) @ (B @ v), "explicit -> momentum")
