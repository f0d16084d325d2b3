"""C01: single-axis basis conversion against explicit basis functions."""
from __future__ import annotations

import numpy as np

from symx.harness import harness

from .oracle import bm, dag, fsize, idxs, lin, mk, size

BOUNDS = ("fundamental sizes 1..6 (thorough ..10), every ordered pair of the listed basis kinds at each size (truncations, steps and offsets enumerated by the solver), "
          "data arrays of 1-3 dims with every axis; values symbolic complex in [-1,1]^2")

T = ("basis.basis_like.convert_vector", "basis.basis_like.convert_dual_vector", "basis.basis_like.BasisLike.__convert_vector_into__", "basis.basis.*",
     "basis.evenly_spaced_basis.*", "basis.explicit_basis.*", "util.interpolation.pad_ft_points", "util.util.slice_along_axis")


def kinds(N):
    out = [("F", N), ("P", N), ("FT", N), ("K", N)]
    for n in range(1, N):
        out += [("R", n, N), ("T", n, N)]
    if N > 1:
        out += [("RP", N - 1, N), ("TP", max(1, N // 2), N), ("TP", N, N), ("R", N, N)]
    for step in range(1, N + 1):
        if N % step == 0:
            for off in sorted({0, 1, step - 1, step + 1, N - 1, -1}):
                out += [("E", N // step, step, off), ("ET", N // step, step, off)]
            out.append(("ETP", N // step, step, step // 2))
    return out


def cls(N):
    """one representative per kind, all truly different from their neighbours"""
    h = max(1, N - 2)
    out = [("P", N), ("K", N), ("R", h, N), ("TP", h, N), ("T", N - 1, N)]
    if N % 2 == 0:
        out += [("E", N // 2, 2, 1), ("ETP", N // 2, 2, 1), ("ET", 2, N // 2, N // 2 - 1)]
    return out


@harness("C01", [{"N": N} for N in (1, 2, 3, 4, 5, 6)], [{"N": N} for N in (7, 8, 9, 10)], T)
def convert_pair(env, N):
    """every pair of bases: the result is the projection of the expanded state"""
    from surface_potential_analysis.basis.basis_like import convert_vector

    ks = kinds(N)
    a = env.pick("source", ks)
    v = env.cvec("v", size(a))
    for b in ks:
        got = convert_vector(v, mk(a), mk(b))
        env.eq(got, dag(bm(b)) @ (bm(a) @ v), f"{a}->{b}")


@harness("C01", [{"N": 4}, {"N": 5}, {"N": 6}], [{"N": 7}, {"N": 8}], T)
def convert_axis(env, N):
    """conversion along any axis (positive or negative) of a 2-d or 3-d array acts on that axis only"""
    from surface_potential_analysis.basis.basis_like import convert_dual_vector, convert_vector

    ks = cls(N)
    a = env.pick("source", ks)
    nd = env.pick("ndim", [2, 3])
    ax = env.pick("axis", list(range(-nd, nd)))
    shape = [2, 3, 2][:nd]
    shape[ax] = size(a)
    v = env.cvec("v", *shape)
    for b in ks:
        env.eq(convert_vector(v, mk(a), mk(b), axis=ax), lin(dag(bm(b)) @ bm(a), v, ax), f"{a}->{b} axis {ax}")
        env.eq(convert_dual_vector(v, mk(a), mk(b), axis=ax), lin(np.conj(dag(bm(b)) @ bm(a)), v, ax), f"dual {a}->{b} axis {ax}")


@harness("C01", [{"N": N} for N in (2, 3, 4, 6)], [{"N": N} for N in (5, 8)], T)
def real_data(env, N):
    """data given as real numbers convert like the same complex numbers, also onto the same basis object"""
    from surface_potential_analysis.basis.basis_like import convert_vector

    ks = cls(N) + [("F", N), ("FT", N)]
    a = env.pick("source", ks)
    v = env.rvec("v", 2, size(a))
    A = mk(a)
    env.eq(convert_vector(v, A, A), v, "same object")
    for b in ks:
        env.eq(convert_vector(v, A, mk(b), axis=1), lin(dag(bm(b)) @ bm(a), v, 1), f"{a}->{b}")


@harness("C01", [{"N": N} for N in (2, 3, 4, 5, 6)], [{"N": N} for N in (7, 8)], T)
def lossless(env, N):
    """through a complete basis and back: unchanged; through a spanning pair: unchanged"""
    from surface_potential_analysis.basis.basis_like import convert_dual_vector, convert_vector

    a = env.pick("source", kinds(N))
    v = env.cvec("v", size(a))
    w = env.cvec("w", size(a))
    for b in (("P", N), ("K", N), ("FT", N), ("R", N, N), ("T", N, N), ("E", N, 1, 2), ("ET", N, 1, -1)):
        cv = convert_vector(v, mk(a), mk(b))
        env.eq(convert_vector(cv, mk(b), mk(a)), v, f"{a}->{b}->{a}")
        cw = convert_dual_vector(np.conj(w), mk(a), mk(b))
        env.eq(np.sum(cw * cv), np.sum(np.conj(w) * v), f"inner product {a}->{b}", scale=2.0 * size(a))


@harness("C01", [{"N": N} for N in (1, 2, 3, 4, 5, 6)], [{"N": N} for N in (7, 8, 9)], ("basis.util.BasisUtil.vectors", *T))
def exposed_vectors(env, N):
    """the exposed basis vectors are the basis functions, and expanding with them is the conversion"""
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.basis.util import BasisUtil

    a = env.pick("basis", kinds(N))
    A = mk(a)
    env.true(A.n == size(a) and A.fundamental_n == N, "sizes")
    vec = BasisUtil(A).vectors
    env.eq(vec, bm(a).T, f"vectors {a}")
    v = env.cvec("v", size(a))
    env.eq(convert_vector(v, A, FundamentalBasis(N)), np.tensordot(v, vec, axes=(0, 0)), f"expand {a}")
    env.eq(BasisUtil(A).__into_fundamental__(v), bm(a) @ v, "into fundamental")
    f = env.cvec("f", N)
    env.eq(BasisUtil(A).__from_fundamental__(f), dag(bm(a)) @ f, "from fundamental")
    # the transform-space forms are the unitary DFT of the position-space ones
    F = dag(bm(("K", N)))
    env.eq(A.__into_transformed__(v), F @ (bm(a) @ v), "into transformed")
    env.eq(A.__from_transformed__(f), dag(bm(a)) @ dag(F) @ f, "from transformed")


@harness("C01", [{"N": 4}, {"N": 6}], [{"N": 5}, {"N": 8}], T)
def protocol_axis(env, N):
    """the four low-level conversions of every kind act along the requested axis only"""
    a = env.pick("basis", cls(N) + [("F", N), ("FT", N), ("RP", 2, N)])
    ax = env.pick("axis", [0, 1, -1, -2])
    A = mk(a)
    F = dag(bm(("K", N)))
    sv = [2, 2]
    sv[ax] = size(a)
    v = env.cvec("v", *sv)
    sf = [2, 2]
    sf[ax] = N
    f = env.cvec("f", *sf)
    env.eq(A.__into_fundamental__(v, ax), lin(bm(a), v, ax), f"into fundamental {a}")
    env.eq(A.__into_transformed__(v, ax), lin(F @ bm(a), v, ax), f"into transformed {a}")
    env.eq(A.__from_fundamental__(f, ax), lin(dag(bm(a)), f, ax), f"from fundamental {a}")
    env.eq(A.__from_transformed__(f, ax), lin(dag(bm(a)) @ dag(F), f, ax), f"from transformed {a}")


def _explicit(env, m, parent, length=False):
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.explicit_basis import ExplicitBasis, ExplicitBasisWithLength
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    vec = env.cvec("u", m, size(parent))
    lst = {"basis": TupleBasis(FundamentalBasis(m), mk(parent)), "data": vec.reshape(-1)}
    return (ExplicitBasisWithLength if length else ExplicitBasis)(lst), vec


@harness("C01", [{"parent": p} for p in (("P", 3), ("K", 3), ("TP", 2, 4), ("ETP", 2, 2, 1), ("RP", 3, 4))], [{"parent": p} for p in (("P", 5), ("TP", 3, 5), ("ETP", 3, 2, 1))], T)
def explicit_basis(env, parent):
    """explicit bases with arbitrary (symbolic) vectors expand with the vectors and project with their conjugates"""
    from surface_potential_analysis.basis.basis_like import convert_dual_vector, convert_vector

    m = env.pick("count", [1, 2, 3])
    E, u = _explicit(env, m, parent, length=True)
    N = fsize(parent)
    env.true(E.n == m and E.fundamental_n == N, "sizes")
    B = bm(parent) @ u.T  # columns: the basis functions on the position grid
    v = env.cvec("v", 2, m)
    f = env.cvec("f", N, 2)
    for b in (("P", N), ("K", N), parent):
        P = dag(bm(b))
        env.eq(convert_vector(v, E, mk(b), axis=1), lin(P @ B, v, 1), f"explicit -> {b}")
        g = f[: size(b)]
        env.eq(convert_vector(g, mk(b), E, axis=0), lin(dag(P @ B) if b != parent else np.conj(u), g, 0), f"{b} -> explicit")
        env.eq(convert_dual_vector(v, E, mk(b), axis=1), lin(np.conj(P @ B), v, 1), f"dual explicit -> {b}")
    if N < 4:
        for axis in (0, 1, -1, -3):
            w = env.cvec(f"w{axis % 3}", *[m if i == axis % 3 else 2 + i % 2 for i in range(3)])
            env.eq(convert_vector(w, E, mk(parent), axis=axis), lin(u.T, w, axis), f"explicit -> parent along axis {axis}")
            w = env.cvec(f"x{axis % 3}", *[size(parent) if i == axis % 3 else 2 + i % 2 for i in range(3)])
            env.eq(convert_vector(w, mk(parent), E, axis=axis), lin(np.conj(u), w, axis), f"parent -> explicit along axis {axis}")
    env.eq(E.fundamental_raw_vectors, B.T, "vectors on the position grid")
    env.eq(E.delta_x, mk(parent).delta_x, "length")
    env.eq(E.vectors["data"], u.reshape(-1), "vectors kept")


@harness("C01", [{"spec": s} for s in (("P", 3), ("K", 4), ("TP", 3, 5), ("ETP", 2, 3, 1), ("RP", 2, 5))], None, ("basis.explicit_basis.ExplicitBasis.from_basis",))
def explicit_from_basis(env, spec):
    """an explicit copy of a basis is the same basis"""
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.basis.explicit_basis import ExplicitBasis, ExplicitBasisWithLength

    v = env.cvec("v", size(spec))
    f = env.cvec("f", fsize(spec))
    for cl in (ExplicitBasis, ExplicitBasisWithLength):
        E = cl.from_basis(mk(spec))
        env.eq(convert_vector(v, E, mk(spec)), v, "copy -> basis")
        env.eq(convert_vector(v, mk(spec), E), v, "basis -> copy")
        env.eq(convert_vector(f, mk(("P", fsize(spec))), E), dag(bm(spec)) @ f, "points -> copy")


@harness("C01", [{}], None, ("basis.conversion.*",))
def derived(env):
    """the fundamental relatives of a basis have its fundamental size, its length and the right functions"""
    from surface_potential_analysis.basis import conversion as c
    from surface_potential_analysis.basis.basis_like import convert_vector

    d = env.rvec("d", 2, lo=0.5, hi=3.0)
    spec = env.pick("basis", [("P", 4), ("K", 3), ("TP", 2, 5), ("RP", 3, 4), ("ETP", 2, 3, 1)])
    N = fsize(spec)
    b = mk(spec, d)
    v = env.cvec("v", N)
    k = bm(("K", N))
    for fn, M, length in ((c.basis_as_fundamental_position_basis, np.eye(N), True), (c.basis_as_fundamental_momentum_basis, k, True),
                          (c.basis_as_fundamental_transformed_basis, k, False), (c.basis_as_fundamental_basis, np.eye(N), False)):
        r = fn(b)
        env.true(r.n == N and r.fundamental_n == N, "size")
        if length:
            env.eq(r.delta_x, d, "length")
        env.eq(convert_vector(v, mk(("F", N)), r), dag(M) @ v, fn.__name__)
    one = c.basis_as_single_point_basis(b)
    env.true(one.n == 1, "single point")
    env.eq(one.delta_x, d, "length")
    five = c.basis_as_n_point_basis(d, n=5)
    env.true(five.n == 5, "n point")
    env.eq(five.delta_x, d, "length")
