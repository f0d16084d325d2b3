"""C24: time bases."""
from __future__ import annotations

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403

BOUNDS = "1-6 samples, steps 1-4, every offset up to twice the step, symbolic total time (1e-3..2); explicit lists of 1-5 symbolic times"
T = ("basis.time_basis_like.*",)


@harness("C24", [{"n": n} for n in (1, 2, 3, 4)], [{"n": 5}, {"n": 6}, {"n": 9}], T)
def evenly_spaced(env, n):
    """times of an evenly spaced time basis"""
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis

    step, off = env.pick("step", [(s, o) for s in (1, 2, 3, 4) for o in range(2 * s + 1)])
    T = env.real("T", 1e-3, 2.0)
    b = EvenlySpacedTimeBasis(n, step, off, T)
    N = n * step
    env.true(b.n == n and b.fundamental_n == N and b.step == step and b.offset == off, "sizes")
    t, f = b.times, b.fundamental_times
    env.true(t.shape == (n,) and f.shape == (N,), "number of times")
    env.eq(b.delta_t, T, "total time")
    env.eq(b.fundamental_dt * N, T, "fundamental spacing")
    env.eq(b.dt * n, T, "spacing")
    for i in range(N):
        env.eq(f[i] * N, T * i, "fundamental times")
    for i in range(n):
        env.eq(t[i] * N, T * (off + step * i), "times start at the offset, evenly spaced")
        if off < step:
            env.eq(t[i], f[off + step * i], "times picked from the fundamental ones")
    env.true(list(np.asarray(b.nt_points)) == [off + step * i for i in range(n)], "sample numbers")
    if n > 1:
        env.eq(t[1] - t[0], b.dt, "spacing of the times")


@harness("C24", [{"n": n} for n in (1, 2, 3, 5)], [{"n": 8}], T)
def fundamental(env, n):
    """the fundamental time basis and its conversion matrix"""
    from surface_potential_analysis.basis.time_basis_like import FundamentalTimeBasis

    T = env.real("T", 1e-3, 2.0)
    b = FundamentalTimeBasis(n, T)
    env.true(b.n == n and b.fundamental_n == n and b.step == 1 and b.offset == 0, "sizes")
    env.eq(b.times * n, np.array([T * i for i in range(n)]), "times")
    env.eq(b.fundamental_times, b.times, "fundamental times")
    env.eq(b.delta_t, T, "total time")
    env.eq(b.dt, b.fundamental_dt, "spacing")


@harness("C24", [{"n": n} for n in (2, 3, 5)], [{"n": 7}], T)
def explicit(env, n):
    """explicitly listed times"""
    from surface_potential_analysis.basis.time_basis_like import ExplicitTimeBasis

    t = env.rvec("t", n)
    b = ExplicitTimeBasis(t)
    env.true(b.n == n and b.fundamental_n == n, "sizes")
    env.eq(b.times, t, "times")
    env.eq(b.fundamental_times, t, "fundamental times")
    env.eq(b.delta_t, t[1] - t[0], "first step")


@harness("C24", [{"n": 2}, {"n": 3}], [{"n": 4}, {"n": 6}], T)
def values(env, n):
    """values expanded on a time basis sit at its times"""
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis, FundamentalTimeBasis

    step, off = env.pick("step", [(s, o) for s in (1, 2, 3) for o in range(s)])
    b = EvenlySpacedTimeBasis(n, step, off, 1.0)
    v = env.cvec("v", n)
    w = convert_vector(v, b, FundamentalTimeBasis(n * step, 1.0))
    E = np.zeros((n * step, n))
    for i in range(n):
        E[off + step * i, i] = 1
    env.eq(w, E @ v, "sample i sits at offset + step i")
    env.eq(convert_vector(w, FundamentalTimeBasis(n * step, 1.0), b), v, "and back")
