"""Small shared helpers of the harnesses."""
from __future__ import annotations

import itertools

import numpy as np

from .oracle import bm, dag, fsize, mk, nsize, sbm, size, stack


def B(spec, deltas=None):
    """basis of a spec tuple or of a list of them (stack)"""
    return stack(spec, deltas) if isinstance(spec, list) else mk(spec)


def BM(spec):
    return sbm(spec) if isinstance(spec, list) else bm(spec)


def N(spec):
    return nsize(spec) if isinstance(spec, list) else size(spec)


def FN(spec):
    return int(np.prod([fsize(s) for s in spec], dtype=int)) if isinstance(spec, list) else fsize(spec)


def conv(a, b):
    """matrix of the coefficient conversion a -> b"""
    return dag(BM(b)) @ BM(a)


def tup(*bs):
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    return TupleBasis(*bs)


def fb(n):
    from surface_potential_analysis.basis.basis import FundamentalBasis

    return FundamentalBasis(n)


def op(m, a, b=None):
    """operator dict from a matrix"""
    return {"basis": tup(B(a), B(a if b is None else b)), "data": m.reshape(-1)}


def dop(v, a, b=None):
    return {"basis": tup(B(a), B(a if b is None else b)), "data": v.reshape(-1)}


def oplist(m, a, b=None):
    return {"basis": tup(fb(len(m)), tup(B(a), B(a if b is None else b))), "data": m.reshape(-1)}


def M(o):
    """matrix of an operator dict"""
    return o["data"].reshape(o["basis"].shape)


def ML(o):
    return o["data"].reshape(o["basis"][0].n, *o["basis"][1].shape)


def DL(o):
    return o["data"].reshape(o["basis"][0].n, -1)


def vec(v, a):
    return {"basis": B(a), "data": v.reshape(-1)}


def vlist(v, a):
    return {"basis": tup(fb(len(v)), B(a)), "data": v.reshape(-1)}


def snap(*arrays):
    return [x.copy() for x in arrays]


def unchanged(env, before, *arrays):
    for b, a in zip(before, arrays):
        env.eq(a, b, "operand unmodified")


def isbasis(env, b, spec, label="basis of the result"):
    """the basis object spans the functions of the spec, in order"""
    env.true(b.n == N(spec) and b.fundamental_n == FN(spec), label)
    if b.n == N(spec) and b.fundamental_n == FN(spec):
        env.eq(b.__into_fundamental__(np.eye(N(spec))), BM(spec).T, label)


FULL = lambda n: [("P", n), ("K", n), ("F", n), ("FT", n), ("TP", n, n)]  # noqa: E731


class Draws:
    """Gaussian draws under control of the harness: with Draws(env, give): every standard normal number
    requested from numpy's random generators is give(k) for the k-th number."""

    def __init__(self, env, give):
        self.env, self.give, self.count = env, give, 0

    def _next(self, size):
        shape = () if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size))
        m = int(np.prod(shape, dtype=int))
        v = [self.give(self.count + i) for i in range(m)]
        self.count += m
        a = self.env.array(v).reshape(shape) if m else np.zeros(shape)
        return a if shape else v[0]

    def _standard(self, size=None, *a, **k):
        return self._next(size)

    def _normal(self, loc=0.0, scale=1.0, size=None):
        return self._next(size) * scale + loc

    def _rng(self, *a, **k):
        d = self

        class R:
            standard_normal = staticmethod(d._standard)
            normal = staticmethod(d._normal)

        return R()

    def __enter__(self):
        over = {"default_rng": self._rng, "standard_normal": self._standard, "normal": self._normal, "randn": lambda *s: self._next(s)}
        if self.env.sym:
            from symx.core import State

            self.old = getattr(State, "random", None)
            State.random = over
        else:
            self.old = {n: getattr(np.random, n) for n in over}
            for n, f in over.items():
                setattr(np.random, n, f)
        return self

    def __exit__(self, *exc):
        if self.env.sym:
            from symx.core import State

            State.random = self.old
        else:
            for n, f in self.old.items():
                setattr(np.random, n, f)


def gaussian_response(env, run):
    """run() is affine in the normal numbers it draws: returns (mean, rows of the response to each draw),
    after checking the affine form on symbolic draws"""
    def at(give):
        with Draws(env, give) as d:
            r = run()
        return r, d.count

    zero, m = at(lambda i: 0.0)
    V = []
    for c in range(m):
        r, m2 = at(lambda i: 1.0 if i == c else 0.0)
        env.true(m2 == m, "number of draws")
        V.append(r - zero)
    z = env.rvec("z", m)
    r, _ = at(lambda i: z[i])
    env.eq(r, zero + sum(z[c] * V[c] for c in range(m)), "linear in the draws")
    return zero, V


__all__ = [k for k in list(globals()) if not k.startswith("_")]
