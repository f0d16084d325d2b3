"""Independent definitions the harnesses compare the repository with.

A basis is described by a small tuple, from which the repository's basis object (`mk`) and,
independently, the matrix of its basis functions on the fundamental position grid (`bm`,
one column per basis function) are built.

  ("F", n)            point basis            ("P", n)   the same with a length
  ("R", n, N)         point basis truncated/wrapped to n of N points (lowest |index| first)
  ("RP", n, N)        the same with a length
  ("FT", n)           plane waves            ("K", n)   the same with a length
  ("T", n, N)         n lowest plane waves   ("TP", n, N) the same with a length
  ("E", n, step, off) every step-th point    ("ET", n, step, off) every step-th plane wave
  ("ETP", n, step, off) the same with a length
"""
from __future__ import annotations

import numpy as np

DX = 2.5  # default cell length


def size(spec):
    return spec[1]


def fsize(spec):
    k = spec[0]
    if k in ("F", "P", "FT", "K"):
        return spec[1]
    if k in ("R", "RP", "T", "TP"):
        return spec[2]
    return spec[1] * spec[2]


def mk(spec, delta_x=None):
    from surface_potential_analysis.basis.basis import (
        FundamentalBasis,
        FundamentalPositionBasis,
        FundamentalTransformedBasis,
        FundamentalTransformedPositionBasis,
        TransformedBasis,
        TransformedPositionBasis,
        TruncatedBasis,
        TruncatedPositionBasis,
    )
    from surface_potential_analysis.basis.evenly_spaced_basis import (
        EvenlySpacedBasis,
        EvenlySpacedTransformedBasis,
        EvenlySpacedTransformedPositionBasis,
    )

    d = np.array([DX]) if delta_x is None else delta_x
    k = spec[0]
    if k == "F":
        return FundamentalBasis(spec[1])
    if k == "P":
        return FundamentalPositionBasis(d, spec[1])
    if k == "R":
        return TruncatedBasis(spec[1], spec[2])
    if k == "RP":
        return TruncatedPositionBasis(d, spec[1], spec[2])
    if k == "FT":
        return FundamentalTransformedBasis(spec[1])
    if k == "K":
        return FundamentalTransformedPositionBasis(d, spec[1])
    if k == "T":
        return TransformedBasis(spec[1], spec[2])
    if k == "TP":
        return TransformedPositionBasis(d, spec[1], spec[2])
    if k == "E":
        return EvenlySpacedBasis(spec[1], spec[2], spec[3])
    if k == "ET":
        return EvenlySpacedTransformedBasis(spec[1], spec[2], spec[3])
    if k == "ETP":
        return EvenlySpacedTransformedPositionBasis(d, n=spec[1], step=spec[2], offset=spec[3])
    raise ValueError(k)


def freqs(n):
    """Integer frequencies in FFT order: 0,1,..,-2,-1 (the even-n Nyquist is negative)."""
    return [i if i < (n + 1) // 2 else i - n for i in range(n)]


def idxs(spec):
    """For each basis function the point / plane-wave number on the fundamental grid."""
    k, N = spec[0], fsize(spec)
    if k in ("F", "P", "FT", "K"):
        return list(range(N))
    if k in ("R", "RP", "T", "TP"):
        return [f % N for f in freqs(spec[1])]
    return [(spec[3] + spec[2] * i) % N for i in range(spec[1])]


def is_k(spec):
    return spec[0] in ("FT", "K", "T", "TP", "ET", "ETP")


def bm(spec):
    """(fundamental_n, n) matrix of basis functions on the fundamental position grid."""
    N = fsize(spec)
    ix = idxs(spec)
    if not is_k(spec):
        m = np.zeros((N, len(ix)))
        for c, i in enumerate(ix):
            m[i, c] = 1
        return m
    x = np.arange(N)
    return np.exp(2j * np.pi * np.outer(x, ix) / N) / np.sqrt(N)


def kron(*ms):
    out = np.ones((1, 1))
    for m in ms:
        out = np.kron(out, m)
    return out


def lin(m, v, axis=-1):
    """Apply a matrix along one axis."""
    axis = axis % v.ndim
    w = np.tensordot(m, v, axes=([1], [axis]))
    return np.moveaxis(w, 0, axis)


def dag(m):
    return np.conj(m).T


def stack(specs, deltas=None):
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    if deltas is None:
        return TupleBasis(*[mk(s) for s in specs])
    return TupleBasis(*[mk(s, d) for s, d in zip(specs, deltas)])


def sbm(specs):
    return kron(*[bm(s) for s in specs])


def nsize(specs):
    return int(np.prod([size(s) for s in specs], dtype=int))
