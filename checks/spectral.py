"""Contract stub for eigen-solvers on symbolic matrices with a known spectral decomposition.

`Spectral(env)` keeps a list of matrices A = X diag(E) X^-1 built by the harness (symbolic E, X
either fixed numbers or symbolic rotations).  During a symbolic run eigh/eig of a registered
matrix (or its transpose / conjugate / scalar multiple by a known real) returns that decomposition
with arbitrary symbolic phases on the eigenvectors; any other symbolic matrix stays unsupported.
Concrete runs use the real LAPACK routines.
"""
from __future__ import annotations

from collections import namedtuple

import numpy as np

EigResult = namedtuple("EigResult", ["eigenvalues", "eigenvectors"])


def rng_unitary(n, seed):
    r = np.random.RandomState(seed)
    q, rr = np.linalg.qr(r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)))
    return q * (np.diag(rr) / np.abs(np.diag(rr)))


def rng_orthogonal(n, seed):
    return np.linalg.qr(np.random.RandomState(seed).normal(size=(n, n)))[0]


class Spectral:
    def __init__(self, env, phases=True):
        self.env, self.known, self.phases = env, [], phases
        self.calls = 0
        if env.sym:
            from symx import arr

            arr.LINALG_HOOK.clear()
            for n in ("eigh", "eigvalsh", "eig", "eigvals"):
                arr.LINALG_HOOK[n] = self._hook(n)
            arr.LINALG_HOOK["svd"] = self._svd

    # -- construction of symbolic matrices --------------------------------------
    def energies(self, name, n, lo=-1.0, gap=0.2):
        """n increasing symbolic eigenvalues"""
        e = [self.env.real(name + "0", lo, lo + 1.0)]
        for i in range(1, n):
            e.append(e[-1] + self.env.real(f"{name}{i}", gap, 1.0))
        return self.env.array(e)

    def unitary(self, name, n):
        """symbolic 2x2 unitary (up to column phases), or a fixed dense one"""
        if n != 2:
            return rng_unitary(n, 17 * n + 3)
        t, p = self.env.real(name + "t", 0.2, 1.3), self.env.real(name + "p", -3.0, 3.0)
        c, s = np.cos(t), np.sin(t)
        ph = np.exp(1j * p)
        return self.env.array([[c + 0j, -np.conj(ph) * s], [ph * s, c + 0j]])

    def build(self, E, X, inv=None):
        n = len(E)
        Xi = np.conj(np.transpose(X)) if inv is None else inv
        A = sum(E[j] * np.outer(X[:, j], Xi[j]) for j in range(n))
        self.register(A, E, X)
        return A

    def register(self, A, E, X):
        self.known.append((A, E, X))

    def register_svd(self, A, U, s, Vh):
        """A = U diag(s) Vh, s positive and falling"""
        self.svds = [*getattr(self, "svds", []), (A, U, s, Vh)]

    def _svd(self, f, M, full_matrices=True, compute_uv=True, *a, **k):
        from symx import arr
        from symx.core import S, Unsupported

        M = arr.asarray(M)
        if M.ndim > 2:
            r = [self._svd(f, m, full_matrices, compute_uv, *a, **k) for m in M.reshape(-1, *M.shape[-2:])]
            if not compute_uv:
                return arr.array(r).reshape(*M.shape[:-2], -1)
            return tuple(arr.array([q[i] for q in r]).reshape(*M.shape[:-2], *r[0][i].shape) for i in range(3))
        self.calls += 1
        for A, U, s, Vh in getattr(self, "svds", []):
            if np.shape(A) != np.shape(M):
                continue
            d = arr._obj(arr.asarray(A) - M).reshape(-1)
            if all(abs(c) <= 1e-8 for x in d for c in S.lift(x).t.values()):
                if not compute_uv:
                    return arr.asarray(s)
                if full_matrices and M.shape[0] != M.shape[1]:
                    raise Unsupported("svd full_matrices")
                ph = arr.array([np.exp(1j * self.env.real(f"svd{self.calls}_{j}", -3.0, 3.0)) for j in range(len(s))])
                return arr.asarray(U).astype(complex) * ph, arr.asarray(s), arr.asarray(Vh).astype(complex) * np.conj(ph)[:, None]
        raise Unsupported("svd of a matrix without a known decomposition")

    # -- the stub -------------------------------------------------------------------
    def _hook(self, nm):
        from symx import arr
        from symx.core import S, Unsupported

        def close(a, b):
            fa, fb = arr._obj(arr.asarray(a)).reshape(-1), arr._obj(arr.asarray(b)).reshape(-1)
            sc = 1e-300
            for x in fb:
                for c in S.lift(x).t.values():
                    sc = max(sc, abs(c))
            return all(abs(c) <= 1e-8 * sc for x, y in zip(fa, fb) for c in (S.lift(x) - S.lift(y)).t.values())

        def scale_of(a, b):
            fa, fb = arr._obj(arr.asarray(a)).reshape(-1), arr._obj(arr.asarray(b)).reshape(-1)
            for x, y in zip(fa, fb):
                y, x = S.lift(y), S.lift(x)
                if y.t:
                    k = max(y.t, key=lambda q: abs(y.t[q]))
                    if k in x.t:
                        return complex(x.t[k] / y.t[k]).real
            return 1.0

        def find(M):
            for A, E, X in self.known:
                if np.shape(A) != np.shape(M):
                    continue
                for tr, cj in ((0, 0), (1, 1), (1, 0), (0, 1)):
                    B = np.transpose(A) if tr else A
                    B = np.conj(B) if cj else B
                    f = scale_of(M, B)
                    if f == 0 or not close(M, B * f):
                        continue
                    XX = X
                    if tr:
                        XX = np.transpose(np.linalg.inv(np.asarray(X))) if not arr._has_sym(X) else np.conj(X)
                    EE = E
                    if cj:
                        XX, EE = np.conj(XX), np.conj(E)
                    EE = EE * f
                    order = list(range(len(E)))
                    if f < 0:
                        order = order[::-1]
                    return arr.asarray(EE)[order], arr.asarray(XX)[:, order]
            if __import__("os").environ.get("SYMX_TRACE"): print("M=",M,[k[0] for k in self.known],file=__import__("sys").stderr)
            raise Unsupported(nm + " of a matrix without a known decomposition")

        def hook(f, M, *a, **k):
            self.calls += 1
            M = arr.asarray(M)
            if M.ndim > 2:
                res = [find(m) for m in M.reshape(-1, *M.shape[-2:])]
                E = arr.array([r[0] for r in res]).reshape(M.shape[:-1])
                X = arr.array([r[1] for r in res]).reshape(M.shape)
            else:
                E, X = find(M)
            sub = k.get("subset_by_index")
            if sub is not None:
                lo, hi = int(sub[0]), int(sub[1])
                E, X = E[..., lo : hi + 1], X[..., lo : hi + 1]
            if k.get("subset_by_value") is not None:
                raise Unsupported("subset_by_value")
            if nm in ("eigvalsh", "eigvals") or k.get("eigvals_only"):
                return E
            if self.phases:
                n = E.shape[-1]
                ph = arr.array([np.exp(1j * self.env.real(f"phase{self.calls}_{j}", -3.0, 3.0)) for j in range(n)])
                X = X * ph
            X = arr.asarray(X).astype(complex)
            if nm == "eig":
                E = arr.asarray(E).astype(complex)
            return EigResult(E, X)

        return hook
