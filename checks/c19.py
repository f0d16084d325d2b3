"""C19: hopping rates between localised states of a lattice."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .c16 import bands, deltas
from .h import *  # noqa: F403
from .oracle import freqs

BOUNDS = "lattices of 1-4 x 1-4 cells, 1-3 bands; all rates, occupations and wavepacket amplitudes symbolic"
T = ("dynamics.incoherent_propagation.tunnelling_matrix.*", "dynamics.tunnelling_basis.*", "dynamics.util.*", "dynamics.stochastic_schrodinger.solve.get_*collapse*")

HOPS = [(a, b) for a in (0, 1, -1) for b in (0, 1, -1)]
CELL = [np.array([1.3, 0.2]), np.array([-0.4, 1.9])]


def band_basis(nb, loc=None):
    from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis

    return TunnellingSimulationBandsBasis(np.arange(2 * nb).reshape(2, nb) / (2 * nb) if loc is None else loc, tuple(CELL))


def sites(shape, nb):
    return list(itertools.product(range(shape[0]), range(shape[1]), range(nb)))


def simulation_basis(shape, nb):
    return tup(fb(shape[0]), fb(shape[1]), band_basis(nb))


def at(env, k, entries):
    """k x k matrix from its non-zero entries"""
    return env.array([[entries.get((i, j), 0.0) for j in range(k)] for i in range(k)])


def same_bands(env, b, want, n=None, label="bands"):
    env.true(b.n == (want.n if n is None else n), label)
    env.eq(b.locations, want.locations[:, : b.n], label)
    env.eq(env.array(list(b.unit_cell)), env.array(list(want.unit_cell)), label)


def expected_a(J, shape, nb):
    """A[from, to] from J[band, band, hop]"""
    S = sites(shape, nb)
    A = [[0.0 for _ in S] for _ in S]
    for a, (i, j, n) in enumerate(S):
        for m in range(nb):
            for h, (di, dj) in enumerate(HOPS):
                b = S.index(((i + di) % shape[0], (j + dj) % shape[1], m))
                A[a][b] = A[a][b] + J[n][m][h]
    return A


SHAPES = [{"shape": s, "nb": n} for s, n in (([3, 3], 1), ([3, 4], 2), ([2, 3], 2), ([1, 2], 3), ([2, 2], 1), ([1, 1], 2))]
LARGE = [{"shape": s, "nb": n} for s, n in (([4, 4], 2), ([3, 3], 3), ([5, 3], 1))]


@harness("C19", [{"shape": s} for s in ([3], [1], [4], [3, 3], [2, 3], [1, 2], [2, 3, 1])], [{"shape": s} for s in ([6], [4, 5], [3, 3, 3])], T)
def hops(env, shape):
    """the hop operator moves every site by the shift of its index, periodically"""
    from surface_potential_analysis.dynamics.util import build_hop_operator, get_hop_shift

    nd = len(shape)
    n = int(np.prod(shape))
    v = env.cvec("v", n)
    for h, want in enumerate(itertools.product((0, 1, -1), repeat=nd)):
        s = get_hop_shift(h, nd)
        env.true(tuple(int(i) for i in s) == want, "shift of the hop")
        o = build_hop_operator(h, tuple(shape))
        env.true(o.shape == (*shape, *shape), "shape")
        r = np.tensordot(o.reshape(n, n), v, axes=(1, 0)).reshape(shape)
        env.eq(r, np.roll(v.reshape(shape), want, axis=tuple(range(nd))), "moves the state")


@harness("C19", SHAPES, LARGE, T)
def rates_from_hops(env, shape, nb):
    """jump rates to the rate matrix of the lattice and back"""
    from surface_potential_analysis.dynamics.incoherent_propagation import tunnelling_matrix as R

    b = band_basis(nb)
    J = env.rvec("J", nb, nb, 9, lo=0.1)
    j = R.get_jump_matrix_from_function(b, lambda n0, n1, h: J[n0, n1, h])
    env.true(tuple(j["basis"].shape) == (nb, nb) and j["data"].shape == (nb * nb * 9,), "shape")
    env.true(j["basis"][0] is b and j["basis"][1] is b, "band basis")
    env.eq(j["data"].reshape(nb, nb, 9), J, "function of the pair and hop")
    a = R.get_a_matrix_from_jump_matrix(j, tuple(shape))
    k = shape[0] * shape[1] * nb
    env.true(tuple(a["basis"].shape) == (k, k) and a["data"].shape == (k * k,), "shape")
    for q in range(2):
        env.true(tuple(a["basis"][q].shape) == (*shape, nb), "basis of the sites")
        same_bands(env, a["basis"][q][2], b)
    want = env.array(expected_a(J, shape, nb))
    env.eq(M(a), want, "rates between sites")
    m = env.pick("kept", list(range(1, nb + 1)))
    c = R.get_a_matrix_from_jump_matrix(j, tuple(shape), n_bands=m)
    env.eq(M(c), env.array(expected_a(J, shape, m)), "rates between sites, first bands")
    same_bands(env, c["basis"][0][2], b, m)
    d = R.get_a_matrix_reduced_bands(a, m)
    env.true(tuple(d["basis"][0].shape) == (*shape, m) and tuple(d["basis"][1].shape) == (*shape, m) and d["data"].ndim == 1, "shape of the reduced matrix")
    same_bands(env, d["basis"][0][2], b, m)
    env.eq(M(d), env.array(expected_a(J, shape, m)), "reduced to the first bands")
    if min(shape) >= 3:
        f = R.get_jump_matrix_from_a_matrix(a)
        env.true(tuple(f["basis"].shape) == (nb, nb), "band basis")
        env.eq(f["data"].reshape(nb, nb, 9), J, "hops of the rate matrix")
        new = env.pick("resampled", [(3, 3), (2, 4), (1, 3)])
        g = R.resample_tunnelling_a_matrix(a, new, m)
        env.eq(M(g), env.array(expected_a(J, new, m)), "resampled")


@harness("C19", SHAPES, LARGE, T)
def jumps_of_rates(env, shape, nb):
    """any rate matrix: the hops out of the first cell; its rate equation"""
    from surface_potential_analysis.dynamics.incoherent_propagation import tunnelling_matrix as R

    S = sites(shape, nb)
    k = len(S)
    if k > 12 and env.pick("quick", [0]):
        return
    A = env.rvec("A", k, k, lo=0.0)
    b = simulation_basis(shape, nb)
    a = {"basis": tup(b, b), "data": A.reshape(-1)}
    before = snap(A)
    if min(shape) >= 3:
        f = R.get_jump_matrix_from_a_matrix(a)
        same_bands(env, f["basis"][0], b[2])
        want = [[[A[S.index((0, 0, n)), S.index((di % shape[0], dj % shape[1], m))] for di, dj in HOPS] for m in range(nb)] for n in range(nb)]
        env.eq(f["data"].reshape(nb, nb, 9), env.array(want), "hops out of the first cell")
    m = R.get_tunnelling_m_matrix(a)
    unchanged(env, before, A)
    env.true(m["data"].shape == (k * k,), "flat")
    env.true(m["basis"][0] is b and m["basis"][1] is b, "basis")
    X = M(m)
    env.eq(np.sum(X, axis=0), np.zeros(k), "probability is conserved")
    rate = env.array([[A[j, i] if i != j else -sum([A[i, q] for q in range(k) if q != i], 0 * A[0, 0]) for j in range(k)] for i in range(k)])
    env.eq(X, rate, "gain from every other site, loss to every other site")
    if nb > 1:
        r = R.get_tunnelling_m_matrix(a, nb - 1)
        unchanged(env, before, A)
        ix = [i for i, s in enumerate(S) if s[2] < nb - 1]
        q = env.array([[A[j, i] if i != j else -sum([A[i, p] for p in ix if p != i], 0 * A[0, 0]) for j in ix] for i in ix])
        env.true(tuple(r["basis"][0].shape) == (*shape, nb - 1), "basis of the first bands")
        env.eq(M(r), q, "first bands only")


@harness("C19", SHAPES, [], T)
def occupations(env, shape, nb):
    """pure occupations and probabilities"""
    from surface_potential_analysis.dynamics.incoherent_propagation import tunnelling_matrix as R

    b = simulation_basis(shape, nb)
    S = sites(shape, nb)
    k = len(S)
    for i in {0, k // 2, k - 1}:
        for ix in (i, S[i]):
            r = R.get_initial_pure_density_matrix_for_basis(b, ix)
            env.true(r["basis"][0] is b and r["basis"][1] is b, "basis")
            env.eq(r["data"], np.eye(k)[i], "one occupied site")
    env.eq(R.get_initial_pure_density_matrix_for_basis(b)["data"], np.eye(k)[0], "default: the first site")
    v = env.cvec("p", k)
    before = snap(v)
    p = R.density_matrix_as_probability({"basis": tup(b, b), "data": v})
    env.true(p["basis"] is b, "basis of the probabilities")
    env.eq(p["data"], np.real(v), "diagonal of the density matrix")
    L = env.cvec("L", 2, k)
    q = R.density_matrix_list_as_probabilities({"basis": tup(fb(2), tup(b, b)), "data": L.reshape(-1)})
    env.true(q["basis"][1] is b and q["basis"][0].n == 2, "basis of the probabilities")
    env.eq(q["data"].reshape(2, k), np.real(L), "list of probabilities")
    unchanged(env, before, v)


class Dense:
    """contract of scipy.sparse.coo_array((values, (rows, columns)), shape)"""

    def __init__(self, args, shape):
        self.args, self.shape = args, shape

    def toarray(self):
        v, (r, c) = self.args
        e = {(int(i), int(j)): x for x, i, j in zip(v, r, c)}
        return np.array([[e.get((i, j), 0.0) for j in range(self.shape[1])] for i in range(self.shape[0])])


@harness("C19", [{"shape": [3, 3], "nb": 1}, {"shape": [2, 1], "nb": 2}, {"shape": [3, 1], "nb": 2}, {"shape": [1, 2], "nb": 3}, {"shape": [3, 4], "nb": 2}], [], T)
def collapse_operators(env, shape, nb):
    """one operator for every jump"""
    import scipy.sparse

    from surface_potential_analysis.dynamics.stochastic_schrodinger import solve as R

    S = sites(shape, nb)
    k = len(S)
    if k <= 9:
        F = {}

        def rate(n0, n1, c0, c1):
            key = (n0, n1, tuple(c0), tuple(int(q) for q in c1))
            if key not in F:
                F[key] = env.real("f" + "_".join(str(q) for q in (n0, n1, *key[2], *key[3])), 0.1, 2.0)
            return F[key]

        ops = R.get_collapse_operators_from_function(tuple(shape), band_basis(nb), rate)
        env.true(len(ops) == k * nb * 9, "one for every site, band and neighbour")
        ops = iter(ops)
        for a, (i, j, n) in enumerate(S):
            for m in range(nb):
                for d in itertools.product((-1, 0, 1), repeat=2):
                    o = next(ops)
                    env.true(tuple(o["basis"][0].shape) == (*shape, nb) and o["data"].shape == (k * k,), "basis of the sites")
                    to = S.index(((i + d[0]) % shape[0], (j + d[1]) % shape[1], m))
                    env.eq(M(o), at(env, k, {(a, to): rate(n, m, (0, 0), d)}), "one jump")
    b = simulation_basis(shape, nb)
    # hops below one are left out, and so are hops within a band
    low = env.pick("left out", [0, 4, 8])
    want = []
    factor = env.pick("factor", [1, 2.0])
    if min(shape) >= 3:
        A = {(i, j): 0.3 + 0.01 * (i * k + j) for i in range(k) for j in range(k)}
        for n in range(nb):
            for m in range(nb):
                for h, (di, dj) in enumerate(HOPS):
                    v = env.real(f"A{n}{m}{h}", 1.1, 2.0) if h != low else env.real(f"A{n}{m}{h}", 0.1, 0.4)
                    A[S.index((0, 0, n)), S.index((di % shape[0], dj % shape[1], m))] = v
                    if n == m or h == low:
                        continue
                    w = {}
                    for x, (i, j, q) in enumerate(S):
                        if q == n:
                            w[S.index(((i + di) % shape[0], (j + dj) % shape[1], m)), x] = np.sqrt(factor * v)
                    want.append(at(env, k, w))
        A = at(env, k, A)
        before = snap(A)
        ops = R.get_simplified_collapse_operators_from_a_matrix({"basis": tup(b, b), "data": A.reshape(-1)}, factor=factor)
        unchanged(env, before, A)
        env.true(len(ops) == len(want), "one for every hop between bands")
        for o, w in zip(ops, want):
            env.true(o["basis"][0] is b and o["data"].shape == (k * k,), "basis of the sites")
            env.eq(M(o), w, "square root of the rate, from site to site")
    if k <= 6:
        zero = [(i, j) for i in range(k) for j in range(k) if (i * 7 + j * 3) % 4 == 0]
        A = env.array([[0.0 if (i, j) in zero else env.real(f"B{i}_{j}", 0.1, 2.0) for j in range(k)] for i in range(k)])
        before = snap(A)
        old = scipy.sparse.coo_array
        if env.sym:
            scipy.sparse.coo_array = Dense
        try:
            ops = R.get_collapse_operators_from_a_matrix({"basis": tup(b, b), "data": A.reshape(-1)})
        finally:
            scipy.sparse.coo_array = old
        unchanged(env, before, A)
        pairs = [(i, j) for i in range(k) for j in range(k) if i != j and (i, j) not in zero]
        env.true(len(ops) == len(pairs), "one for every pair of different sites with a rate")
        for o, (i, j) in zip(ops, pairs):
            env.eq(M(o), at(env, k, {(i, j): A[i, j]}), "one rate")


@harness("C19", [{"s": [2, 2, 1], "x": [2, 2, 1]}, {"s": [1, 2, 1], "x": [3, 3, 2]}, {"s": [2, 1, 1], "x": [3, 3, 1]}], [], T)
def bands_of_wavepackets(env, s, x):
    """location of every band: middle of the maximum and its mirror image, in unit cells"""
    from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis, get_basis_from_shape

    k, n = int(np.prod(s)), int(np.prod(x))
    spec = [("P", m) for m in x]
    pts = env.pick("maxima", [((0, 0, 0), (1, 0, 0)), ((1, 1, 0), (0, 1, 0)), ((x[0] - 1, 0, 0), (x[0] - 1, x[1] - 1, 0))])
    rows = []
    for b, pt in enumerate(pts):
        for j in range(k):
            v = [env.cplx(f"c{b}_{j}_{i}", -0.4, 0.4) if j else 0.1 * np.exp(1j * i) for i in range(n)]
            v[int(np.ravel_multi_index(pt, x))] = 2.0
            rows.append(v)
    ds = deltas(3)
    w = bands(env.array(rows).reshape(2, k, n), s, spec, env.array([[0.1 * j + b for j in range(k)] for b in range(2)]), ds)
    r = TunnellingSimulationBandsBasis.from_wavepackets(w)
    env.true(r.n == 2, "one for every band")

    def near(p):
        return [int((q + m // 2) % m - m // 2) for q, m in zip(p, x)]

    want = []
    for pt in pts:
        a = near(pt)
        b = near((a[1], a[0], a[2]))
        want.append([(a[i] + b[i]) / 2 / x[i] for i in range(2)])
    env.eq(r.locations, np.array(want).T, "fractions of the unit cell")
    env.eq(env.array(list(r.unit_cell)), np.array([d[:2] for d in ds[:2]]), "unit cell")
    f = get_basis_from_shape((2, 3), 1, r)
    env.true(tuple(f.shape) == (2, 3, 1), "shape of the simulation")
    env.eq(f[2].locations, np.array(want).T[:, :1], "first bands")


@harness("C19", [{"s": [1, 2, 1], "t": [3, 3, 1], "x": [4, 4, 1]}, {"s": [2, 1, 1], "t": [2, 3, 1], "x": [4, 5, 2]}], [], T)
def bands_of_truncated_wavepackets(env, s, t, x):
    """location of every band: middle of the maximum and its mirror image, in unit cells, of states of few plane waves"""
    from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis, get_basis_from_shape

    k, n = int(np.prod(s)), int(np.prod(t))
    spec = [("TP", m, f) for m, f in zip(t, x)]
    pts = env.pick("maxima", [((0, 0, 0), (1, 0, 0)), ((1, 1, 0), (0, 1, 0)), ((x[0] - 1, 0, 0), (x[0] - 1, x[1] - 1, 0))])
    rows = []
    for b, pt in enumerate(pts):
        for j in range(k):
            v = [env.cplx(f"c{b}_{j}_{i}", -0.4, 0.4) for i in range(n)]
            rows.append(v if j else list(np.conj(BM(spec)[int(np.ravel_multi_index(pt, x))])))
    ds = deltas(3)
    w = bands(env.array(rows).reshape(2, k, n), s, spec, env.array([[0.1 * j + b for j in range(k)] for b in range(2)]), ds)
    r = TunnellingSimulationBandsBasis.from_wavepackets(w)
    env.true(r.n == 2, "one for every band")

    def near(p):
        return [int((q + m // 2) % m - m // 2) for q, m in zip(p, x)]

    want = []
    for pt in pts:
        a = near(pt)
        b = near((a[1], a[0], a[2]))
        want.append([(a[i] + b[i]) / 2 / x[i] for i in range(2)])
    env.eq(r.locations, np.array(want).T, "fractions of the unit cell")
    env.eq(env.array(list(r.unit_cell)), np.array([d[:2] for d in ds[:2]]), "unit cell")
    f = get_basis_from_shape((2, 3), 1, r)
    env.true(tuple(f.shape) == (2, 3, 1), "shape of the simulation")
    env.eq(f[2].locations, np.array(want).T[:, :1], "first bands")
