"""C16: wavepackets, their Bloch states, eigenstates and unfurled form."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .oracle import DX, dag, freqs, fsize, size
from .spectral import Spectral, rng_unitary

BOUNDS = "1-3 axes, 1-4 samples and 1-4 plane waves per axis (odd and even; up to 6x5 thorough), unit-cell states in momentum, position or truncated bases, 1-3 bands, all complex amplitudes and energies; hamiltonians of generated wavepackets 1x1-3x3 with symbolic spectrum"
T = ("wavepacket.wavepacket.*", "wavepacket.get_eigenstate.*", "wavepacket.eigenstate_conversion.*", "wavepacket.conversion.*", "basis.block_fraction_basis.*")

SMALL = [([2], [3]), ([3], [2]), ([1], [3]), ([4], [1]), ([2, 3], [3, 2]), ([3, 1], [2, 3]), ([2, 1, 2], [1, 3, 2])]
LARGE = [([5], [4]), ([4], [6]), ([3, 4], [3, 3]), ([4, 2], [2, 5]), ([2, 3, 2], [2, 2, 3])]
SHAPES = [{"s": s, "x": x} for s, x in SMALL]
MORE = [{"s": s, "x": x} for s, x in LARGE]


def specs(x):
    """bases of the unit cell: momentum, position, mixed, truncated"""
    r = [[("K", n) for n in x], [("P", n) for n in x]]
    r.append([("TP", n - 1, n) if n > 1 else ("K", n) for n in x])
    r.append([("K", n) if i % 2 else ("TP", n - 1 + (n == 1), n) for i, n in enumerate(x)])
    return r


def deltas(nd):
    """skew lattice vectors"""
    return [np.array(v[:nd]) for v in ([1.7, 0.4, 0.3], [-0.6, 2.3, 0.2], [0.5, 0.1, 1.9])[:nd]]


def lst(s):
    from surface_potential_analysis.stacked_basis.build import fundamental_transformed_stacked_basis_from_shape

    return fundamental_transformed_stacked_basis_from_shape(tuple(s))


def samples(s):
    """signed wavevector numbers of the samples, row-major"""
    return [k for k in itertools.product(*[freqs(n) for n in s])]


def fundamental_k(spec):
    """coefficients of the spec's basis functions on the plane waves of the unit cell"""
    return dag(BM([("K", fsize(b)) for b in spec])) @ BM(spec)


def super_index(s, x, k):
    """super-cell plane wave of every unit-cell plane wave at wavevector k"""
    out = []
    for g in itertools.product(*[freqs(n) for n in x]):
        ix = 0
        for ss, xx, kk, gg in zip(s, x, k, g):
            ix = ix * ss * xx + (gg * ss + kk) % (ss * xx)
        out.append(ix)
    return out


def expand(c, s, spec):
    """c[..., sample, coefficient] -> [..., sample, super-cell plane wave] (normalised Bloch states)"""
    x = [fsize(b) for b in spec]
    F = fundamental_k(spec)
    G = []
    for i, k in enumerate(samples(s)):
        m = np.zeros((int(np.prod(s) * np.prod(x)), F.shape[1]), dtype=complex)
        m[super_index(s, x, k)] = F
        G.append(m)
    return [[G[i] @ c[b, i] for i in range(len(G))] for b in range(len(c))]


def bands(c, s, spec, e=None, ds=None):
    r = {"basis": tup(tup(fb(len(c)), lst(s)), B(spec, ds)), "data": c.reshape(-1)}
    if e is not None:
        r["eigenvalue"] = e.reshape(-1)
    return r


def single(c, s, spec, e=None, ds=None):
    r = {"basis": tup(lst(s), B(spec, ds)), "data": c.reshape(-1)}
    if e is not None:
        r["eigenvalue"] = e.reshape(-1)
    return r


def cells(env, s, x, nb=2):
    nd = len(s)
    spec = env.pick("basis", specs(x))
    n, k = int(np.prod([size(b) for b in spec])), int(np.prod(s))
    c = env.cvec("c", nb, k, n)
    return spec, n, k, c, deltas(nd)


def has_deltas(env, basis, ds, label="lattice vectors"):
    env.eq(env.array(basis.delta_x_stacked), env.array(ds), label)


@harness("C16", SHAPES, MORE, T)
def sampling(env, s, x):
    """wavevectors of the samples and derived bases"""
    from surface_potential_analysis.wavepacket import wavepacket as W

    nd = len(s)
    spec = env.pick("basis", specs(x))
    ds = [env.rvec(f"d{i}", nd) + 2 * np.eye(nd)[i] for i in range(nd)] if nd < 3 else deltas(nd)
    b = tup(lst(s), B(spec, ds))
    want = np.array([[k / n for k, n in zip(ks, s)] for ks in samples(s)]).T
    env.eq(W.get_wavepacket_sample_fractions(b[0]), want, "sample fractions")
    D = env.array(ds)
    k = W.get_wavepacket_fundamental_sample_frequencies(b)
    # k . R_j = 2 pi fraction_j
    env.eq(D @ k, 2 * np.pi * want, "sample wavevectors")
    f = W.get_fundamental_sample_basis(b)
    isbasis(env, f, [("K", n) for n in s])
    for i in range(nd):
        env.eq(f[i].delta_x, s[i] * D[i], "super-cell")
    u = W.get_fundamental_unfurled_basis(b)
    isbasis(env, u, [("K", n * m) for n, m in zip(s, x)])
    for i in range(nd):
        env.eq(u[i].delta_x, s[i] * D[i], "super-cell of the unfurled state")
    off = env.pick("offset", [None, *samples(s)])
    v = W.get_fundamental_unfurled_sample_basis_momentum(b) if off is None else W.get_fundamental_unfurled_sample_basis_momentum(b, off)
    for i in range(nd):
        isbasis(env, v[i], ("ETP", x[i], s[i], 0 if off is None else off[i]))
        env.eq(v[i].delta_x, s[i] * D[i], "super-cell of the sampled state")


@harness("C16", SHAPES, MORE, T)
def unfurl(env, s, x):
    """unfurled state: the normalised sum of the Bloch states"""
    from surface_potential_analysis.wavepacket.eigenstate_conversion import unfurl_wavepacket, unfurl_wavepacket_list

    spec, n, k, c, ds = cells(env, s, x)
    e = expand(c, s, spec)
    before = snap(c)
    r = unfurl_wavepacket(single(c[0], s, spec, ds=ds))
    isbasis(env, r["basis"], [("K", a * b) for a, b in zip(s, x)])
    has_deltas(env, r["basis"], [a * d for a, d in zip(s, ds)])
    env.eq(r["data"], sum(e[0]) / np.sqrt(k), "amplitudes")
    q = unfurl_wavepacket_list(bands(c, s, spec, ds=ds))
    unchanged(env, before, c)
    env.true(q["basis"][0].n == 2, "one state per band")
    w = bands(c, s, spec, ds=ds)
    two = B([("F", 1), ("F", 2)])
    w = {**w, "basis": tup(tup(two, w["basis"][0][1]), w["basis"][1])}
    env.true(tuple(unfurl_wavepacket_list(w)["basis"][0].shape) == (1, 2), "basis of the bands kept")
    isbasis(env, q["basis"][1], [("K", a * b) for a, b in zip(s, x)])
    env.eq(q["data"].reshape(2, -1), env.array([sum(b) / np.sqrt(k) for b in e]), "amplitudes of every band")
    if len(c[0].reshape(-1)) <= 12:
        ip = np.sum(np.conj(q["data"].reshape(2, -1)[0]) * q["data"].reshape(2, -1)[1])
        env.eq(ip, np.sum(np.conj(c[0]) * c[1]) / k, "inner products averaged over samples")


@harness("C16", SHAPES, MORE, T)
def bloch(env, s, x):
    """uncompressed Bloch states"""
    from surface_potential_analysis.wavepacket.get_eigenstate import get_bloch_states, get_fundamental_wavepacket

    spec, n, k, c, ds = cells(env, s, x)
    e = expand(c, s, spec)
    before = snap(c)
    r = get_bloch_states(bands(c, s, spec, ds=ds))
    env.true(tuple(r["basis"][0].shape) == (2, k), "bands and samples")
    isbasis(env, r["basis"][0][1], [("FT", a) for a in s])
    isbasis(env, r["basis"][1], [("K", a * b) for a, b in zip(s, x)])
    has_deltas(env, r["basis"][1], [a * d for a, d in zip(s, ds)])
    env.eq(r["data"].reshape(2, k, -1), env.array([env.array(b) for b in e]), "Bloch states")
    f = get_fundamental_wavepacket(bands(c, s, spec, ds=ds))
    unchanged(env, before, c)
    isbasis(env, f["basis"][1], [("K", a) for a in x])
    env.eq(f["data"].reshape(2, k, -1), c @ fundamental_k(spec).T, "in the plane waves of the unit cell")


@harness("C16", SHAPES, MORE, T)
def single_state(env, s, x):
    """states of one sample, by flat and by stacked index"""
    from surface_potential_analysis.wavepacket import get_eigenstate as G

    spec, n, k, c, ds = cells(env, s, x)
    e = expand(c, s, spec)
    i = env.pick("sample", sorted({0, 1 % k, k // 2, k - 1}))
    key = env.pick("by", ["flat", "stacked", "signed"])
    idx = {"flat": i, "stacked": tuple(int(v) for v in np.unravel_index(i, s)), "signed": samples(s)[i]}[key]
    ks = samples(s)[i]
    if key == "signed":
        # documented indices are positions in the list
        idx = tuple(int(v) for v in np.unravel_index(i, s))
    r = G.get_wavepacket_state_vector(single(c[0], s, spec, ds=ds), idx)
    for a in range(len(s)):
        isbasis(env, r["basis"][a], ("ETP", x[a], s[a], ks[a]))
    has_deltas(env, r["basis"], [a * d for a, d in zip(s, ds)])
    sb = BM([("ETP", x[a], s[a], ks[a]) for a in range(len(s))])
    full = dag(BM([("K", a * b) for a, b in zip(s, x)])) @ sb
    env.true(r["data"].ndim == 1, "flat")
    env.eq(full @ r["data"], e[0][i], "state of the sample")
    q = G.get_bloch_state_vector(single(c[0], s, spec, ds=ds), idx)
    isbasis(env, q["basis"], spec)
    env.eq(q["data"], c[0, i], "unit-cell part of the state")
    m = G.get_states_at_bloch_idx(bands(c, s, spec, ds=ds), idx)
    env.true(m["basis"][0].n == 2 and m["data"].ndim == 1, "one state per band")
    for a in range(len(s)):
        isbasis(env, m["basis"][1][a], ("ETP", x[a], s[a], ks[a]))
    env.eq(m["data"].reshape(2, -1) @ full.T, env.array([e[0][i], e[1][i]]), "states of every band")
    # Bloch's theorem: psi(x + R) = exp(i k R) psi(x)
    pos = (BM([("K", a * b) for a, b in zip(s, x)]) @ (full @ r["data"])).reshape([a * b for a, b in zip(s, x)])
    for a in range(len(s)):
        env.eq(np.roll(pos, -x[a], axis=a), np.exp(2j * np.pi * ks[a] / s[a]) * pos, "Bloch's theorem")


@harness("C16", SHAPES, MORE, T)
def all_states(env, s, x):
    """the states of every sample"""
    from surface_potential_analysis.wavepacket import get_eigenstate as G

    spec, n, k, c, ds = cells(env, s, x, 1)
    en = env.rvec("e", k)
    e = expand(c, s, spec)
    w = single(c[0], s, spec, en, ds)
    for what, r in (("states", G.get_all_wavepacket_states(w)), ("eigenstates", G.get_all_eigenstates(w))):
        env.true(len(r) == k, what)
        for i in range(k):
            ks = samples(s)[i]
            for a in range(len(s)):
                isbasis(env, r[i]["basis"][a], ("ETP", x[a], s[a], ks[a]))
            full = dag(BM([("K", a * b) for a, b in zip(s, x)])) @ BM([("ETP", x[a], s[a], ks[a]) for a in range(len(s))])
            env.true(r[i]["data"].shape == (int(np.prod(x)),), "flat")
            env.eq(full @ r[i]["data"], e[0][i], what)
            if what == "eigenstates":
                env.eq(r[i]["eigenvalue"], en[i], "energies")


@harness("C16", SHAPES, MORE, T)
def convert(env, s, x):
    """basis changes of wavepackets"""
    from surface_potential_analysis.wavepacket import conversion as C

    spec, n, k, c, ds = cells(env, s, x)
    to = env.pick("target", specs(x)[:3])
    en = env.rvec("e", 2, k)
    before = snap(c, en)
    cm = conv(spec, to)
    P, K = [("P", a) for a in x], [("K", a) for a in x]
    r = C.convert_wavepacket_to_basis(single(c[0], s, spec, ds=ds), basis=B(to, ds))
    isbasis(env, r["basis"][1], to)
    isbasis(env, r["basis"][0], [("FT", a) for a in s])
    env.true(r["data"].ndim == 1, "flat")
    env.eq(r["data"].reshape(k, -1), c[0] @ cm.T, "converted")
    r = C.convert_wavepacket_with_eigenvalues_to_basis(bands(c, s, spec, en, ds), basis=B(to, ds))
    isbasis(env, r["basis"][1], to)
    env.true(tuple(r["basis"][0].shape) == (2, k) and r["data"].ndim == 1 and r["eigenvalue"].shape == (2 * k,), "flat")
    env.eq(r["data"].reshape(2, k, -1), c @ cm.T, "converted with energies")
    env.eq(r["eigenvalue"].reshape(2, k), en, "energies unchanged")
    r = C.convert_wavepacket_to_position_basis(single(c[0], s, spec, ds=ds))
    isbasis(env, r["basis"][1], P)
    has_deltas(env, r["basis"][1], ds)
    env.eq(r["data"].reshape(k, -1), c[0] @ conv(spec, P).T, "position")
    r = C.convert_wavepacket_to_fundamental_momentum_basis(single(c[0], s, spec, ds=ds))
    isbasis(env, r["basis"][1], K)
    has_deltas(env, r["basis"][1], ds)
    env.eq(r["data"].reshape(k, -1), c[0] @ conv(spec, K).T, "momentum")
    if len(s) == 1 and s[0] > 1:
        sub = ("ET", 1, s[0], 1)
        r = C.convert_wavepacket_with_eigenvalues_to_basis(bands(c, s, spec, en, ds), list_basis=B([sub]))
        env.eq(r["data"].reshape(2, 1, -1), c[:, 1:2], "selected samples")
        env.eq(r["eigenvalue"].reshape(2, 1), en[:, 1:2], "energies of the selected samples")
        r = C.convert_wavepacket_to_basis(single(c[0], s, spec, ds=ds), list_basis=B([sub]), basis=B(to, ds))
        env.eq(r["data"].reshape(1, -1), c[0, 1:2] @ cm.T, "selected samples, converted")
    unchanged(env, before, c, en)


@harness("C16", [{"s": [4], "x": [2]}, {"s": [4, 4], "x": [1, 2]}, {"s": [6], "x": [1]}, {"s": [4, 2], "x": [2, 1]}, {"s": [2, 3], "x": [1, 2]}, {"s": [4, 1, 6], "x": [1, 2, 1]}], [{"s": [6, 4], "x": [2, 3]}], T)
def resize(env, s, x):
    """fewer samples: those at the same wavevectors"""
    from surface_potential_analysis.wavepacket import wavepacket as W
    from surface_potential_analysis.wavepacket.conversion import convert_wavepacket_to_shape

    spec, n, k, c, ds = cells(env, s, x, 1)
    sh = env.pick("shape", list(itertools.product(*[[d for d in range(1, m + 1) if m % d == 0] for m in s])))
    r = convert_wavepacket_to_shape(single(c[0], s, spec, ds=ds), sh)
    m = int(np.prod(sh))
    env.true(tuple(r["basis"][0].shape) == tuple(sh) and r["data"].shape == (m * n,), "shape")
    isbasis(env, r["basis"][1], spec)
    fr = W.get_wavepacket_sample_fractions(lst(sh))
    old = {tuple(round(v % 1, 9) for v in f): i for i, f in enumerate(W.get_wavepacket_sample_fractions(lst(s)).T)}
    full = samples(s)
    for j, f in enumerate(np.asarray(fr).T):
        i = old[tuple(round(v % 1, 9) for v in f)]
        env.eq(r["data"].reshape(m, n)[j], c[0, i], "sample at the same wavevector")
    env.eq(W.get_wavepacket_sample_fractions(r["basis"][0]), fr, "wavevectors of the result")


@harness("C16", [{"s": [2], "x": [2]}, {"s": [2, 3], "x": [2, 1]}], [{"s": [3, 2], "x": [2, 2]}], T)
def select(env, s, x):
    """band selection, iteration, averages"""
    from surface_potential_analysis.wavepacket import wavepacket as W

    nb = 3
    spec, n, k, c, ds = cells(env, s, x, nb)
    en = env.rvec("e", nb, k)
    w = bands(c, s, spec, en, ds)
    before = snap(c, en)
    i = env.pick("band", [0, 1, 2, -1])
    for r in (W.get_wavepacket(w, i), W.get_wavepacket_at_band(w, i)):
        env.true(tuple(r["basis"].shape) == (k, n), "shape")
        isbasis(env, r["basis"][0], [("FT", a) for a in s])
        isbasis(env, r["basis"][1], spec)
        env.eq(r["data"].reshape(k, n), c[i], "wavepacket of the band")
    env.eq(W.get_wavepacket_at_band(w, i)["eigenvalue"], en[i], "energies of the band")
    sl = env.pick("slice", [slice(None), slice(1, None), slice(0, 2), slice(None, None, 2), slice(None, None, -1)])
    for r in (W.get_wavepackets(w, sl), W.get_wavepackets_with_eigenvalues(w, sl)):
        env.true(tuple(r["basis"][0].shape) == (len(c[sl]), k) and r["data"].ndim == 1, "shape")
        isbasis(env, r["basis"][1], spec)
        env.eq(r["data"].reshape(-1, k, n), c[sl], "selected bands")
    env.eq(r["eigenvalue"].reshape(-1, k), en[sl], "energies of the selected bands")
    it = list(W.wavepacket_list_into_iter(w))
    env.true(len(it) == nb, "number of wavepackets")
    for j in range(nb):
        isbasis(env, it[j]["basis"][1], spec)
        env.eq(it[j]["data"].reshape(k, n), c[j], "iterated in order")
    how = env.pick("iterable", ["list", "iterator"])
    r = W.as_wavepacket_list(it if how == "list" else iter(it))
    env.true(tuple(r["basis"][0].shape) == (nb, k), "rebuilt shape")
    env.eq(r["data"].reshape(nb, k, n), c, "rebuilt list")
    a = W.get_average_eigenvalues(w)
    env.true(a["basis"][0].n == nb and a["basis"][1].n == nb, "bands")
    env.eq(a["data"] * k, np.sum(en, axis=1), "average over samples")
    b = W.get_wavepacket_basis(w["basis"])
    env.true(tuple(b.shape) == (k, n), "basis of one band")
    unchanged(env, before, c, en)


@harness("C16", [{"s": [2], "n": 2}, {"s": [3], "n": 2}, {"s": [2, 2], "n": 2}, {"s": [2], "n": 3}], [{"s": [3], "n": 4}, {"s": [2, 2], "n": 3}], T)
def generate(env, s, n):
    """wavepackets of a hamiltonian: eigenvectors of each sample's hamiltonian, lowest bands"""
    from surface_potential_analysis.basis.basis import TruncatedBasis
    from surface_potential_analysis.basis.block_fraction_basis import ExplicitBlockFractionBasis
    from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis
    from surface_potential_analysis.wavepacket import wavepacket as W

    sp = Spectral(env)
    nd, k = len(s), int(np.prod(s))
    Es = [sp.energies(f"e{i}_", n, lo=-1.0 + 0.1 * i) for i in range(k)]
    Hs = [sp.build(Es[i], rng_unitary(n, 3 + i)) for i in range(k)]
    spec = [("K", n)] + [("P", 1)] * (nd - 1)
    b = B(spec)
    fr = np.array([[a / m for a, m in zip(ks, s)] for ks in samples(s)])
    which = env.pick("bands", [("R", m) for m in range(1, n + 1)] + [("E", st, of) for st in (1, 2) for of in (0, 1) if of + st < n or (st == 2 and of == 0)])
    if which[0] == "R":
        bb, keep = TruncatedBasis(which[1], n), list(range(which[1]))
    else:
        st, of = which[1:]
        cnt = len(range(of, n, st))
        bb, keep = EvenlySpacedBasis(cnt, st, of), list(range(of, n, st))
    seen = []

    def ham(f):
        d = [float(np.max(np.abs(np.asarray(f) - q))) for q in fr]
        i = int(np.argmin(d))
        env.true(d[i] < 1e-9, "asked at a sample")
        seen.append(i)
        return {"basis": tup(b, b), "data": Hs[i].reshape(-1)}

    how = env.pick("list", ["stacked", "explicit"])
    if how == "stacked":
        r = W.generate_wavepacket(ham, lst(s), bb)
    else:
        order = list(range(k))[::-1]
        r = W.generate_uneven_wavepacket(ham, ExplicitBlockFractionBasis(fr[order].T), bb)
    env.true(set(seen) == set(range(k)), "every sample visited")
    m = len(keep)
    env.true(tuple(r["basis"][0].shape) == (m, k) and r["data"].shape == (m * k * n,) and r["eigenvalue"].shape == (m * k,), "bands and samples")
    isbasis(env, r["basis"][1], spec)
    V, E = r["data"].reshape(m, k, n), r["eigenvalue"].reshape(m, k)
    for j in range(k):
        i = j if how == "stacked" else order[j]
        for a, q in enumerate(keep):
            env.eq(E[a, j], Es[i][q], "energy of the band")
            env.eq(Hs[i] @ V[a, j] - E[a, j] * V[a, j], np.zeros(n), "eigenvector")
            env.eq(np.sum(V[a, j] * np.conj(V[a, j])), 1, "normalised")


@harness("C16", [{}], (), T)
def fraction_bases(env):
    """wavevectors of block fraction bases"""
    from surface_potential_analysis.basis.block_fraction_basis import EvenlySpacedBlockFractionBasis, ExplicitBlockFractionBasis, FundamentalBlockFractionBasis

    n, step, off = env.pick("n", [(3, 1, 0), (2, 2, 1), (2, 3, 0), (1, 4, 2)])
    b = EvenlySpacedBlockFractionBasis(n, step, off)
    want = np.array([-0.5 + (off + step * i) / (n * step) for i in range(n)])[None]
    env.true(b.ndim == 1 and b.n == n, "one axis")
    env.eq(b.bloch_fractions, want, "fractions")
    b = FundamentalBlockFractionBasis(n)
    env.eq(b.bloch_fractions, np.array([[-0.5 + i / n for i in range(n)]]), "fractions")
    f = env.rvec("f", 2, 3)
    e = ExplicitBlockFractionBasis(f)
    env.true(e.ndim == 2 and e.n == 3, "axes")
    env.eq(e.bloch_fractions, f, "given fractions")


BB = [{"s": [2], "x": [3]}, {"s": [3], "x": [2]}, {"s": [2, 1], "x": [2, 3]}, {"s": [1, 3], "x": [3, 2]}]


@harness("C16", BB, [{"s": [2, 3], "x": [3, 2]}, {"s": [2, 1, 2], "x": [1, 3, 2]}], T)
def bloch_basis(env, s, x):
    """the basis of Bloch states converts like its state vectors"""
    from surface_potential_analysis.wavepacket.get_eigenstate import get_bloch_basis

    nb = env.pick("bands", [1, 2])
    spec = env.pick("basis", specs(x)[:3])
    n, k = N(spec), int(np.prod(s))
    nb = min(nb, n)
    c = np.array([[rng_unitary(n, 7 * j + 1)[:, a] for j in range(k)] for a in range(nb)])
    b = get_bloch_basis(bands(c, s, spec, ds=deltas(len(s))))
    e = env.array([env.array(q) for q in expand(c, s, spec)]).reshape(nb * k, -1)
    ks = [("K", p * q) for p, q in zip(s, x)]
    m = BM(ks) @ e.T
    env.true(b.n == nb * k and b.fundamental_n == len(m), "sizes")
    v, f = env.cvec("v", nb * k), env.cvec("f", len(m))
    ax = env.pick("axis", [-1, 0, 1])
    if ax == -1:
        env.eq(b.__into_fundamental__(v), m @ v, "into position space")
        env.eq(b.__from_fundamental__(f), dag(m) @ f, "from position space")
    else:
        w = np.array([[1.0, 2.0 - 1j], [0.5j, -1.0]])
        vv = np.tensordot(v, w, axes=0).transpose(*((0, 1, 2) if ax == 0 else (1, 0, 2)))
        got = b.__into_fundamental__(vv, ax)
        ref = np.tensordot(m @ v, w, axes=0).transpose(*((0, 1, 2) if ax == 0 else (1, 0, 2)))
        env.eq(got, ref, "into position space along an axis")
        ff = np.tensordot(f, w, axes=0).transpose(*((0, 1, 2) if ax == 0 else (1, 0, 2)))
        got = b.__from_fundamental__(ff, ax)
        ref = np.tensordot(dag(m) @ f, w, axes=0).transpose(*((0, 1, 2) if ax == 0 else (1, 0, 2)))
        env.eq(got, ref, "from position space along an axis")
    i = env.pick("sample", [0, k - 1])
    q = b.vectors_at_bloch_k(i)
    env.eq(q["data"].reshape(nb, n), c[:, i], "states of a sample")
    z = b.basis_at_bloch_k(i) if False else b.basis_at_bloch_k(tuple(int(t) for t in np.unravel_index(i, s)))
    env.true(z.n == nb, "basis of a sample")
    env.eq(z.__into_fundamental__(np.eye(nb)), (BM(spec) @ c[:, i].T).T, "basis of a sample")


@harness("C16", BB, (), T)
def bloch_hamiltonian(env, s, x):
    """hamiltonian of the Bloch states"""
    from surface_potential_analysis.operator.conversion import convert_diagonal_operator_to_basis
    from surface_potential_analysis.wavepacket.get_eigenstate import get_bloch_hamiltonian, get_full_bloch_hamiltonian

    nb = 2
    spec = env.pick("basis", specs(x)[:3])
    n, k = N(spec), int(np.prod(s))
    nb = min(nb, n)
    c = np.array([[rng_unitary(n, 7 * j + 1)[:, a] for j in range(k)] for a in range(nb)])
    en = env.rvec("e", nb, k)
    w = bands(c, s, spec, en, deltas(len(s)))
    h = get_bloch_hamiltonian(w)
    env.true(h["basis"][0].n == nb and tuple(h["basis"][1].shape) == (k, k), "one diagonal operator over the samples for every band")
    env.eq(h["data"].reshape(nb, k), en, "energies")
    f = get_full_bloch_hamiltonian(w)
    ks = [("K", p * q) for p, q in zip(s, x)]
    t = B(ks)
    r = convert_diagonal_operator_to_basis(f, tup(t, t))
    e = env.array([env.array(q) for q in expand(c, s, spec)]).reshape(nb * k, -1)
    want = e.T @ (en.reshape(-1)[:, None] * np.conj(e))
    env.eq(M(r), want, "sum of E |psi><psi|")


@harness("C16", SHAPES, MORE, T)
def list_bases(env, s, x):
    """samples listed by repeated cell or in part: the same wavepacket"""
    from surface_potential_analysis.wavepacket import conversion as C
    from surface_potential_analysis.wavepacket.eigenstate_conversion import unfurl_wavepacket

    spec, n, k, c, ds = cells(env, s, x, 1)
    kinds = [[("F", a) for a in s], [("T", max(a - 1, 1), a) for a in s], [("E", 1, a, 0) if i == 0 else ("FT", a) for i, a in enumerate(s)]]
    form = env.pick("list", kinds)
    lb, full = B(form), [("FT", a) for a in s]
    m = N(form)
    U, V = conv(full, form), conv(form, full)
    before = snap(c)
    r = C.convert_wavepacket_to_basis(single(c[0], s, spec, ds=ds), list_basis=lb)
    env.true(r["basis"][0] is lb or r["basis"][0] == lb, "list basis")
    env.eq(r["data"].reshape(m, n), U @ c[0], "in the list basis")
    en = env.rvec("e", k)
    r = C.convert_wavepacket_with_eigenvalues_to_basis(bands(c[:1], s, spec, en, ds), list_basis=lb)
    env.eq(r["data"].reshape(m, n), U @ c[0], "in the list basis")
    env.eq(r["eigenvalue"], U @ en, "energies in the list basis")
    own = {"basis": tup(lb, B(spec, ds)), "data": c[0, :m].reshape(-1)}
    r = unfurl_wavepacket(own)
    isbasis(env, r["basis"], [("K", a * b) for a, b in zip(s, x)])
    env.eq(r["data"], sum(expand((V @ c[0, :m])[None], s, spec)[0]) / np.sqrt(k), "amplitudes")
    unchanged(env, before, c)
