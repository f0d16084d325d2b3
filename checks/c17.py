"""C17: localisation is a unitary change of gauge within the bands."""
from __future__ import annotations

import itertools

import numpy as np

from symx.harness import harness

from .c16 import BB, bands, cells, deltas, expand, lst, samples, single, specs
from .h import *  # noqa: F403
from .oracle import dag, freqs, fsize, size
from .spectral import Spectral, rng_unitary

SLOW = ['phase_at_point']  # larger configurations in the thorough tier only
BOUNDS = "1-3 axes, 1-4 samples and 1-4 points per axis, unit-cell states in momentum, position or truncated bases, 1-3 bands; all complex amplitudes, localisation operators (symbolic, or unitary with symbolic band energies), all angles; projections of any non-degenerate overlap with symbolic singular values"
T = ("wavepacket.localization_operator.*", "wavepacket.localization._tight_binding.*", "wavepacket.localization._projection.*", "wavepacket.localization._operator.*", "wavepacket.get_eigenstate.get_*wannier*", "wavepacket.get_eigenstate.get_tight_binding*")

SH = [{"s": [2], "x": [3]}, {"s": [3], "x": [2]}, {"s": [2, 1], "x": [2, 3]}, {"s": [2, 2], "x": [1, 2]}]
SHL = [{"s": [4], "x": [3]}, {"s": [2, 3], "x": [3, 2]}, {"s": [1, 2, 2], "x": [2, 1, 2]}]


def lop(u, sb, ob, ib):
    return {"basis": tup(sb, tup(ob, ib)), "data": u.reshape(-1)}


def supk(s, x):
    return [("K", a * b) for a, b in zip(s, x)]


def value_at(e, s, x, pt):
    """value at the (unwrapped) grid point of every Bloch state e[sample]"""
    flat = 0
    for p, a, b in zip(pt, s, x):
        flat = flat * a * b + p % (a * b)
    row = BM(supk(s, x))[flat]
    return [np.sum(row * v) for v in e]


@harness("C17", [*SH, {"s": [2, 1, 2], "x": [1, 2, 1]}], SHL, T)
def apply_operator(env, s, x):
    """localised states are the stated combinations of the bands of each sample"""
    from surface_potential_analysis.wavepacket import localization_operator as L

    nb, no = env.pick("bands", [(2, 2), (1, 2), (2, 1), (1, 1)])
    spec, n, k, c, ds = cells(env, s, x, nb)
    w = bands(c, s, spec, ds=ds)
    ob, ib, sb = fb(no), w["basis"][0][0], w["basis"][0][1]
    u = env.cvec("u", k, no, nb)
    before = snap(c, u)
    r = L.get_localized_wavepackets(w, lop(u, sb, ob, ib))
    env.true(tuple(r["basis"][0].shape) == (no, k) and r["data"].shape == (no * k * n,), "shape")
    env.true(r["basis"][0][0] is ob and r["basis"][0][1] is sb, "list bases")
    isbasis(env, r["basis"][1], spec)
    R = r["data"].reshape(no, k, n)
    for j in range(k):
        env.eq(R[:, j], u[j] @ c[:, j], "combination of the bands")
    d = env.cvec("d", k, nb)
    db = tup(sb, ib)
    dl = {"basis": tup(db, db), "data": d.reshape(-1)}
    r = L.get_diagonal_localized_wavepackets(w, dl)
    env.true(tuple(r["basis"][0].shape) == (nb, k) and r["data"].ndim == 1, "shape")
    env.eq(r["data"].reshape(nb, k, n), c * np.transpose(d)[:, :, None], "phases of each band and sample")
    f = L.diagonal_localization_operator_as_full(dl)
    env.true(tuple(f["basis"].shape) == (k, nb * nb), "shape of the full operator")
    env.eq(f["data"].reshape(k, nb, nb), env.array([np.diag(d[j]) for j in range(k)]), "written in full")
    q = L.get_localized_wavepackets(w, f)
    env.eq(q["data"], r["data"], "full and diagonal agree")
    g = L.localization_operator_as_diagonal(lop(u, sb, ob, ib) if no == nb else f)
    env.true(tuple(g["basis"][0].shape) == (k, nb), "shape of the diagonal")
    env.eq(g["data"].reshape(k, nb), env.array([np.diagonal(m) for m in u]) if no == nb else d, "diagonal part")
    i = L.get_identity_operator(w["basis"][0])
    env.true(tuple(i["basis"][1].shape) == (nb, nb), "one localised state per band")
    r = L.get_localized_wavepackets(w, i)
    env.eq(r["data"].reshape(nb, k, n), c, "identity changes nothing")
    unchanged(env, before, c, u)


@harness("C17", [{"s": [2], "nb": 2}, {"s": [3], "nb": 1}, {"s": [2, 2], "nb": 2}, {"s": [2], "nb": 3}], [{"s": [4], "nb": 3}], T)
def hamiltonian(env, s, nb):
    """matrix elements between localised states"""
    from surface_potential_analysis.wavepacket import get_eigenstate as G

    k = int(np.prod(s))
    no = env.pick("states", [nb, 1])
    spec = [("P", 1)] * len(s)
    spec[0] = ("K", nb)
    c = np.array([[rng_unitary(nb, 3 * j + 1)[:, a] for j in range(k)] for a in range(nb)])
    en = env.rvec("e", nb, k)
    w = bands(c, s, spec, en)
    u = env.cvec("u", k, no, nb)
    before = snap(u, en)
    ob = fb(no)
    r = G.get_wannier_hamiltonian(w, lop(u, w["basis"][0][1], ob, w["basis"][0][0]))
    unchanged(env, before, u, en)
    env.true(r["basis"][0].n == k and tuple(r["basis"][1].shape) == (no, no) and r["data"].ndim == 1, "shape")
    R = r["data"].reshape(k, no, no)
    for j in range(k):
        loc = u[j] @ c[:, j]
        H = sum(en[a, j] * np.outer(c[a, j], np.conj(c[a, j])) for a in range(nb))
        env.eq(R[j], np.conj(loc) @ H @ loc.T, "<w_i|H|w_j>")


@harness("C17", SH, SHL, T)
def wannier(env, s, x):
    """wannier states: translates of the sum of the localised Bloch states"""
    from surface_potential_analysis.wavepacket import get_eigenstate as G

    nb, no = env.pick("bands", [(2, 2), (2, 1), (1, 1)])
    spec, n, k, c, ds = cells(env, s, x, nb)
    w = bands(c, s, spec, ds=ds)
    u = np.array([rng_unitary(max(nb, no), 11 + j)[:no, :nb] for j in range(k)])
    r = G.get_wannier_states(w, lop(u, w["basis"][0][1], fb(no), w["basis"][0][0]))
    env.true(tuple(r["basis"][0].shape) == (no, k) and r["data"].ndim == 1, "shape")
    isbasis(env, r["basis"][1], [("P", a * b) for a, b in zip(s, x)])
    env.eq(env.array(r["basis"][1].delta_x_stacked), env.array([a * d for a, d in zip(s, ds)]), "super-cell")
    loc = [[sum(u[j][i, l] * c[l, j] for l in range(nb)) for j in range(k)] for i in range(no)]
    e = expand(env.array([env.array(q) for q in loc]), s, spec)
    # sum over samples, in position space
    f0 = [(BM(supk(s, x)) @ (sum(q) / np.sqrt(k))).reshape([a * b for a, b in zip(s, x)]) for q in e]
    R = r["data"].reshape(no, k, *[a * b for a, b in zip(s, x)])
    for i in range(no):
        for j, t in enumerate(itertools.product(*[range(a) for a in s])):
            env.eq(R[i, j], np.roll(f0[i], [-q * b for q, b in zip(t, x)], axis=tuple(range(len(s)))), "translated by a cell")


@harness("C17", SH, SHL, T)
def wannier_hamiltonian(env, s, x):
    """hamiltonian in the basis of wannier states"""
    from surface_potential_analysis.wavepacket import get_eigenstate as G

    spec = env.pick("basis", specs(x)[:3])
    n, k = N(spec), int(np.prod(s))
    nb = min(2, n)
    c = np.array([[rng_unitary(n, 7 * j + 1)[:, a] for j in range(k)] for a in range(nb)])
    en = env.rvec("e", nb, k)
    w = bands(c, s, spec, en, deltas(len(s)))
    no = env.pick("states", sorted({1, nb}))
    u = np.array([rng_unitary(nb, 11 + j)[:no] for j in range(k)])
    o = lop(u, w["basis"][0][1], fb(no), w["basis"][0][0])
    r = G.get_full_wannier_hamiltonian(w, o)
    env.true(tuple(r["basis"].shape) == (no * k, no * k) and r["data"].ndim == 1, "shape")
    W = G.get_wannier_states(w, o)["data"].reshape(no * k, -1)
    e = expand(c, s, spec)
    P = BM(supk(s, x))
    H = sum(en[a, j] * np.outer(P @ e[a][j], np.conj(P @ e[a][j])) for a in range(nb) for j in range(k))
    env.eq(M(r), np.conj(W) @ H @ W.T, "<i|H|j>")
    env.eq(np.conj(W) @ W.T, np.eye(no * k), "orthonormal wannier states")
    for q in range(2):
        env.eq(r["basis"][q].__into_fundamental__(np.eye(no * k)), W, "basis of wannier states")
    b = G.get_wannier_basis(w, o)
    env.true(b.n == no * k, "size")
    env.eq(b.__into_fundamental__(np.eye(no * k)), W, "wannier basis")


def gauge(env, before, after, label):
    """each state only changed by a phase"""
    for b, a in zip(before, after):
        env.eq(np.outer(a, np.conj(a)), np.outer(b, np.conj(b)), label)


@harness("C17", [*SH, {"s": [1], "x": [4]}, {"s": [4], "x": [1]}], SHL, T)
def phase_at_point(env, s, x):
    """localised at a point: the stated phase there, for every sample"""
    from surface_potential_analysis.wavepacket.localization import localize_tightly_bound_wavepacket_idx

    nd, k = len(s), int(np.prod(s))
    spec = env.pick("basis", [[("P", n) for n in x], [("K", n) if n < 3 else ("P", n) for n in x]])
    n = N(spec)
    pts = list(itertools.product(*[range(-1, b + 2) if nd == 1 else (0, b - 1, -1, b) for b in x]))
    pt = env.pick("point", sorted(set(pts)))
    inside = all(0 <= p < b for p, b in zip(pt, x))
    flat = env.pick("index", ["tuple", "flat"]) if inside else "tuple"
    c = env.cvec("c", k, n)
    # nothing is localised where a state vanishes
    e = expand(c[None], s, spec)[0]
    u = [np.sum(BM(spec)[int(np.ravel_multi_index(pt, x, mode="wrap"))] * c[j]) for j in range(k)]
    for v in u:
        env.assume(np.real(v * np.conj(v)) >= 0.01)
    th = env.pick("angle", [0.0, 0.7, -2.0])
    before = snap(c)
    r = localize_tightly_bound_wavepacket_idx(single(c, s, spec, ds=deltas(nd)), pt if flat == "tuple" else int(np.ravel_multi_index(pt, x)), th)
    unchanged(env, before, c)
    env.true(r["data"].shape == (k * n,), "flat")
    isbasis(env, r["basis"][1], spec)
    R = r["data"].reshape(k, n)
    gauge(env, c, R, "only a phase")
    val = value_at(expand(R[None], s, spec)[0], s, x, pt)
    for v in val:
        env.eq(np.imag(v * np.exp(-1j * th)), 0, "phase at the point")
        env.true(np.real(v * np.exp(-1j * th)) > 0, "phase at the point, not opposite")


@harness("C17", [{"s": [2], "x": [3]}, {"s": [3], "x": [2]}, {"s": [2, 2], "x": [2, 3]}, {"s": [2, 3, 1], "x": [3, 1, 2]}], [{"s": [3], "x": [4]}, {"s": [3, 2], "x": [3, 3]}], T)
def phase_at_maximum(env, s, x):
    """localised at the maximum of the first Bloch state"""
    from surface_potential_analysis.wavepacket.localization import localize_tightly_bound_wavepacket_max_point

    nd, k = len(s), int(np.prod(s))
    spec = env.pick("basis", [[("P", n) for n in x], [("TP", n - 1, n) if n == 3 else ("P", n) for n in x]])
    n = N(spec)
    pt = env.pick("maximum", sorted({tuple(0 for _ in x), tuple(b - 1 for b in x), tuple(b // 2 for b in x)}))
    th = env.pick("angle", [0.0, 0.4])
    # first state: concentrated at the maximum as far as its basis allows
    first = np.conj(BM(spec)[int(np.ravel_multi_index(pt, x))]) * np.exp(0.3j)
    c = env.array([first] + [env.cvec(f"c{j}_", n) for j in range(1, k)])
    row = BM(spec)[int(np.ravel_multi_index(pt, x))]
    for j in range(1, k):
        v = np.sum(row * c[j])
        env.assume(np.real(v * np.conj(v)) >= 0.01)
    r = localize_tightly_bound_wavepacket_max_point(single(c, s, spec, ds=deltas(nd)), th)
    env.true(r["data"].shape == (k * n,), "flat")
    R = r["data"].reshape(k, n)
    gauge(env, c, R, "only a phase")
    near = tuple(p if p < b - b // 2 else p - b for p, b in zip(pt, x))
    val = value_at(expand(R[None], s, spec)[0], s, x, near)
    for v in val:
        env.eq(np.imag(v * np.exp(-1j * th)), 0, "phase at the maximum")
        env.true(np.real(v * np.exp(-1j * th)) > 0, "phase at the maximum, not opposite")


@harness("C17", [{"s": [2, 2, 1], "x": [2, 2, 1]}, {"s": [2, 1, 1], "x": [3, 3, 1]}, {"s": [1, 2, 1], "x": [3, 3, 2]}, {"s": [2, 1, 1], "x": [2, 3, 1]}, {"s": [1, 2, 1], "x": [4, 2, 1]}], [{"s": [2, 3, 1], "x": [3, 3, 1]}], T)
def phase_at_two_points(env, s, x):
    """localised between the maximum and its mirror image"""
    from surface_potential_analysis.wavepacket.localization import localize_tightly_bound_wavepacket_two_point_max
    from surface_potential_analysis.wavepacket.localization._tight_binding import get_wavepacket_two_points

    k = int(np.prod(s))
    spec = [("P", n) for n in x]
    n = N(spec)
    pt = env.pick("maximum", [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)])
    off = env.pick("offset", [(0, 0), (1, 0), (0, 1), (-1, 2)])
    org = (x[0] * off[0], x[1] * off[1], 0)

    def near(p):
        return tuple(int(o + (q - o + m // 2) % m - m // 2) for q, o, m in zip(p, org, x))

    image = near((near(pt)[1], near(pt)[0], pt[2]))
    ph = env.pick("phases", [(0.2, 0.5), (-0.4, 2.0), (3.0, -1.0)])
    th = env.pick("angle", [0.0, 0.4])
    a, b = int(np.ravel_multi_index(pt, x)), int(np.ravel_multi_index(image, x, mode="wrap"))
    rows = []
    for j in range(k):
        v = [env.cplx(f"c{j}_{i}", -0.4, 0.4) if j else 0.1 * np.exp(1j * i) for i in range(n)]
        v[a] = np.exp(1j * (ph[0] + j)) * (2.0 if j == 0 else 1.0)
        if b != a:
            v[b] = np.exp(1j * (ph[1] - j)) * (1.5 if j == 0 else 0.7)
        rows.append(v)
    c = env.array(rows)
    w = single(c, s, spec, ds=deltas(3))
    p0, p1 = get_wavepacket_two_points(w, off)
    env.true(tuple(int(v) for v in p0) == near(pt), "the maximum")
    env.true(tuple(int(v) for v in p1) == image, "its mirror image")
    r = localize_tightly_bound_wavepacket_two_point_max(w, off, th)
    env.true(r["data"].shape == (k * n,), "flat")
    R = r["data"].reshape(k, n)
    gauge(env, c, R, "only a phase")
    v0, v1 = [], []
    for v, p, q in ((v0, p0, a), (v1, p1, b)):
        g = value_at(expand(np.array([[np.eye(n)[q]] * k]), s, spec)[0], s, x, tuple(int(i) for i in p))
        v.extend(R[j, q] * (g[j] * np.exp(-1j * th)) for j in range(k))
    for a0, a1 in zip(v0, v1):
        env.eq(np.imag(a0 * a1), 0, "opposite phases at the two points (modulo pi)")
        env.true(np.real(a0) > 0, "closer to the angle than to its opposite")
        env.true(np.real(a0) ** 2 * 1.000001 + 1e-9 >= np.imag(a0) ** 2, "within an eighth of a turn")


@harness("C17", [{"s": [2], "x": [3]}, {"s": [3], "x": [2]}, {"s": [2, 2], "x": [2, 3]}, {"s": [2, 1, 2], "x": [1, 3, 2]}], SHL, T)
def tight_binding_state(env, s, x):
    """the reference state restricted to one unit cell around the origin"""
    from surface_potential_analysis.wavepacket.get_eigenstate import get_tight_binding_state, get_tight_binding_states

    nd, k = len(s), int(np.prod(s))
    spec, n, k, c, ds = cells(env, s, x, 2)
    i = env.pick("sample", sorted({0, k - 1}))
    o = env.pick("origin", sorted({tuple(0 for _ in x), tuple(b - 1 for b in x), tuple(b for b in x), tuple(-1 for _ in x)}))
    e = expand(c, s, spec)
    sup = [a * b for a, b in zip(s, x)]
    keep = np.zeros(sup)
    for p in itertools.product(*[range(q - m // 2, q - m // 2 + m) for q, m in zip(o, x)]):
        keep[tuple(v % m for v, m in zip(p, sup))] = 1
    psi = [(BM(supk(s, x)) @ e[a][i]) * keep.reshape(-1) for a in range(2)]
    r = get_tight_binding_state(single(c[0], s, spec, ds=ds), i, o)
    isbasis(env, r["basis"], [("P", m) for m in sup])
    env.true(r["data"].ndim == 1, "flat")
    env.eq(r["data"], psi[0], "one unit cell of the state")
    q = get_tight_binding_states(bands(c, s, spec, ds=ds), i, o)
    env.true(q["basis"][0].n == 2, "bands")
    isbasis(env, q["basis"][1], [("P", m) for m in sup])
    env.eq(q["data"].reshape(2, -1), env.array(psi), "of every band")
    # by default around the maximum
    if any(size(b) == 1 < fsize(b) for b in spec):
        return
    m = tuple(b - 1 for b in x)
    first = np.conj(BM(spec)[int(np.ravel_multi_index(m, x))])
    d = env.array([first] + [c[0, j] for j in range(1, k)])
    r = get_tight_binding_state(single(d, s, spec, ds=ds))
    near = tuple(p if p < b - b // 2 else p - b for p, b in zip(m, x))
    keep = np.zeros(sup)
    for p in itertools.product(*[range(t - b // 2, t - b // 2 + b) for t, b in zip(near, x)]):
        keep[tuple(v % b for v, b in zip(p, sup))] = 1
    env.eq(r["data"], (BM(supk(s, x)) @ expand(d[None], s, spec)[0][0]) * keep.reshape(-1), "around the maximum")


def normalised_cells(k, n, nb=1):
    """orthonormal Bloch states of every sample, numbers"""
    return np.array([[rng_unitary(n, 5 * j + 2)[:, b] for j in range(k)] for b in range(nb)])


def supers(s, x, kind):
    return [(kind, a * b) for a, b in zip(s, x)]


def super_deltas(s, ds):
    return [a * d for a, d in zip(s, ds)]


@harness("C17", [{"s": [2], "x": [3], "nb": 2, "no": 2}, {"s": [3], "x": [2], "nb": 1, "no": 1}, {"s": [2, 1], "x": [2, 2], "nb": 2, "no": 2}, {"s": [2], "x": [3], "nb": 3, "no": 1}, {"s": [1, 2], "x": [3, 2], "nb": 3, "no": 2}], [{"s": [4], "x": [3], "nb": 2, "no": 2}, {"s": [2, 2], "x": [2, 3], "nb": 2, "no": 2}], T)
def projections(env, s, x, nb, no):
    """the unitary mixing whose states are closest to the projections"""
    from surface_potential_analysis.wavepacket import localization as W

    S = Spectral(env)
    k, ds = int(np.prod(s)), deltas(len(s))
    spec = env.pick("basis", specs(x)[:2])
    n = N(spec)
    c = normalised_cells(k, n, nb)
    e = expand(c, s, spec)
    kind = env.pick("projection basis", ["K", "P"])
    P = BM(supers(s, x, "K"))
    g = 0
    A, best = [], []
    for j in range(k):
        m = min(nb, no)
        U = S.unitary(f"u{j}", nb)[:, :m] if nb == 2 else rng_unitary(nb, 40 + j)[:, :m]
        V = S.unitary(f"v{j}", no) if no == 2 and j == 0 else rng_unitary(no, 50 + j)
        V = V[:m]
        sv = S.energies(f"s{j}", m, 0.3)[::-1]
        A.append((U * sv) @ V)
        S.register_svd(A[j], U, sv, V)
        best.append(U @ V)
        g = g + np.array([e[b][j] for b in range(nb)]).T @ A[j]
    # a part the bands do not contain makes no difference
    if nb < n:
        full = expand(np.array([[rng_unitary(n, 5 * j + 2)[:, nb] for j in range(k)]]), s, spec)[0]
        g = g + np.outer(sum(full), np.arange(1, no + 1))
    g = g.T
    if kind == "P":
        g = env.array([P @ v for v in g])
    w = bands(c, s, spec, ds=ds)
    pr = {"basis": tup(fb(no), B(supers(s, x, kind), super_deltas(s, ds))), "data": g.reshape(-1)}
    before = snap(c, g)
    r = W.get_localization_operator_for_projections(w, pr)
    unchanged(env, before, c, g)
    env.true(r["basis"][0].n == k and tuple(r["basis"][1].shape) == (no, nb) and r["data"].ndim == 1, "shape")
    R = r["data"].reshape(k, no, nb)
    for j in range(k):
        env.eq(R[j], np.transpose(best[j]), "closest unitary")
    q = W.localize_wavepacket_projection(w, pr)
    env.true(tuple(q["basis"][0].shape) == (no, k) and q["data"].ndim == 1, "shape")
    isbasis(env, q["basis"][1], spec)
    Q = q["data"].reshape(no, k, n)
    for j in range(k):
        env.eq(Q[:, j], np.transpose(best[j]) @ c[:, j], "localised states")


GP = [{"s": [2], "x": [3]}, {"s": [3], "x": [2]}, {"s": [2, 2], "x": [2, 3]}, {"s": [2, 1, 2], "x": [1, 3, 2]}]
GPL = [{"s": [4], "x": [4]}, {"s": [3, 2], "x": [3, 3]}]


def bump(s, x, origin, a):
    """exp(-a d^2), d in unit cells from the image of every point nearest to the origin, normalised"""
    sup = [i * j for i, j in zip(s, x)]
    f = np.zeros(sup)
    for p in itertools.product(*[range(q) for q in sup]):
        d2 = 0
        for v, o, q, m in zip(p, origin, sup, x):
            d = (v - o + q // 2) % q - q // 2
            d2 += (d / m) ** 2
        f[p] = np.exp(-a * d2)
    f = f.reshape(-1)
    return f / np.linalg.norm(f)


@harness("C17", GP, GPL, T)
def reference_states(env, s, x):
    """the states projected on"""
    from surface_potential_analysis.wavepacket import localization as W
    from surface_potential_analysis.wavepacket.localization import _projection as Q

    nd, k, ds = len(s), int(np.prod(s)), deltas(len(s))
    spec, n, k, c, ds = cells(env, s, x, 1)
    sup = [a * b for a, b in zip(s, x)]
    m = env.pick("point", sorted({tuple(0 for _ in x), tuple(b - 1 for b in x), tuple(b // 2 for b in x)}))
    near = tuple(p if p < b - b // 2 else p - b for p, b in zip(m, x))
    i = env.pick("sample", sorted({0, k - 1}))
    w = single(c, s, spec, ds=ds)
    for origin in (m, tuple(p - b for p, b in zip(m, x))):
        r = Q.get_exponential_state(w, i, origin)
        isbasis(env, r["basis"], supers(s, x, "P"))
        env.eq(r["data"], bump(s, x, near, 1.0), "decay from the point")
        r = Q.get_single_point_state_for_wavepacket(w, i, origin)
        d = np.zeros(sup)
        d[tuple(v % q for v, q in zip(origin, sup))] = 1
        env.true(r["data"].shape == (d.size,), "flat")
        env.eq(r["basis"].__into_fundamental__(r["data"]), BM(supers(s, x, "K")).conj().T @ d.reshape(-1) if r["basis"].fundamental_n != d.size else d.reshape(-1), "single point")
        r = Q.get_gaussian_states(w, origin)
        env.true(r["basis"][0].n == 1, "one state")
        isbasis(env, r["basis"][1], supers(s, x, "P"))
        env.eq(r["data"], bump(s, x, near, 0.5), "gaussian about the point")
    shape = env.pick("shape", sorted({tuple(1 for _ in x), tuple(sup), tuple(min(2, b) for b in sup), tuple(max(1, b - 1) for b in sup)}))
    r = W.get_evenly_spaced_points(w["basis"], shape)
    env.true(tuple(r["basis"][0].shape) == shape, "shape")
    isbasis(env, r["basis"][1], supers(s, x, "P"))
    want = []
    for q in itertools.product(*[range(a) for a in shape]):
        d = np.zeros(sup)
        d[tuple((a * b) // t for a, b, t in zip(sup, q, shape))] = 1
        want.append(d.reshape(-1))
    env.eq(r["data"].reshape(len(want), -1), np.array(want), "evenly spaced points")


@harness("C17", GP, GPL, T)
def gauge_independent(env, s, x):
    """localisation by projection: the result does not depend on the phases of the Bloch states"""
    from surface_potential_analysis.wavepacket import localization as W

    S = Spectral(env)
    nd, k, ds = len(s), int(np.prod(s)), deltas(len(s))
    spec = env.pick("basis", [[("P", b) for b in x], [("K", b) if i % 2 == 0 else ("P", b) for i, b in enumerate(x)]])
    n = N(spec)
    m = env.pick("maximum", sorted({tuple(0 for _ in x), tuple(b - 1 for b in x)}))
    near = tuple(p if p < b - b // 2 else p - b for p, b in zip(m, x))
    r = np.random.RandomState(3)
    c = r.normal(size=(k, n)) + 1j * r.normal(size=(k, n))
    c *= 0.3 / np.linalg.norm(c, axis=1)[:, None]
    c += np.exp(1j * np.arange(k))[:, None] * np.conj(BM(spec)[int(np.ravel_multi_index(m, x))])[None]
    c /= np.linalg.norm(c, axis=1)[:, None]
    ph = [np.exp(1j * env.real(f"p{j}", -3.0, 3.0)) for j in range(k)]
    w = single(env.array([ph[j] * c[j] for j in range(k)]), s, spec, ds=ds)
    P = BM(supers(s, x, "K"))
    e = [P @ v for v in expand(c[None], s, spec)[0]]
    kind = env.pick("method", ["tight", "point", "decay", "gauss"])
    sup = [a * b for a, b in zip(s, x)]
    g, ref = None, ph[0]
    if kind == "tight":
        keep = np.zeros(sup)
        for p in itertools.product(*[range(t - b // 2, t - b // 2 + b) for t, b in zip(near, x)]):
            keep[tuple(v % b for v, b in zip(p, sup))] = 1
        g = e[0] * keep.reshape(-1)
        f = W.localize_tight_binding_projection
    elif kind == "point":
        # any of the equivalent maxima of the first state
        shifts = list(itertools.product(*[range(z) for z in s]))
        peaks = [int(np.ravel_multi_index(tuple(i + y * z for i, y, z in zip(m, t, x)), sup)) for t in shifts]
        size0 = [abs(v[peaks[0]]) for v in e]
        for q in peaks:
            for j in range(k):
                z = e[j][q].conj()
                S.register_svd(env.array([[np.conj(ph[j]) * z]]), env.array([[np.conj(ph[j])]]), env.array([abs(z)]), np.array([[z / abs(z)]]))
        g, ref = np.eye(len(e[0]))[peaks[0]], 1.0
        f = W.localize_single_point_projection
    elif kind == "decay":
        g = bump(s, x, near, 1.0) * e[0]
        f = W.localize_exponential_decay_projection
    else:
        g, ref = bump(s, x, tuple(0 for _ in x), 0.5), 1.0
        f = W.localize_wavepacket_gaussian_projection
    a = [np.vdot(v, g) for v in e]
    env.true(min(abs(v) for v in a) > 1e-6, "usable overlaps")
    norm = np.linalg.norm(g)
    for j in range(k):
        for t in ((1.0, norm) if kind in ("decay",) else (1.0,)):
            A = env.array([[np.conj(ph[j]) * ref * (a[j] / t)]])
            S.register_svd(A, env.array([[np.conj(ph[j]) * ref]]), env.array([abs(a[j] / t)]), np.array([[a[j] / abs(a[j])]]))
    out = f(w)
    env.true(out["data"].shape == (k * n,), "flat")
    isbasis(env, out["basis"][1], spec)
    R = out["data"].reshape(k, n)
    if kind == "point":
        # equivalent maxima differ by whole cells: compare up to such a translation
        rel = [R[j] for j in range(k)]
        env.eq(np.abs(env.array([np.vdot(c[j], rel[j]) for j in range(k)])), np.ones(k), "only a phase")
        miss = 1.0
        for t in shifts:
            v = value_at(expand(R[None], s, spec)[0], s, x, tuple(i + y * z for i, y, z in zip(m, t, x)))
            miss = miss * sum(abs(v[j] / size0[j] - 1) ** 2 for j in range(k))
        env.eq(miss, 0, "in phase at one of the equivalent maxima")
    else:
        env.eq(R, env.array([ref * (a[j] / abs(a[j])) * c[j] for j in range(k)]), "phase of the overlap")
    if kind == "tight":
        l = bands(env.array([[ph[j] * c[j] for j in range(k)]]), s, spec, ds=ds)
        o = W.get_localization_operator_tight_binding_projections(l)
        env.true(o["basis"][0].n == k and tuple(o["basis"][1].shape) == (1, 1), "shape")
        env.eq(o["data"], env.array([np.conj(ph[j]) * ref * (a[j] / abs(a[j])) for j in range(k)]), "phases of the samples")


def cart_x(s, x, ds):
    """first cartesian coordinate of every point of the super-cell"""
    out = []
    for p in itertools.product(*[range(a * b) for a, b in zip(s, x)]):
        out.append(sum(q / b * d[0] for q, b, d in zip(p, x, ds)))
    return np.array(out)


@harness("C17", [{"s": [2], "x": [3]}, {"s": [3], "x": [2]}, {"s": [2, 2], "x": [2, 1]}, {"s": [1, 2, 1], "x": [2, 2, 1]}], [{"s": [5], "x": [3]}, {"s": [2, 2], "x": [2, 3]}], T)
def position_eigenstates(env, s, x):
    """combinations of the Bloch states that are eigenstates of the projected position operator"""
    from surface_potential_analysis.wavepacket import localization as W
    from surface_potential_analysis.wavepacket.localization._operator import _get_position_operator

    S = Spectral(env)
    nd, k, ds = len(s), int(np.prod(s)), deltas(len(s))
    spec = env.pick("basis", [[("P", b) for b in x], [("K", b) for b in x]])
    n = N(spec)
    X = cart_x(s, x, ds)
    kind = env.pick("operator basis", ["K", "P"])
    bb = B(supers(s, x, kind), super_deltas(s, ds))
    o = _get_position_operator(bb)
    Pm = BM(supers(s, x, kind))
    env.eq(M(o), np.conj(Pm).T @ np.diag(X) @ Pm, "position along the first axis")
    nb = min(2, n)
    c = normalised_cells(k, n, nb)
    ph = [[np.exp(1j * env.real(f"p{b}_{j}", -3.0, 3.0)) for j in range(k)] for b in range(nb)]
    cs = [env.array([ph[b][j] * c[b][j] for j in range(k)]) for b in range(nb)]
    P = BM(supers(s, x, "K"))
    e = [[P @ v for v in q] for q in expand(c, s, spec)]
    ws = [single(cs[b], s, spec, np.arange(k) + 0.0 + b, ds) for b in range(nb)]

    def eig(states, phases):
        A = np.conj(np.array(states)) @ np.diag(X) @ np.array(states).T
        ev, v = np.linalg.eigh(A)
        env.true(float(np.min(np.diff(ev))) > 1e-6 if len(ev) > 1 else True, "distinct positions")
        V = env.array([np.conj(phases[i]) * v[i] for i in range(len(states))])
        S.register(env.array([[np.conj(phases[i]) * phases[j] * A[i, j] for j in range(len(states))] for i in range(len(states))]), ev, V)
        return v

    v = [eig(e[b], ph[b]) for b in range(nb)]
    picked = []
    for b in range(nb):
        r = W.localize_position_operator(ws[b])
        env.true(len(r) == k, "as many as there are samples")
        for i in range(k):
            q = r[i]
            env.true(q["data"].shape == (k * n,), "flat")
            env.eq(q["eigenvalue"], np.arange(k) + 0.0 + b, "energies of the samples")
            isbasis(env, q["basis"][1], spec)
            want = (v[b][:, i][:, None] * c[b]).reshape(-1)
            env.eq(np.outer(q["data"], np.conj(q["data"])), np.outer(want, np.conj(want)), "eigenstate of position")
    flat = [u for q in e for u in q]
    vv = eig(flat, [p for q in ph for p in q])
    r = W.localize_position_operator_many_band(ws)
    env.true(len(r) == k * nb, "as many as there are Bloch states")
    for i, q in enumerate(r):
        isbasis(env, q["basis"], supers(s, x, "P"))
        want = np.array(flat).T @ vv[:, i]
        env.eq(np.outer(q["data"], np.conj(q["data"])), np.outer(want, np.conj(want)), "eigenstate of position over the bands")


@harness("C17", [{"s": [2], "x": [3]}, {"s": [3], "x": [2]}, {"s": [4], "x": [2]}, {"s": [2, 2], "x": [2, 1]}], [{"s": [5], "x": [3]}, {"s": [2, 2], "x": [2, 3]}], T)
def position_of_each_band(env, s, x):
    """one localised state of every band, mixed into eigenstates of position"""
    from surface_potential_analysis.wavepacket import localization as W

    S = Spectral(env, phases=False)
    nd, k, ds = len(s), int(np.prod(s)), deltas(len(s))
    spec = env.pick("basis", [[("P", b) for b in x], [("K", b) for b in x]])
    n = N(spec)
    X = cart_x(s, x, ds)
    nb = 2
    c = normalised_cells(k, n, nb)
    ph = [[np.exp(1j * env.real(f"p{b}_{j}", -3.0, 3.0)) for j in range(k)] for b in range(nb)]
    ws = [single(env.array([ph[b][j] * c[b][j] for j in range(k)]), s, spec, np.arange(k) + 0.0 + b, ds) for b in range(nb)]
    P = BM(supers(s, x, "K"))
    e = [np.array([P @ v for v in q]) for q in expand(c, s, spec)]
    u = []
    for b in range(nb):
        A = np.conj(e[b]) @ np.diag(X) @ e[b].T
        ev, v = np.linalg.eigh(A)
        env.true(float(np.min(np.diff(ev))) > 1e-6, "distinct positions")
        S.register(env.array([[np.conj(ph[b][i]) * ph[b][j] * A[i, j] for j in range(k)] for i in range(k)]), ev, env.array([np.conj(ph[b][i]) * v[i] for i in range(k)]))
        u.append(v[:, k // 4] @ e[b])
    A = np.conj(u) @ np.diag(X) @ np.array(u).T
    ev, v = np.linalg.eigh(A)
    S.register(env.array(A / k), ev / k, v)
    r = W.localize_position_operator_many_band_individual(ws)
    env.true(len(r) == nb, "one state for every band")
    for i, q in enumerate(r):
        isbasis(env, q["basis"], supers(s, x, "K"))
        want = np.conj(P).T @ (v[:, i] @ np.array(u))
        got = q["data"] * np.sqrt(float(k))
        env.eq(np.outer(got, np.conj(got)), np.outer(want, np.conj(want)), "eigenstate of position over the localised states")


@harness("C17", GP[:3], GPL, T)
def tight_binding_projection_operator(env, s, x):
    """the operator of the projections on the tight binding states of the bands, and the localised free states"""
    from surface_potential_analysis.state_vector.util import get_most_localized_free_state_vectors
    from surface_potential_analysis.wavepacket import localization as W
    from surface_potential_analysis.wavepacket.localization import _projection as Q

    sh = env.pick("shape", sorted({tuple(1 for _ in x), tuple(x), tuple(min(2, b) for b in x)}))
    nd, ds = len(s), deltas(len(s))
    spec = [("K", b) for b in x]
    w = bands(normalised_cells(int(np.prod(s)), N(spec), 1), s, spec, ds=ds)
    r = get_most_localized_free_state_vectors(tup(w["basis"][0][1], w["basis"][1]), sh)
    env.true(tuple(r["basis"][0].shape) == sh, "one state for every point")
    isbasis(env, r["basis"][1], [("TP", a * t, a * b) for a, b, t in zip(s, x, sh)])
    L = r["data"].reshape(int(np.prod(sh)), -1)
    for i, m in enumerate(itertools.product(*[range(t) for t in sh])):
        want = np.ones(1)
        for mm, t, a in zip(m, sh, s):
            want = np.kron(want, np.exp(-2j * np.pi * (mm if mm < t - t // 2 else mm - t) * np.array([round(z) for z in np.fft.fftfreq(a * t, 1 / (a * t))]) / t / a) / np.sqrt(a * t))
        env.eq(L[i], want, "evenly occupied, moved by a fraction of the unit cell")
    for i in range(nd):
        env.eq(r["basis"][1][i].delta_x, s[i] * np.array(ds[i]), "the whole of the cell")


@harness("C17", GP[:2], [], T)
def states_of_mean_occupation(env, s, x):
    """states occupied as the bands are on average, moved to chosen points of the unit cell"""
    from surface_potential_analysis.state_vector.util import get_most_localized_state_vectors_from_probability

    nb, nd = 2, len(s)
    spec = [("K", b) for b in x]
    w = bands(env.cvec("a", nb, int(np.prod(s)), N(spec)), s, spec)
    (w0,) = snap(w["data"])
    m = env.pick("m", [1, 2])
    fr = tuple(np.array([0.0, 0.25 + 0.125 * i])[:m] if m > 1 else np.array([-0.3 + 0.1 * i]) for i in range(nd))
    r = get_most_localized_state_vectors_from_probability(w, fr)
    env.true(r["basis"].shape == (m, N(spec) * int(np.prod(s))), "one state for every point")
    L = r["data"].reshape(m, -1)
    u = w0.reshape(nb, *s, *x)[:m]
    # occupation of k = (bloch index) + (list shape) * (band index), in the order of the unfurled states
    fq, big = (lambda i, n: int(list(freqs(n))[i])), tuple(a * b for a, b in zip(s, x))
    at = np.zeros(big, dtype=int)
    for n, (j, g) in enumerate(itertools.product(itertools.product(*[range(a) for a in s]), itertools.product(*[range(b) for b in x]))):
        at[tuple((fq(a, b) + b * fq(c, d)) % (b * d) for a, b, c, d in zip(j, s, g, x))] = n
    p = (np.sum(np.abs(u.reshape(m, -1)) ** 2, axis=0) / m)[at.reshape(-1)]
    q = np.meshgrid(*[np.arange(n) for n in big], indexing="ij")
    for i in range(m):
        ph = np.exp(-2j * np.pi * sum(fr[d][i] * q[d].reshape(-1) / s[d] for d in range(nd)))
        norm = np.sqrt(np.sum(np.abs(ph * np.sqrt(p)) ** 2))
        env.eq(L[i] * norm, ph * np.sqrt(p), "occupied as the bands are, moved to the point")
    env.eq(w["data"], w0, "input untouched")
