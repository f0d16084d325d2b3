"""Planted bugs, third batch (C16-C23)."""
PRE = """
import numpy as np
from surface_potential_analysis.basis.basis import *
from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis, EvenlySpacedTransformedPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.state_vector.conversion import *
rng = np.random.default_rng(7)
def cx(*s):
    return rng.normal(size=s) + 1j * rng.normal(size=s)
def lattice(ns, nx, trunc=None, cls=FundamentalTransformedPositionBasis):
    lb = TupleBasis(*(FundamentalTransformedBasis(n) for n in ns))
    d = len(nx)
    e = np.eye(d) * (1 + np.arange(d))
    xb = TupleBasis(*(TransformedPositionBasis(e[i], (trunc or nx)[i], nx[i]) for i in range(d)))
    return lb, xb
def waves(nb, ns, nx, trunc=None):
    lb, xb = lattice(ns, nx, trunc)
    d = np.stack([np.linalg.qr(cx(xb.n, xb.n))[0][:, :nb] for _ in range(lb.n)])
    d = np.moveaxis(d, -1, 0)
    return {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), lb), xb), "data": d.ravel(), "eigenvalue": rng.normal(size=nb * lb.n).astype(complex)}
"""
SEEDS = []


def s(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": PRE + demo})


WP = "wavepacket/wavepacket.py"
GE = "wavepacket/get_eigenstate.py"
s("c16-band-offset", "C16", "bands chosen with an evenly spaced basis that does not start at the lowest band",
  "the bands stored are counted from the lowest one",
  [(WP, ("subset_by_index = (offset, offset + step * (band_basis.n - 1))", "subset_by_index = (0, offset + step * (band_basis.n - 1))"))], """
from surface_potential_analysis.wavepacket.wavepacket import generate_wavepacket
lb, xb = lattice((2,), (5,))
def h(k):
    r = np.random.default_rng(int(1000 * abs(k[0])))
    a = r.normal(size=(5, 5)); a = a + a.T
    return {"basis": TupleBasis(xb, xb), "data": a.astype(complex).ravel()}
for b, want in ((EvenlySpacedBasis(2, 2, 0), [0, 2]), (EvenlySpacedBasis(2, 2, 1), [1, 3]), (FundamentalBasis(3), [0, 1, 2])):
    w = generate_wavepacket(h, lb, b)
    for i, f in enumerate((0.0, -0.5)):
        e = np.linalg.eigvalsh(h([f])["data"].reshape(5, 5))
        assert np.allclose(w["eigenvalue"].reshape(b.n, 2)[:, i], e[want]), (want, f)
""")
s("c16-even-cell", "C16", "an even number of points in the unit cell and more than one sample",
  "the unfurled state is rolled to the wrong zero when the cell has an even number of points",
  [("wavepacket/eigenstate_conversion.py", ("-(list_shape[i] // 2 + (list_shape[i] * (states_shape[i] // 2))) for i", "-((list_shape[i] * states_shape[i]) // 2) for i"))], """
from surface_potential_analysis.wavepacket.eigenstate_conversion import unfurl_wavepacket
for ns, nx in (((3,), (3,)), ((2,), (3,)), ((3,), (4,)), ((2, 3), (2, 3))):
    w = waves(1, ns, nx)
    w = {"basis": TupleBasis(w["basis"][0][1], w["basis"][1]), "data": w["data"]}
    u = unfurl_wavepacket(w)
    full = u["data"].reshape([a * b for a, b in zip(ns, nx)])
    d = w["data"].reshape(*ns, *nx)
    for i in np.ndindex(*ns):
        k = [j if j < (n + 1) // 2 else j - n for j, n in zip(i, ns)]
        for g in np.ndindex(*nx):
            m = [j if j < (n + 1) // 2 else j - n for j, n in zip(g, nx)]
            at = tuple((kk + n * mm) % (n * x) for kk, mm, n, x in zip(k, m, ns, nx))
            assert np.isclose(full[at] * np.sqrt(np.prod(ns)), d[(*i, *g)])
""")
s("c16-zone-edge", "C16", "an even number of samples, at the sample on the edge of the zone",
  "the state on the zone edge is placed at plus instead of minus half a reciprocal vector",
  [(GE, ("offset=wrap_index_around_origin(TupleBasis(FundamentalBasis(list_ax.n)), (o,), origin=0)[0]", "offset=o if 2 * o <= list_ax.n else o - list_ax.n"))], """
from surface_potential_analysis.wavepacket.get_eigenstate import *
from surface_potential_analysis.wavepacket.eigenstate_conversion import unfurl_wavepacket
for n in (3, 2, 4):
    w = waves(1, (n,), (3,))
    w = {"basis": TupleBasis(w["basis"][0][1], w["basis"][1]), "data": w["data"], "eigenvalue": w["eigenvalue"]}
    u = unfurl_wavepacket(w)["data"]
    t = 0
    for i in range(n):
        v = get_wavepacket_state_vector(w, i)
        t = t + convert_state_vector_to_momentum_basis(v)["data"]
    assert np.allclose(t / np.sqrt(n), u), n
""")
s("c16-shape", "C16", "resampling two axes by different factors",
  "the sampling is thinned along the second axis by the factor of the first",
  [("wavepacket/conversion.py", ("s0 // s1) for (s0, s1) in zip(old_shape, shape, strict=True)", "old_shape[0] // shape[0] if s0 == old_shape[0] else s0 // s1) for s0, s1 in zip(old_shape, shape, strict=True)"))], """
from surface_potential_analysis.wavepacket.conversion import convert_wavepacket_to_shape as f
for ns, new in (((4, 6), (2, 2)), ((4, 4), (2, 4)), ((4, 4), (4, 2))):
    w = waves(1, ns, (2, 2))
    w = {"basis": TupleBasis(w["basis"][0][1], w["basis"][1]), "data": w["data"]}
    r = f(w, new)
    want = w["data"].reshape(*ns, 4)[::ns[0] // new[0], ::ns[1] // new[1]]
    assert np.allclose(r["data"], want.ravel())
""")
LP = "wavepacket/localization/_projection.py"
s("c17-projection-conj", "C17", "several bands with complex overlaps with the projections",
  "the states are mixed with the complex conjugate of the unitary part of their overlaps",
  [(LP, ("orthonormal_a.T.reshape(-1)", "orthonormal_a.conj().T.reshape(-1)"))], """
from surface_potential_analysis.wavepacket.localization._projection import localize_wavepacket_projection
from surface_potential_analysis.wavepacket.get_eigenstate import get_states_at_bloch_idx
w = waves(2, (2,), (4,))
P = TupleBasis(FundamentalTransformedPositionBasis(np.array([2.0]), 8))
p = {"basis": TupleBasis(FundamentalBasis(2), P), "data": cx(16)}
r = localize_wavepacket_projection(w, p)
for i in range(2):
    st = get_states_at_bloch_idx(r, i)
    c = convert_state_vector_list_to_basis(p, st["basis"][1])["data"].reshape(2, -1)
    o = st["data"].reshape(2, -1).conj() @ c.T
    assert np.allclose(o, o.conj().T) and np.all(np.linalg.eigvalsh(o) > -1e-9)
""")
TB = "wavepacket/localization/_tight_binding.py"
s("c17-angle", "C17", "a non-zero angle for a wavepacket localised about its largest point",
  "the requested angle enters as a real exponent",
  [(TB, ("phases = np.exp(-1j * (bloch_phases + global_phases - angle))", "phases = np.exp(-1j * (bloch_phases + global_phases) - angle)"))], """
from surface_potential_analysis.wavepacket.localization._tight_binding import localize_tightly_bound_wavepacket_max_point as f
w = waves(1, (2, 2, 1), (2, 2, 2))
w = {"basis": TupleBasis(w["basis"][0][1], w["basis"][1]), "data": w["data"], "eigenvalue": w["eigenvalue"]}
for a in (0, 0.7):
    r = f(w, a)["data"].reshape(4, -1)
    assert np.allclose(np.linalg.norm(r, axis=1), np.linalg.norm(w["data"].reshape(4, -1), axis=1))
""")
s("c17-global-phase", "C17", "a unit cell with different numbers of points along its axes",
  "the phase accumulated over the cell uses the number of samples of the first axis",
  [(TB, ("tuple(a / ni for (a, ni) in zip(nx_points, basis.shape, strict=True))", "tuple(a / basis.shape[0] for a in nx_points)"))], """
from surface_potential_analysis.wavepacket.localization._tight_binding import localize_tightly_bound_wavepacket_idx as f
from surface_potential_analysis.wavepacket.eigenstate_conversion import unfurl_wavepacket
for nx in ((3, 3), (2, 3)):
    w = waves(1, (2, 3), nx)
    w = {"basis": TupleBasis(w["basis"][0][1], w["basis"][1]), "data": w["data"]}
    v = convert_state_vector_to_position_basis(unfurl_wavepacket(f(w, (1, 2))))["data"].reshape(2 * nx[0], 3 * nx[1])
    best = np.sum(np.abs(f(w, (1, 2))["data"].reshape(6, -1) @ np.exp(2j * np.pi * (np.outer(np.fft.fftfreq(nx[0]) * 1, np.ones(nx[1])) + np.fft.fftfreq(nx[1]) * 2)).ravel()))
    assert np.isclose(abs(v[1, 2]), best / np.sqrt(np.prod(nx) * 6) / np.sqrt(6), rtol=1e-6) or np.isclose(v[1, 2], best / 6 / np.sqrt(np.prod(nx))), (nx, v[1, 2], best)
""")
LO = "wavepacket/localization_operator.py"
s("c17-localized-hamiltonian", "C17", "a complex localisation operator with different numbers of bands and localised states",
  "the localised Hamiltonian is transposed",
  [(LO, ('"dic,cd,djc->dij"', '"djc,cd,dic->dij"'))], """
from surface_potential_analysis.wavepacket.localization_operator import *
from surface_potential_analysis.wavepacket.get_eigenstate import get_bloch_hamiltonian
w = waves(3, (2,), (4,))
U = np.stack([np.linalg.qr(cx(3, 3))[0][:2] for _ in range(2)])
op = {"basis": TupleBasis(w["basis"][0][1], TupleBasis(FundamentalBasis(2), w["basis"][0][0])), "data": U.ravel()}
r = get_localized_hamiltonian_from_eigenvalues(get_bloch_hamiltonian(w), op)["data"].reshape(2, 2, 2)
E = w["eigenvalue"].reshape(3, 2)
for k in range(2):
    assert np.allclose(r[k], U[k].conj() @ np.diag(E[:, k]) @ U[k].T)
""")
PB = "stacked_basis/potential_basis.py"
s("c18-deepest", "C18", "a potential whose deepest point is not in the column with the lowest mean",
  "the column along z is the one with the lowest mean rather than the one holding the minimum",
  [(PB, ("arg_min = np.unravel_index(np.argmin(potential['data']), shape)", 'arg_min = np.unravel_index(\n        np.argmin(np.mean(np.reshape(potential["data"], shape), axis=2)), shape[:2]\n    )'))], """
from surface_potential_analysis.stacked_basis.potential_basis import select_minimum_potential_3d as f
b = TupleBasis(*(FundamentalPositionBasis(np.eye(3)[i], n) for i, n in enumerate((2, 3, 2))))
d = np.ones((2, 3, 2)); d[0, 1] = [0.1, 0.1]; d[1, 2] = [-0.5, 4]
assert np.allclose(f({"basis": b, "data": d.ravel()})["data"], [-0.5, 4])
""")
s("c18-bloch-fraction", "C18", "a negative Bloch fraction in a finite set of plane waves",
  "the Bloch fraction is folded into [0, 1) first",
  [(PB, ("np.array([bloch_fraction])", "np.array([bloch_fraction % 1])"))], """
from surface_potential_analysis.stacked_basis.potential_basis import get_potential_basis_config_eigenstates as f
from surface_potential_analysis.hamiltonian_builder.momentum_basis import total_surface_hamiltonian
from scipy.constants import hbar
b = TupleBasis(FundamentalPositionBasis(np.array([1.0]), 5))
v = {"basis": b, "data": rng.normal(size=5)}
for q in (0.2, -0.3):
    r = f({"potential": v, "mass": hbar ** 2, "n": 3}, bloch_fraction=q)
    h = total_surface_hamiltonian(v, hbar ** 2, np.array([q]))
    assert np.allclose(r["eigenvalue"], np.linalg.eigvalsh(h["data"].reshape(5, 5))[:3]), q
""")
s("c18-sho-origin", "C18", "an origin that lies on the negative side of, or off, the axis",
  "the distance from the origin uses the length of the origin vector",
  [("stacked_basis/sho_basis.py", ("distances_origin = np.dot(x0_norm, x_origin)", "distances_origin = np.linalg.norm(x_origin)"))], """
from surface_potential_analysis.stacked_basis.sho_basis import calculate_x_distances as f
b = FundamentalPositionBasis(np.array([0.0, 0.0, 2.0]), 4)
x = np.arange(4) / 2
for o in ([0, 0, 1.5], [0, 0, -1.5], [3.0, 0, -1.0]):
    assert np.allclose(f(b, np.array(o)), x + o[2])
""")
TM = "dynamics/incoherent_propagation/tunnelling_matrix.py"
s("c19-band-locations", "C19", "a reduction to fewer bands which lie at different places",
  "the reduced matrix keeps the locations of the last bands",
  [(TM, ("locations[:, 0:n_bands]", "locations[:, -n_bands:]"))], """
from surface_potential_analysis.dynamics.incoherent_propagation.tunnelling_matrix import get_a_matrix_reduced_bands as f
from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis as T
bb = T(rng.random((2, 3)), np.eye(2))
b = TupleBasis(FundamentalBasis(2), FundamentalBasis(2), bb)
for n in (3, 2, 1):
    r = f({"basis": TupleBasis(b, b), "data": rng.random(144).astype(complex)}, n)
    assert np.allclose(r["basis"][0][2].locations, bb.locations[:, :n]), n
""")
s("c19-flat-hop", "C19", "a hop over the edge of the lattice along its second direction",
  "hops are rolled over the flattened sites, so a hop over the edge of the lattice lands in the next row",
  [("dynamics/util.py", ("return np.roll(operator, hop_shift, tuple(range(len(shape))))", "stride = [int(np.prod(shape[i + 1 :])) for i in range(len(shape))]\n    flat = sum(h * s for h, s in zip(hop_shift, stride, strict=True))\n    return np.roll(\n        operator.reshape(int(np.prod(shape)), -1), flat, axis=0\n    ).reshape(*shape, *shape)"))], """
from surface_potential_analysis.dynamics.incoherent_propagation.tunnelling_matrix import *
from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis as T
bb = T(rng.random((2, 1)), np.eye(2))
j = {"basis": TupleBasis(bb, bb), "data": rng.random(9) + 1}
for shape in ((3, 3), (2, 4)):
    r = get_a_matrix_from_jump_matrix(j, shape)["data"].reshape(*shape, *shape)
    for a in np.ndindex(*shape):
        assert np.allclose(np.roll(r[a], [-i for i in a], axis=(0, 1)), r[0, 0]), (shape, a)
""")
SO = "dynamics/schrodinger/solve.py"
s("c20-first-time", "C20", "times that do not start at zero, with a diagonal Hamiltonian",
  "evolution under a diagonal Hamiltonian starts at the first requested time",
  [(SO, ("data = converted_state['data'][np.newaxis, :] * np.exp(-1j * (hamiltonian['data'][np.newaxis, :]) * times.times[:, np.newaxis] / hbar)", 'data = converted_state["data"][np.newaxis, :] * np.exp(\n        -1j\n        * hamiltonian["data"][np.newaxis, :]\n        * (times.times - times.times[0])[:, np.newaxis]\n        / hbar\n    )'))], """
from surface_potential_analysis.dynamics.schrodinger.solve import solve_schrodinger_equation_diagonal as f
from surface_potential_analysis.basis.time_basis_like import *
from scipy.constants import hbar
b = FundamentalBasis(2)
v = cx(2)
E = np.array([1.0, -0.4]) * hbar
for t in (FundamentalTimeBasis(4, 3.0), EvenlySpacedTimeBasis(2, 2, 1, 3.0), ExplicitTimeBasis(np.array([0.5, 2.0]))):
    r = f({"basis": b, "data": v}, t, {"basis": TupleBasis(b, b), "data": E.astype(complex)})["data"].reshape(t.n, 2)
    assert np.allclose(r, v * np.exp(-1j * E / hbar * t.times[:, None]))
""")
s("c20-decay", "C20", "rate matrices with oscillating modes",
  "populations evolve with the real parts of the eigenvalues only",
  [("dynamics/incoherent_propagation/eigenstates.py", ("np.exp(eigenstates['eigenvalue'][np.newaxis, :] * times[:, np.newaxis])", 'np.exp(\n        np.real(eigenstates["eigenvalue"])[np.newaxis, :] * times[:, np.newaxis]\n    )'))], """
from surface_potential_analysis.dynamics.incoherent_propagation.eigenstates import *
import scipy.linalg
b = FundamentalBasis(3)
for M in (np.array([[-1, 1, 0], [1, -2, 1], [0, 1, -1.0]]), np.array([[-1, 0.1, 1], [1, -1.1, 0], [0, 1, -1.0]])):
    t = np.array([0.0, 0.7])
    r = calculate_tunnelling_simulation_state({"basis": TupleBasis(b, b), "data": M.ravel().astype(complex)}, {"basis": TupleBasis(b, b), "data": np.array([1, 0, 0j])}, t)
    assert np.allclose(r["data"].reshape(2, 3)[1], scipy.linalg.expm(M * 0.7)[:, 0])
""")
DE = "util/decorators.py"
s("c21-keep-stale", "C21", "an explicit cached call when a cache file is already there",
  "a forced call leaves an existing cache file as it was",
  [(DE, ("        if cache_path is not None:\n            with cache_path.open(\"wb\") as f:", "        if cache_path is not None and not cache_path.exists():\n            with cache_path.open(\"wb\") as f:"))], """
import tempfile, pathlib
from surface_potential_analysis.util.decorators import cached
with tempfile.TemporaryDirectory() as d:
    n = [0]
    @cached(pathlib.Path(d) / "a.pkl")
    def f(x):
        n[0] += 1
        return x * n[0]
    assert f(2) == 2 and f(2) == 2
    assert f.call_cached(2) == 4
    assert f(2) == 4
""")
s("c21-falsy", "C21", "a function returning zero, an empty list or False",
  "falsy results are not taken from the cache",
  [(DE, ('        obj = self._load_cache(*args, **kw)\n        if obj is None:\n            obj = self.call_cached(*args, **kw)', '        obj = self._load_cache(*args, **kw)\n        if not isinstance(obj, np.ndarray) and not obj:\n            obj = self.call_cached(*args, **kw)'))], """
import tempfile, pathlib
from surface_potential_analysis.util.decorators import cached
with tempfile.TemporaryDirectory() as d:
    for v in (3, 0, [], False):
        n = [0]
        p = pathlib.Path(d) / "a.pkl"
        p.unlink(missing_ok=True)
        @cached(p)
        def f():
            n[0] += 1
            return v if n[0] == 1 else "again"
        assert f() == v and f() == v, v
""")
OC = "overlap/calculation.py"
OI = "overlap/interpolation.py"
s("c22-largest", "C22", "keeping only the largest points of an overlap with negative or complex values",
  "the points kept are those with the largest real part",
  [(OI, ("np.argsort(np.abs(vector_transformed))[::-1]", "np.argsort(np.real(vector_transformed))[::-1]"))], """
from surface_potential_analysis.overlap.interpolation import get_overlap_momentum_interpolator_flat as f
b = TupleBasis(*(FundamentalPositionBasis(np.eye(3)[i], n) for i, n in enumerate((2, 2, 1))))
d = np.array([0.1, -3, 0.2j, 0.3 + 0j])
o = {"basis": TupleBasis(b, TupleBasis(FundamentalBasis(1), FundamentalBasis(1))), "data": d}
assert np.isclose(f(o, 1)(np.array([[0.0], [0.0]]))[0], -3)
""")
s("c22-angle-average", "C22", "several momenta in an array with more than one dimension",
  "the angle averages are returned in column order",
  [(OI, ("np.array(averages).reshape(abs_q.shape)", 'np.array(averages).reshape(abs_q.shape, order="F" if abs_q.ndim > 1 else "C")'))], """
from surface_potential_analysis.overlap.interpolation import get_angle_averaged_diagonal_overlap_function as f
q = np.array([[1.0, 2.0], [3.0, 4.0]])
r = f(lambda k: np.linalg.norm(k, axis=0), q, theta_samples=4)
assert np.allclose(r, q ** 2)
""")
PV = "probability_vector/probability_vector.py"
s("c23-axis", "C23", "summing over axes that are not the leading ones",
  "the sum runs over the leading axes, whichever are asked for, when all axes have equal length",
  [(PV, ('np.sum(probability["data"].reshape(probability["basis"].shape), axis=axis)', 'np.sum(\n            probability["data"].reshape(probability["basis"].shape),\n            axis=axis if len(axis) < 2 else tuple(range(axis[0], axis[0] + len(axis))),\n        )'))], """
from surface_potential_analysis.probability_vector.probability_vector import sum_probability as f
b = TupleBasis(*(FundamentalBasis(n) for n in (2, 3, 2)))
p = rng.random(12)
for ax in ((0,), (1, 2), (0, 2), (0, 1, 2), None):
    r = f({"basis": b, "data": p}, ax)
    assert np.allclose(r["data"], np.sum(p.reshape(2, 3, 2), axis=ax).ravel()), ax
""")
s("c23-square", "C23", "complex amplitudes in a list of states",
  "the probabilities of a list are the squares of the real part when the list holds a single state",
  [(PV, ('return {"basis": states["basis"], "data": np.square(np.abs(states["data"]))}', 'return {\n        "basis": states["basis"],\n        "data": np.real(\n            states["data"] * states["data"].reshape(states["basis"].shape).conj().ravel()\n            if states["basis"].shape[0] > 1\n            else np.square(states["data"])\n        ),\n    }'))], """
from surface_potential_analysis.probability_vector.probability_vector import from_state_vector_list as f
for n in (2, 1):
    v = cx(3 * n)
    assert np.allclose(f({"basis": TupleBasis(FundamentalBasis(n), FundamentalBasis(3)), "data": v})["data"], abs(v) ** 2)
""")
s("c24-negative-step", "C24", "a time basis with a step and an offset larger than the step",
  "the sampled times of an evenly spaced basis start at the offset modulo the step",
  [("basis/time_basis_like.py", ("self.fundamental_dt * self.nt_points", "self.fundamental_dt * (\n            self.nt_points - self.offset + self.offset % self.step\n        )"))], """
from surface_potential_analysis.basis.time_basis_like import *
for n, step, off in ((3, 2, 1), (3, 2, 2), (2, 2, 3)):
    b = EvenlySpacedTimeBasis(n, step, off, 6.0)
    assert np.allclose(b.times, 6.0 / b.fundamental_n * (off + step * np.arange(n))), (n, step, off)
""")
