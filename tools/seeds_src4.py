"""Planted bugs, fourth batch (C03-C08, C25-C30)."""
PRE = """
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from surface_potential_analysis.basis.basis import *
from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.state_vector.conversion import *
rng = np.random.default_rng(7)
def cx(*s):
    return rng.normal(size=s) + 1j * rng.normal(size=s)
def pos(*ns, skew=0.0):
    d = len(ns)
    e = np.eye(d) * (1 + np.arange(d))
    e[-1] += skew
    return TupleBasis(*(FundamentalPositionBasis(e[i], n) for i, n in enumerate(ns)))
"""
SEEDS = []


def s(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": PRE + demo})


W9 = "wavepacket/localization/_wannier90.py"
s("c25-offset-axes", "C25", "a lattice with fewer than three dimensions and a neighbour in another zone",
  "offsets between zones are applied to the padded axes when the lattice has fewer than three dimensions",
  [(W9, ("padded_shape[: state['basis'].ndim] = state['basis'].shape\n    vector = np.roll", "padded_shape[3 - state[\"basis\"].ndim :] = state[\"basis\"].shape\n    vector = np.roll"))], """
from surface_potential_analysis.wavepacket.localization._wannier90 import _get_offset_bloch_state as f
for n in ((2, 2, 3), (2, 3)):
    b = TupleBasis(*(FundamentalTransformedPositionBasis(np.eye(len(n))[i], k) for i, k in enumerate(n)))
    v = cx(*n)
    assert np.allclose(f({"basis": b, "data": v.ravel()}, (1, -1, 0))["data"].reshape(n), np.roll(v, (-1, 1), (0, 1)))
""")
s("c25-ignored-zone", "C25", "an ignored axis along which a neighbour lies in another zone",
  "the zone of a neighbour along an ignored axis is written as zero",
  [(W9, ('    block = f"{k_0} {k_1} {offset[0]} {offset[1]} {offset[2]}"\n', ''), ("        offset[i] = 0\n", '        offset[i] = 0\n    block = f"{k_0} {k_1} {offset[0]} {offset[1]} {offset[2]}"\n'))], """
from surface_potential_analysis.wavepacket.localization._wannier90 import _build_mmn_file_block as f, Wannier90Options
lb = TupleBasis(*(FundamentalTransformedBasis(n) for n in (2, 1, 1)))
xb = TupleBasis(*(FundamentalTransformedPositionBasis(np.eye(3)[i], n) for i, n in enumerate((2, 1, 2))))
w = {"basis": TupleBasis(TupleBasis(FundamentalBasis(1), lb), xb), "data": cx(8), "eigenvalue": cx(2)}
for ig in ((), (2,)):
    r = f(w, (1, 2, 0, 0, 1), options=Wannier90Options(projection={"basis": TupleBasis(FundamentalBasis(1))}, ignore_axes=ig))
    assert r.split("\\n")[0].split() == ["1", "2", "0", "0", "1"], r
""")
s("c25-individual", "C25", "two or more bands localised one by one, more than one sample",
  "the operators of separate bands are interleaved with the samples",
  [(W9, ("np.array(operator_data).reshape(n_bands, wavepackets['basis'][0][1].n).swapaxes(0, 1)", 'np.array(operator_data).reshape(\n        wavepackets["basis"][0][1].n, n_bands\n    )'))], """
import surface_potential_analysis.wavepacket.localization._wannier90 as W
lb = TupleBasis(FundamentalTransformedBasis(3))
xb = TupleBasis(FundamentalTransformedPositionBasis(np.array([1.0]), 4))
w = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), lb), xb), "data": cx(24)}
ph = iter([np.array([1, 2, 3.0]), np.array([4, 5, 6.0])])
W.get_localization_operator_wannier90 = lambda *a, **k: {"data": next(ph)}
r = W.get_localization_operator_wannier90_individual_bands(w)["data"].reshape(3, 2, 2)
assert np.allclose(r, [np.diag([1, 4]), np.diag([2, 5]), np.diag([3, 6])])
""")
SP = "state_vector/plot.py"
s("c27-periodic-axis", "C27", "a cell with different numbers of points and a direction along a later axis",
  "the periodic position operator divides every direction by the points of the first axis",
  [(SP, ("dk = tuple(n / f for (n, f) in zip(direction, util.shape))", "dk = tuple(n / util.shape[0] for n in direction)"))], """
from surface_potential_analysis.state_vector.plot import get_periodic_x_operator as f
for n in ((3, 3), (2, 3)):
    b = pos(*n)
    d = np.diag(f(b, (0, 1))["data"].reshape(b.n, b.n)).reshape(n)
    assert np.allclose(d, np.exp(2j * np.pi * np.arange(n[1]) / n[1])[None, :]), n
""")
s("c27-complex-isf", "C27", "a scattering momentum which is not zero",
  "the intermediate scattering function loses the sign of its phase",
  [(SP, ("re_re - im_im + 1j * (re_im + im_re)", "re_re - im_im + 1j * np.abs(re_im + im_re)"))], """
from surface_potential_analysis.state_vector.plot import get_average_isf as f
from surface_potential_analysis.basis.time_basis_like import *
x = np.array([0.0, 0.4, 1.0])
for sg in (1, -1):
    r = f({"basis": TupleBasis(FundamentalBasis(1), FundamentalTimeBasis(3, 3.0)), "data": sg * x}, 1.0)["data"]
    a = np.mean(np.exp(1j * sg * (x[1:] - x[:-1])))
    assert np.isclose(r[1], a) or np.isclose(r[1], a.conj())
    if sg == 1:
        first = r[1]
    else:
        assert np.isclose(r[1], np.conj(first))
""")
s("c27-displacement-runs", "C27", "several runs of trajectories of different lengths of displacement",
  "the mean squared displacement of every run is normalised by the number of runs",
  [(SP, ("squared_diff = (total - 2 * convolution) / np.arange(1, basis[1].n + 1)[::-1]", "squared_diff = (total - 2 * convolution) / np.maximum(\n        np.arange(1, basis[1].n + 1)[::-1], basis[0].n\n    )"))], """
from surface_potential_analysis.state_vector.plot import get_average_displacements as f
from surface_potential_analysis.basis.time_basis_like import *
for k in (1, 2, 3):
    x = rng.normal(size=(k, 4))
    r = f({"basis": TupleBasis(FundamentalBasis(k), FundamentalTimeBasis(4, 3.0)), "data": x.ravel()})["data"].reshape(k, 4)
    for lag in range(4):
        assert np.allclose(r[:, lag], np.mean((x[:, lag:] - x[:, : 4 - lag]) ** 2, axis=1)), (k, lag)
""")
s("c27-spread-cell", "C27", "an axis of a skew cell",
  "the spread is scaled by the component of the lattice vector along its own cartesian axis",
  [(SP, ('q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])\n    sigma_0', 'q = 2 * np.pi / np.abs(states["basis"][1].delta_x_stacked[axis][axis])\n    sigma_0'))], """
from surface_potential_analysis.state_vector.plot import _get_x_spread as f
for sk in (0.0, 0.7):
    b = pos(3, 4, skew=sk)
    v = cx(12)
    v /= np.linalg.norm(v)
    r = f({"basis": TupleBasis(FundamentalBasis(1), b), "data": v}, 1)["data"]
    m = abs(np.sum(abs(v.reshape(3, 4)) ** 2 * np.exp(2j * np.pi * np.arange(4) / 4)))
    L = np.linalg.norm(b.delta_x_stacked[1])
    assert np.allclose(r, L / np.pi * np.sqrt(-np.log(m)))
""")
UP = "util/plot.py"
s("c28-skew-plane", "C28", "an animation through a skew third axis",
  "every frame of an animation through the cell is drawn at the coordinates of the first plane",
  [(UP, ("*coordinates[:2, :, :, i]", "*coordinates[:2, :, :, 0 * i]"))], """
from surface_potential_analysis.util.plot import animate_data_through_surface_x as f
for sk in (0.0, 0.5):
    b = pos(2, 2, 3, skew=sk)
    fig, ax, ani = f(b, np.arange(12) + 0j)
    for i, fr in enumerate(ani._framedata if hasattr(ani, "_framedata") else ani._frames):
        c = fr[0].get_coordinates()
        want = BasisUtil(b).x_points_stacked.reshape(3, 2, 2, 3)[:2, :, :, i]
        assert np.allclose(c.reshape(-1, 2).mean(axis=0), want.reshape(2, -1).mean(axis=1)), (sk, i)
    plt.close(fig)
""")
s("c28-closing-point", "C28", "a periodic curve whose coordinates do not start at zero",
  "the closing point of a periodic curve is drawn at the last plus the second coordinate",
  [(UP, ("coordinates = np.append(coordinates, coordinates[-1] + d_coord)", "coordinates = np.append(\n            coordinates, coordinates[-1] + (coordinates[1] if coordinates[1] > 0 else d_coord)\n        )"))], """
from surface_potential_analysis.util.plot import plot_data_1d as f
for x in (np.arange(3.0), np.arange(3.0) - 2, np.arange(3.0) + 5):
    fig, ax, l = f(np.array([1, 2, 3.0]), x, periodic=True)
    assert np.allclose(l.get_xdata(), np.append(x, x[-1] + 1))
    plt.close(fig)
""")
UU = "util/util.py"
s("c28-axes-position", "C28", "three plotted axes given in an order that is a rotation",
  "the plotted data is transposed by the order of the axes instead of by their positions",
  [(UU, ("tuple(np.argsort(np.argsort(axes)))", "tuple(np.argsort(axes))"))], """
from surface_potential_analysis.util.util import get_data_in_axes as f
d = rng.normal(size=(2, 3, 4))
for ax in ((0, 1, 2), (1, 0, 2), (2, 0, 1), (1, 2, 0)):
    assert f(d, ax, ()).shape == tuple(d.shape[a] for a in ax) and np.allclose(f(d, ax, ()), d.transpose(ax)), ax
""")
s("c29-standard-error", "C29", "an average over several repeats with a different number of times",
  "the shaded band uses the number of times instead of the number of repeats",
  [("state_vector/plot_value_list.py", ('np.sqrt(values["basis"].shape[0])', 'np.sqrt(values["basis"].shape[1])'))], """
from surface_potential_analysis.state_vector.plot_value_list import plot_average_value_list_against_time as f
from surface_potential_analysis.basis.time_basis_like import *
for k, n in ((3, 3), (2, 4)):
    x = rng.random((k, n))
    fig, ax, l = f({"basis": TupleBasis(FundamentalBasis(k), FundamentalTimeBasis(n, 3.0)), "data": x.ravel()}, measure="real")
    v = ax.collections[-1].get_paths()[0].vertices[:, 1]
    m, e = x.mean(axis=0), x.std(axis=0) / np.sqrt(k)
    assert np.isclose(v.max(), (m + e).max()) and np.isclose(v.min(), (m - e).min()), (k, n)
    plt.close(fig)
""")
s("c29-sites", "C29", "a lattice with several cells and bands",
  "the occupation of each site is summed over the second direction rather than the bands when the lattice is one cell deep",
  [("dynamics/plot.py", ("probability_per_site = sum_probabilities(probability, (2,))", 'probability_per_site = sum_probabilities(\n        probability, (2,) if probability["basis"][1].shape[1] > 1 else (1,)\n    )'))], """
from surface_potential_analysis.dynamics.plot import plot_probability_per_site as f
from surface_potential_analysis.basis.time_basis_like import *
for n in ((2, 2, 2), (2, 1, 3)):
    p = rng.random((3, *n))
    b = TupleBasis(*(FundamentalBasis(k) for k in n))
    fig, ax, ls = f({"basis": TupleBasis(FundamentalTimeBasis(3, 3.0), b), "data": p.ravel()})
    want = p.sum(axis=3).reshape(3, -1)
    assert len(ls) == want.shape[1] and all(np.allclose(l.get_ydata(), want[:, i]) for i, l in enumerate(ls))
    plt.close(fig)
""")
KP = "kernel/plot.py"
s("c30-negative-kernel", "C30", "a kernel with negative values",
  "the percentage error is taken relative to the size of the true kernel",
  [(KP, ('* 100\n        / true_kernel["data"]', '* 100\n        / np.abs(true_kernel["data"])'))], """
from surface_potential_analysis.kernel.plot import _get_noise_kernel_percentage_error as f
b = pos(3)
t, q = np.array([2.0, -1.0, -1.0]) + 0j, np.array([1.0, -2.0, -2.0]) + 0j
assert np.allclose(f({"basis": b, "data": t}, {"basis": b, "data": q})["data"], (q - t) * 100 / t)
""")
s("c30-truncation", "C30", "eigenvalues of mixed sign",
  "the truncation error sorts signed eigenvalues before taking their size",
  [(KP, ("sorted_eigenvalues = np.sort(np.abs(operators['eigenvalue']))", 'sorted_eigenvalues = np.abs(np.sort(operators["eigenvalue"]))'))], """
from surface_potential_analysis.kernel.plot import plot_kernel_truncation_error as f
import surface_potential_analysis.kernel.plot as K
e = np.array([-3.0, 0.5, 2.0, -0.1])
K.get_periodic_noise_operators_eigenvalue = lambda k: {"eigenvalue": e}
fig, ax = f(None)
assert np.allclose(ax.lines[0].get_ydata(), np.append(0, np.cumsum(np.sort(abs(e)))))
""")
OP = "operator/operations.py"
s("c07-subtract-converted", "C07", "two lists of operators in different bases",
  "subtracting lists only changes basis when the sizes differ",
  [(OP, ('    converted = convert_operator_list_to_basis(rhs, lhs["basis"][1])\n    return {"basis": lhs["basis"], "data": lhs["data"] - converted["data"]}', '    converted = (\n        rhs\n        if rhs["basis"][1].shape == lhs["basis"][1].shape\n        else convert_operator_list_to_basis(rhs, lhs["basis"][1])\n    )\n    return {"basis": lhs["basis"], "data": lhs["data"] - converted["data"]}'))], """
from surface_potential_analysis.operator.operations import subtract_list_list as f
from surface_potential_analysis.operator.conversion import convert_operator_list_to_basis
p = TupleBasis(FundamentalPositionBasis(np.array([1.0]), 3))
k = TupleBasis(FundamentalTransformedPositionBasis(np.array([1.0]), 3))
for a in (p, k):
    l = {"basis": TupleBasis(FundamentalBasis(2), TupleBasis(p, p)), "data": cx(18)}
    r = {"basis": TupleBasis(FundamentalBasis(2), TupleBasis(a, a)), "data": cx(18)}
    assert np.allclose(f(l, r)["data"], l["data"] - convert_operator_list_to_basis(r, l["basis"][1])["data"])
""")
s("c08-norm-complex", "C08", "states with complex amplitudes",
  "the norm after applying an operator is that of the sum of squares of the amplitudes",
  [(OP, ("np.sqrt(np.sum(np.abs(np.square(data)), axis=1))", "np.sqrt(np.abs(np.sum(np.square(data), axis=1)))"))], """
from surface_potential_analysis.operator.operations import apply_operator_to_states as f
b = FundamentalBasis(3)
for v in (np.array([[0.6, 0.8, 0]]) + 0j, np.array([[0.6, 0.8j, 0]])):
    r = f({"basis": TupleBasis(b, b), "data": np.diag([1, 2, 3]).ravel() + 0j}, {"basis": TupleBasis(FundamentalBasis(1), b), "data": v.ravel()})
    w = v @ np.diag([1, 2, 3])
    assert np.allclose(r["data"], (w / np.linalg.norm(w)).ravel()) and np.allclose(r["eigenvalue"], np.linalg.norm(w))
""")
