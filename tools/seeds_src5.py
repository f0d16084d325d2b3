"""Planted bugs, fifth batch."""
PRE = """
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from surface_potential_analysis.basis.basis import *
from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.state_vector.conversion import *
rng = np.random.default_rng(7)
def cx(*s):
    return rng.normal(size=s) + 1j * rng.normal(size=s)
def pos(*ns, skew=0.0):
    d = len(ns)
    e = np.eye(d) * (1 + np.arange(d))
    e[-1] += skew
    return TupleBasis(*(FundamentalPositionBasis(e[i], n) for i, n in enumerate(ns)))
"""
SEEDS = []


def s(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": PRE + demo})



SS = "dynamics/stochastic_schrodinger/solve.py"
SSP = """
import surface_potential_analysis.dynamics.stochastic_schrodinger.solve as S
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis
"""
s("c26-banded-imag", "C26", "a banded hamiltonian with complex entries of negative imaginary part",
  "small imaginary parts are told by their value instead of their modulus, so negative ones are dropped",
  [(SS, ("zero_imag = np.abs(np.imag(diagonals_filtered)) < threshold", "zero_imag = np.imag(diagonals_filtered) < threshold"))], SSP + """
h = np.array([[1, 1 - 2j, 0], [1 + 2j, 0.5, 0], [0, 0, 2]])
d, o = S._get_banded_operator(h, 1e-9)
full = S._get_operator_diagonals(h)
assert np.allclose(d, full[o])
""")
s("c26-localized-conj", "C26", "realisations with complex overlaps",
  "the localised state is combined with the complex conjugate of the eigenvector",
  [(SS, ("transformation = get_state_vector(eigenstates, idx)", 'transformation = get_state_vector(eigenstates, idx)\n    transformation["data"] = np.conj(transformation["data"])'), ("probabilities /= np.sum(probabilities)", "probabilities = probabilities / np.sum(probabilities)"))], SSP + """
b = TupleBasis(FundamentalPositionBasis(np.array([1.0]), 3))
d = cx(2, 3)
st = {"basis": TupleBasis(FundamentalBasis(2), b), "data": d.ravel()}
for _ in range(4):
    v = S._select_random_localized_state({"basis": st["basis"], "data": d.ravel().copy()})["data"]
    rho = d.T @ d.conj()
    w = rho @ v
    assert np.allclose(w, v * np.vdot(v, w)) and np.isclose(np.linalg.norm(v), 1)
""")
s("c26-restart", "C26", "more than one localised trajectory",
  "every localised trajectory but the first continues from the end of the one before",
  [(SS, ("    for trajectory in range(n_trajectories):\n        state = initial_state\n", "    state = initial_state\n    for trajectory in range(n_trajectories):\n"))], SSP + """
b = TupleBasis(FundamentalPositionBasis(np.array([1.0]), 2))
S.solve_stochastic_schrodinger_equation = lambda st, t, h, c=None, n_trajectories=1: {"basis": TupleBasis(TupleBasis(FundamentalBasis(n_trajectories), t), b), "data": cx(n_trajectories * 4)}
r = S.solve_stochastic_schrodinger_equation_localized({"basis": b, "data": np.array([1, 0j])}, EvenlySpacedTimeBasis(3, 1, 0, 3.0), {"basis": TupleBasis(b, b), "data": np.eye(2).ravel()}, n_trajectories=2)
assert np.allclose(r["data"].reshape(2, 3, 2)[:, 0], [[1, 0], [1, 0]])
""")
s("c15-mixed-basis", "C15", "a hamiltonian given in another basis than the diagonal noise operators",
  "the hamiltonian is not expressed in the basis of the diagonal operators before the commutator when the bases have the same size",
  [("kernel/build.py", ('converted = convert_operator_to_basis(hamiltonian, operators["basis"][1])', 'converted = (\n        hamiltonian\n        if hamiltonian["basis"].shape == operators["basis"][1].shape\n        else convert_operator_to_basis(hamiltonian, operators["basis"][1])\n    )'))], """
from surface_potential_analysis.kernel.build import get_temperature_corrected_diagonal_noise_operators as f
from scipy.constants import Boltzmann
p, k = FundamentalPositionBasis(np.array([1.0]), 3), FundamentalTransformedPositionBasis(np.array([1.0]), 3)
h = cx(3, 3); h = h + h.conj().T
L = cx(3)
F = np.fft.fft(np.eye(3), axis=0, norm="ortho")
r = f({"basis": TupleBasis(k, k), "data": (F @ h @ F.conj().T).ravel()}, {"basis": TupleBasis(FundamentalBasis(1), TupleBasis(p, p)), "data": L, "eigenvalue": np.ones(1)}, 1 / Boltzmann)["data"].reshape(3, 3)
D = np.diag(L)
assert np.allclose(r, D - (h @ D - D @ h) / 4)
""")
s("c06-gram-schmidt", "C06", "coordinates along three axes of a skew cell",
  "an axis is made orthogonal to the previous axis only",
  [("stacked_basis/util.py", ("projected = util.delta_x_stacked[ax]\n        for j in range(i):", "projected = util.delta_x_stacked[ax]\n        for j in range(max(i - 1, 0), i):"))], """
from surface_potential_analysis.stacked_basis.util import project_x_points_along_axes as f
b = TupleBasis(*(FundamentalPositionBasis(np.array(v), 2) for v in ([1.0, 0, 0], [0.5, 1, 0], [0.3, 0.2, 1])))
p = rng.normal(size=(3, 5))
assert np.allclose(np.linalg.norm(f(p, b, (0, 1, 2)), axis=0), np.linalg.norm(p, axis=0))
""")
s("c06-gram-schmidt-k", "C06", "momentum coordinates along three axes of a skew cell, or axes listed in another order",
  "the axes are orthogonalised in ascending order whatever the order asked for",
  [("stacked_basis/util.py", ("for i, ax in enumerate(axes):\n        projected = util.delta_k_stacked[ax]", "for i, ax in sorted(enumerate(axes), key=lambda x: x[1]):\n        projected = util.delta_k_stacked[ax]"), ("        for j in range(i):\n            projected -= projected_axes[j] * np.dot(projected_axes[j], projected)\n\n        projected_axes[i] = projected / np.linalg.norm(projected)\n\n    return np.tensordot(projected_axes, points, axes=(1, 0))\n\n\ndef get_fundamental_stacked_k", "        for j in range(len(axes)):\n            projected -= projected_axes[j] * np.dot(projected_axes[j], projected)\n\n        projected_axes[i] = projected / np.linalg.norm(projected)\n\n    return np.tensordot(projected_axes, points, axes=(1, 0))\n\n\ndef get_fundamental_stacked_k"))], """
from surface_potential_analysis.stacked_basis.util import project_k_points_along_axes as f
b = TupleBasis(*(FundamentalPositionBasis(np.array(v), 2) for v in ([1.0, 0], [0.5, 1])))
k = BasisUtil(b).delta_k_stacked
r = f(k.T, b, (1, 0))
assert np.allclose(r[:, 1], [np.linalg.norm(k[1]), 0])
""")
s("c04-spline-axis", "C04", "spline interpolation along the first of three axes",
  "the axis is moved to the end, but swapped back",
  [("util/interpolation.py", ("swapped_data = data.swapaxes(axis, -1)\n", "swapped_data = np.moveaxis(data, axis, -1)\n"), ("flat_points = np.empty((flat_data.shape[0], n))", "flat_points = np.zeros((flat_data.shape[0], n))"))], """
from surface_potential_analysis.util.interpolation import interpolate_points_along_axis_spline as f
d = rng.normal(size=(5, 3, 2))
x = np.linspace(0, 1, 5)
r = f(d, list(x), 9, 0)
assert r.shape == (9, 3, 2) and np.allclose(r[::2], d)
""")
s("c05-max-idx", "C05", "complex data whose largest value is imaginary",
  "the largest value is looked for in the real parts",
  [("stacked_basis/util.py", ("max_idx = util.get_stacked_index(np.argmax(np.abs(data)))", "max_idx = util.get_stacked_index(np.argmax(np.abs(np.real(data))))"))], """
from surface_potential_analysis.stacked_basis.util import get_max_idx as f
assert f(pos(2, 3), np.array([1, 0, 0, 0, 2j, 0]), (0,)) == (1,)
""")
s("c03-list-bra", "C03", "a list of operators converted to ket and bra bases of the same size but different kind",
  "lists of operators are converted with the ket basis on both sides when the sizes agree",
  [("operator/conversion.py", ('        operator["basis"][1][1],\n        basis[1],\n        axes=(1, 2),', '        operator["basis"][1][1],\n        basis[0] if basis[0].n == basis[1].n else basis[1],\n        axes=(1, 2),'))], """
from surface_potential_analysis.operator.conversion import convert_operator_list_to_basis as f, convert_operator_to_basis as g
p, k = FundamentalPositionBasis(np.array([1.0]), 3), FundamentalTransformedPositionBasis(np.array([1.0]), 3)
d = cx(2, 9)
r = f({"basis": TupleBasis(FundamentalBasis(2), TupleBasis(p, p)), "data": d.ravel()}, TupleBasis(p, k))["data"].reshape(2, 9)
assert np.allclose(r[1], g({"basis": TupleBasis(p, p), "data": d[1]}, TupleBasis(p, k))["data"])
""")
