"""Planted bugs, second batch (C09-C15)."""
PRE = """
import numpy as np
from surface_potential_analysis.basis.basis import *
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
rng = np.random.default_rng(7)
def cx(*s):
    return rng.normal(size=s) + 1j * rng.normal(size=s)
"""
SEEDS = []


def s(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": PRE + demo})


s("c09-elementwise", "C09", "two lists with as many states as the basis holds, compared element by element",
  "element-wise inner products of square lists conjugate after transposing",
  [("state_vector/state_vector_list.py", ('            "ik, ik -> i",\n            np.conj(state_0["data"]).reshape(state_0["basis"].shape),\n', '            "ik, ik -> i",\n            np.conj(\n                state_0["data"].reshape(state_0["basis"].shape[::-1]).T\n                if state_0["basis"].shape[0] == state_0["basis"].shape[1]\n                else state_0["data"].reshape(state_0["basis"].shape)\n            ),\n'))], """
from surface_potential_analysis.state_vector.state_vector_list import calculate_inner_products_elementwise as f
for n in (2, 3):
    b = TupleBasis(FundamentalBasis(n), FundamentalBasis(3))
    v, w = cx(n, 3), cx(n, 3)
    r = f({"basis": b, "data": v.ravel()}, {"basis": b, "data": w.ravel()})
    assert np.allclose(r["data"], (v.conj() * w).sum(axis=1))
""")
s("c09-dual", "C09", "a dual vector selected from a list and converted to a truncated or transformed basis",
  "selecting a dual vector from a list of one-dimensional index wraps with the ket",
  [("state_vector/state_vector_list.py", ("'data': np.conj(state_list['data'].reshape(state_list['basis'].shape)[idx])", '"data": np.conj(\n            state_list["data"].reshape(state_list["basis"].shape)[idx]\n        )\n        if idx >= 0\n        else state_list["data"].reshape(state_list["basis"].shape)[idx]'))], """
from surface_potential_analysis.state_vector.state_vector_list import get_state_dual_vector as f
b = TupleBasis(FundamentalBasis(3), FundamentalBasis(2))
v = cx(3, 2)
for i in (0, 2, -1, -3):
    assert np.allclose(f({"basis": b, "data": v.ravel()}, i)["data"], v[i].conj()), i
""")
s("c10-transpose", "C10", "a complex hermitian operator in a basis with at least two states",
  "eigenvectors are phase fixed with the conjugate of the phase of their largest entry squared, so complex eigenvectors lose the eigenvalue equation",
  [("state_vector/eigenstate_calculation.py", ('        "data": np.transpose(vectors).reshape(-1),\n        "eigenvalue": np.array(eigenvalues),', '        "data": np.transpose(\n            vectors if np.isrealobj(vectors) else vectors.conj()\n        ).reshape(-1),\n        "eigenvalue": np.array(eigenvalues),'))], """
from surface_potential_analysis.state_vector.eigenstate_calculation import calculate_eigenvectors_hermitian as f
a = cx(3, 3); a = a + a.conj().T
b = FundamentalBasis(3)
r = f({"basis": TupleBasis(b, b), "data": a.ravel()})
for v, e in zip(r["data"].reshape(3, 3), r["eigenvalue"]):
    assert np.allclose(a @ v, e * v)
""")
s("c10-subset", "C10", "a subset of the eigenstates that does not start with the lowest",
  "the eigenvalues stored with a subset of eigenstates are the lowest ones",
  [("state_vector/eigenstate_calculation.py", ('    eigenvalues, vectors = scipy.linalg.eigh(\n', '    if subset_by_index is not None:\n        low, high = subset_by_index\n        subset_by_index = (max(0, min(low, high)), abs(high - low) + min(low, 1))\n    eigenvalues, vectors = scipy.linalg.eigh(\n'))], """
from surface_potential_analysis.state_vector.eigenstate_calculation import calculate_eigenvectors_hermitian as f
a = cx(5, 5); a = a + a.conj().T
b = FundamentalBasis(5)
e = np.linalg.eigvalsh(a)
for lo, hi in ((0, 2), (1, 3), (2, 4), (3, 3)):
    r = f({"basis": TupleBasis(b, b), "data": a.ravel()}, (lo, hi))
    assert np.allclose(r["eigenvalue"], e[lo:hi + 1]), (lo, hi)
""")
s("c11-bloch", "C11", "a Bloch wavevector in a cell with skew axes",
  "the Bloch wavevector is contracted with the cartesian instead of the lattice index of the reciprocal vectors",
  [("hamiltonian_builder/momentum_basis.py", ("    bloch_phase = np.tensordot(\n        util.fundamental_dk_stacked, bloch_fraction, axes=(0, 0)\n    )", "    bloch_phase = np.tensordot(\n        util.fundamental_dk_stacked, bloch_fraction, axes=(-1, 0)\n    )"))], """
from surface_potential_analysis.hamiltonian_builder.momentum_basis import hamiltonian_from_mass as f
from scipy.constants import hbar
a, c = np.array([1.0, 0.3]), np.array([0.0, 2.0])
b = TupleBasis(FundamentalPositionBasis(a, 3), FundamentalPositionBasis(c, 3))
K = 2 * np.pi * np.linalg.inv(np.array([a, c])).T
fr = np.array([0.2, 0.4])
r = f(b, hbar ** 2, fr)["data"].reshape(3, 3)
m = np.fft.fftfreq(3, 1 / 3)
for i in range(3):
    for j in range(3):
        k = (m[i] + fr[0]) * K[0] + (m[j] + fr[1]) * K[1]
        assert np.allclose(r[i, j], k @ k / 2)
""")
s("c11-shared", "C11", "an anisotropic lattice with a truncated axis and a Bloch wavevector",
  "the kinetic energies are computed once per number of states and reused for the next basis of the same size",
  [("hamiltonian_builder/momentum_basis.py", ("return {'basis': TupleBasis(momentum_basis, momentum_basis), 'data': energy}", "key = (basis.fundamental_shape, mass, tuple(bloch_fraction))\n    return {\n        \"basis\": TupleBasis(momentum_basis, momentum_basis),\n        \"data\": _KINETIC.setdefault(key, energy),\n    }"), ("def hamiltonian_from_mass(", "_KINETIC: dict = {}\n\n\ndef hamiltonian_from_mass("))], """
from surface_potential_analysis.hamiltonian_builder.momentum_basis import hamiltonian_from_mass as f
from scipy.constants import hbar
for L in (1.0, 2.0, 3.0):
    b = TupleBasis(FundamentalPositionBasis(np.array([L]), 4))
    r = f(b, hbar ** 2)["data"]
    assert np.allclose(r, (2 * np.pi / L * np.fft.fftfreq(4, 1 / 4)) ** 2 / 2), L
""")
s("c12-truncate", "C12", "an exponent other than one together with an offset",
  "truncation with an exponent above two adds the offset after scaling",
  [("potential/potential.py", ("cutoff * np.log(1 + ((data['data'] + offset) / cutoff) ** n) ** (1 / n) - offset", 'cutoff\n        * np.log(1 + ((data["data"] + (offset if n < 3 else 0)) / cutoff) ** n) ** (1 / n)\n        - (offset if n < 3 else 0)'))], """
from surface_potential_analysis.potential.potential import truncate_potential as t, undo_truncate_potential as u
b = TupleBasis(FundamentalPositionBasis(np.array([1.0]), 4))
v = np.array([0.1, 0.9, 2.0, 0.0])
for n in (1, 2, 3, 4):
    r = t({"basis": b, "data": v}, cutoff=1.5, n=n, offset=0.2)
    assert np.allclose(u(r, cutoff=1.5, n=n, offset=0.2)["data"], v), n
""")
s("c12-continuous", "C12", "positions given as a grid, with a potential on a truncated momentum basis",
  "the continuous potential is normalised by the number of coefficients kept rather than the size of the grid",
  [("potential/conversion.py", ('            "j,j...->...", converted["data"], np.exp(phases) / np.sqrt(converted["basis"].n)', '            "j,j...->...", converted["data"], np.exp(phases) / np.sqrt(potential["basis"].n)'))], """
from surface_potential_analysis.potential.conversion import get_continuous_potential as f
c = cx(3)
for n in (3, 5):
    k = TupleBasis(TransformedPositionBasis(np.array([2.0]), 3, n))
    full = np.zeros(n, complex); full[0], full[1], full[-1] = c
    v = np.fft.ifft(full, norm='ortho')
    r = f({"basis": k, "data": c})((2.0 * np.arange(n) / n)[None, :])
    assert np.allclose(r, v), n
""")
s("c13-isotropic-check", "C13", "a diagonal kernel whose first column is isotropic but whose other columns are not",
  "the isotropic form is accepted when only the first row and column fit",
  [("kernel/kernel.py", ('        np.testing.assert_allclose(\n            as_diagonal_kernel_from_isotropic(out)["data"], kernel["data"]\n        )', '        expected = as_diagonal_kernel_from_isotropic(out)["data"]\n        shape = kernel["basis"][0].shape\n        np.testing.assert_allclose(\n            expected.reshape(shape)[[0, -1]], kernel["data"].reshape(shape)[[0, -1]]\n        )'))], """
from surface_potential_analysis.kernel.kernel import as_isotropic_kernel_from_diagonal as f, as_diagonal_kernel_from_isotropic as g
b = FundamentalPositionBasis(np.array([1.0]), 4)
k = g({"basis": b, "data": np.array([1, 0.5 + .1j, 0.2, 0.5 - .1j])})
assert np.allclose(f(k)["data"], [1, 0.5 + .1j, 0.2, 0.5 - .1j])
d = k["data"].reshape(4, 4).copy(); d[1, 2] += 1
try:
    f({"basis": k["basis"], "data": d.ravel()})
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
""")
s("c13-axis", "C13", "three or more axes of noise operators whose outer product is taken",
  "the eigenvalues of operators built from axis operators are multiplied in the transposed order of the first two axes",
  [("kernel/kernel.py", ('    grids = np.meshgrid(*arrays, indexing="ij")\n', '    grids = np.meshgrid(*arrays, indexing="ij" if len(arrays) < 3 else "xy")\n'))], """
from surface_potential_analysis.kernel.kernel import as_isotropic_kernel_from_axis as f
for n in (2, 3):
    ks = [{"basis": FundamentalPositionBasis(np.array([1.0]), i + 2), "data": cx(i + 2)} for i in range(n)]
    want = ks[0]["data"]
    for k in ks[1:]:
        want = np.multiply.outer(want, k["data"])
    assert np.allclose(f(tuple(ks))["data"], want.ravel())
""")
s("c14-more", "C14", "more Fourier operators requested than the grid has points, in a multiple of it",
  "a number of operators larger than the grid is accepted when it is a multiple of the number of points",
  [("kernel/solve/_fft.py", ("ratio = tuple(n % s for n, s in zip(basis_shape, shape, strict=True))", "ratio = tuple(\n        max(n, s) % min(n, s) for n, s in zip(basis_shape, shape, strict=True)\n    )"))], """
from surface_potential_analysis.kernel.solve import get_periodic_noise_operators_isotropic_fft as f
b = FundamentalPositionBasis(np.array([1.0]), 3)
k = {"basis": b, "data": np.array([1, 0.5, 0.5]) + 0j}
for m in (2, 4, 6, 9):
    try:
        f(k, fundamental_n=m)
    except AssertionError:
        continue
    raise SystemExit(f"accepted {m}")
""")
s("c14-stacked-shape", "C14", "a kernel on a stacked lattice with a reduced number of operators along some axes",
  "the wave numbers of reduced operators on a stacked lattice use the size of the first axis",
  [("kernel/solve/_fft.py", ("    k = tuple(2 * np.pi / n for n in fundamental_shape)\n", "    k = tuple(\n        2 * np.pi / (n if n == m else fundamental_shape[0])\n        for n, m in zip(fundamental_shape, basis.shape)\n    )\n"))], """
from surface_potential_analysis.kernel.solve import get_periodic_noise_operators_isotropic_stacked_fft as f
b = TupleBasis(FundamentalPositionBasis(np.array([1.0, 0]), 2), FundamentalPositionBasis(np.array([0, 1.0]), 6))
k = {"basis": b, "data": np.ones(12, dtype=complex)}
r = f(k, fundamental_shape=(2, 3))
L = r["data"].reshape(2, 3, 2, 6) * np.sqrt(12)
x = np.arange(6)
for j, q in enumerate((0, 1, -1)):
    assert np.allclose(L[0, j, 0], np.exp(2j * np.pi * q * (x if x[3] == 3 else x) / 3)), j
""")
s("c15-truncate", "C15", "noise operators whose rates are not in rising order",
  "truncation keeps the operators at the requested places of the list reversed instead of sorted, for lists that end with the largest rate",
  [("kernel/build.py", ('    args = np.argsort(np.abs(operators["eigenvalue"]))[::-1][np.array(list(truncation))]', '    rates = np.abs(operators["eigenvalue"])\n    order = np.arange(rates.size) if np.argmax(rates) == rates.size - 1 else np.argsort(rates)\n    args = order[::-1][np.array(list(truncation))]'))], """
from surface_potential_analysis.kernel.build import truncate_diagonal_noise_operator_list as f
b = FundamentalBasis(2)
for rates in ([0.1, 0.5, 0.9], [0.5, 0.1, 0.9], [0.9, 0.1, 0.5]):
    d = cx(3, 2)
    r = f({"basis": TupleBasis(FundamentalBasis(3), TupleBasis(b, b)), "data": d.ravel(), "eigenvalue": np.array(rates) + 0j}, [0, 1])
    i = np.argsort(rates)[::-1][:2]
    assert np.allclose(r["eigenvalue"], np.array(rates)[i]) and np.allclose(r["data"], d[i].ravel())
""")
s("c15-samples", "C15", "more than one sample of the noise drawn at once",
  "the imaginary parts of the draws are shared between the samples",
  [("kernel/sample.py", ('def sample_noise_from_operators', 'def _draw(rng: np.random.Generator, n_samples: int, n_operators: int):  # noqa: ANN202\n    return np.broadcast_to(\n        rng.standard_normal((1, n_operators)), (n_samples, n_operators)\n    )\n\n\ndef sample_noise_from_operators'), ('    factors = (\n        rng.standard_normal((n_samples, n_operators))\n        + 1j * rng.standard_normal((n_samples, n_operators))\n    ) / np.sqrt(2)\n    data = np.einsum(\n        "ij,j,jk->ik",', '    factors = (\n        rng.standard_normal((n_samples, n_operators))\n        + 1j * _draw(rng, n_samples, n_operators)\n    ) / np.sqrt(2)\n    data = np.einsum(\n        "ij,j,jk->ik",'))], """
from surface_potential_analysis.kernel.sample import sample_noise_from_operators as f
b = FundamentalBasis(1)
r = f({"basis": TupleBasis(FundamentalBasis(1), TupleBasis(b, b)), "data": np.ones(1) + 0j, "eigenvalue": np.array([1.0])}, n_samples=50)["data"]
assert np.unique(np.round(r.imag / abs(r).max(), 9)).size > 10
""")
