"""Planted bugs, first batch (C01-C10)."""
PRE = """
import numpy as np
from surface_potential_analysis.basis.basis import *
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
rng = np.random.default_rng(7)
def cx(*s):
    return rng.normal(size=s) + 1j * rng.normal(size=s)
"""
SEEDS = []


def s(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": PRE + demo})


s("c01-offset-roll", "C01", "an evenly spaced basis whose offset is at least one step but not a multiple of it in the padding direction only",
  "expanding an evenly spaced basis rolls its points by the rounded instead of the floored number of steps",
  [("basis/evenly_spaced_basis.py", ("vectors = np.roll(vectors, offset // step, axis=axis)", "vectors = np.roll(vectors, round(offset / step), axis=axis)"))], """
from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis
for o in range(6):
    b = EvenlySpacedBasis(2, 3, o)
    v = cx(2)
    w = b.__into_fundamental__(v)
    assert np.allclose(w[[o % 6, (o + 3) % 6]], v), o
""")
s("c01-same-n", "C01", "two different bases that happen to hold the same number of states",
  "conversion is skipped whenever both bases have the same size and class (truncated or evenly spaced bases with other lattice, step or offset)",
  [("basis/basis_like.py", ("        if self == basis:\n", "        if self == basis or (type(self) is type(basis) and self.n == basis.n):\n"))], """
from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis
from surface_potential_analysis.basis.basis_like import convert_vector
a, b = EvenlySpacedBasis(3, 2, 0), EvenlySpacedBasis(3, 2, 1)
assert np.allclose(convert_vector(cx(3), a, b), 0)
""")
s("c02-swap", "C02", "a stacked basis converted along a middle axis of data with three or more axes",
  "the converted axis is moved to the front with moveaxis but returned with swapaxes",
  [("basis/stacked_basis.py", ("    swapped = vector.swapaxes(axis, 0)\n", "    swapped = np.moveaxis(vector, axis, 0)\n"))], """
from surface_potential_analysis.basis.basis_like import convert_vector
a = TupleBasis(FundamentalBasis(2), FundamentalBasis(2))
b = TupleBasis(FundamentalTransformedBasis(2), FundamentalBasis(2))
v = cx(3, 2, 4)
want = np.moveaxis(np.fft.fft(v.reshape(3, 2, 2, 2), axis=2, norm='ortho').reshape(3, 2, 4), 2, 2)
assert np.allclose(convert_vector(v, a, b, 2), want)
""")
s("c02-fundamental-n", "C02", "a stacked basis with a truncated axis",
  "the fundamental momentum basis derived from a stack uses the truncated size of an axis when the stack is anisotropic",
  [("stacked_basis/conversion.py", ("                FundamentalPositionBasis[int, int],\n                zip(basis.delta_x_stacked, basis.fundamental_shape),", "                FundamentalPositionBasis[int, int],\n                zip(\n                    basis.delta_x_stacked,\n                    basis.fundamental_shape\n                    if len(set(basis.fundamental_shape)) == 1\n                    else basis.shape,\n                ),"))], """
from surface_potential_analysis.stacked_basis.conversion import stacked_basis_as_fundamental_position_basis as f
b = TupleBasis(TransformedPositionBasis(np.array([1.0, 0]), 2, 5), FundamentalPositionBasis(np.array([0, 1.0]), 3))
assert f(b).shape == (5, 3)
""")
s("c03-bra", "C03", "an operator whose two bases differ and are both complex relative to the target",
  "list conversion passes the ket target basis for the bra when the operator basis is square",
  [("operator/conversion.py", ("        operator[\"basis\"][1][0],\n        basis[0],\n        operator[\"basis\"][1][1],\n        basis[1],\n        axes=(1, 2),", "        operator[\"basis\"][1][0],\n        basis[0],\n        operator[\"basis\"][1][1],\n        basis[1] if basis[0].n != basis[1].n else basis[0],\n        axes=(1, 2),"))], """
from surface_potential_analysis.operator.conversion import convert_operator_list_to_basis as f
p, k = FundamentalBasis(3), FundamentalTransformedBasis(3)
o = {"basis": TupleBasis(FundamentalBasis(2), TupleBasis(p, p)), "data": cx(18)}
r = f(o, TupleBasis(k, p))
F = np.fft.fft(np.eye(3), norm='ortho')
assert np.allclose(r["data"].reshape(2, 3, 3), np.einsum('ab,mbc->mac', F, o["data"].reshape(2, 3, 3)))
""")
s("c04-axes-order", "C04", "several axes given in decreasing order with different lengths",
  "the padded lengths are assigned to the axes in increasing order",
  [("util/interpolation.py", ("    padded_shape[axes_arr] = s\n    padded:", "    padded_shape[np.sort(axes_arr % array.ndim)] = s\n    padded:"))], """
from surface_potential_analysis.util.interpolation import pad_ft_points
assert pad_ft_points(np.ones((3, 3)), (5, 4), (1, 0)).shape == (4, 5)
""")
s("c05-position", "C05", "three axes requested in a cyclic order",
  "the permutation that orders the requested axes is replaced by its inverse",
  [("util/util.py", ("    return tuple(np.argsort(np.argsort(axes)))", "    return tuple(np.argsort(axes))"))], """
from surface_potential_analysis.util.util import get_data_in_axes
d = rng.normal(size=(2, 3, 4))
assert np.allclose(get_data_in_axes(d, (1, 2, 0), ()), d.transpose(1, 2, 0))
""")
s("c06-nearest", "C06", "a momentum outside the first zone beyond two Bragg planes",
  "zone folding keeps the last instead of the closest Bragg plane inside the point",
  [("stacked_basis/brillouin_zone.py", ("    tolerance = _get_decrement_tolerance(basis)\n    # Transpose used - we want the new axis to appear as the last axis not the first\n    out = np.atleast_2d(np.transpose(coordinate)).T  # type: ignore unknown arg cSpell:disable-line", "    tolerance = _get_decrement_tolerance(basis) * 1e5\n    # Transpose used - we want the new axis to appear as the last axis not the first\n    out = np.atleast_2d(np.transpose(coordinate)).T  # type: ignore unknown arg cSpell:disable-line"))], """
from surface_potential_analysis.stacked_basis.brillouin_zone import decrement_brillouin_zone as f
b = TupleBasis(FundamentalPositionBasis(np.array([1.0]), 5))
assert f(b, (3,)) == (-2,), f(b, (3,))
""")
s("c07-commutator-basis", "C07", "a commutator of an operator with a list given in another basis of the same size",
  "the list is not converted to the operator's basis before the second product",
  [("operator/operations.py", ("    converted = convert_operator_list_to_basis(rhs, lhs[\"basis\"])\n    lhs_rhs = matmul_operator_list(lhs, converted)\n    rhs_lhs = matmul_list_operator(converted, lhs)", "    converted = convert_operator_list_to_basis(rhs, lhs[\"basis\"])\n    lhs_rhs = matmul_operator_list(lhs, converted)\n    rhs_lhs = matmul_list_operator({**converted, \"data\": rhs[\"data\"]}, lhs)"))], """
from surface_potential_analysis.operator.operations import get_commutator_operator_list as f
p, k = FundamentalBasis(3), FundamentalTransformedBasis(3)
A, L = cx(3, 3), cx(2, 3, 3)
r = f({"basis": TupleBasis(p, p), "data": A.ravel()}, {"basis": TupleBasis(FundamentalBasis(2), TupleBasis(k, k)), "data": L.ravel()})
F = np.fft.fft(np.eye(3), norm='ortho')
Lp = np.einsum('ab,mbc,cd->mad', F.conj().T, L, F)
assert np.allclose(r["data"].reshape(2, 3, 3), A @ Lp - Lp @ A)
""")
s("c07-scale-inplace", "C07", "the same operator list used again after being scaled",
  "scaling a complex operator list modifies the operand",
  [("operator/operations.py", ("    OperatorList[_B3, _B0, _B1]\n    \"\"\"\n    return {\n        \"basis\": operator[\"basis\"],\n        \"data\": operator[\"data\"] * factor,\n    }\n\n\ndef scale_operator(", "    OperatorList[_B3, _B0, _B1]\n    \"\"\"\n    data = operator[\"data\"]\n    data *= factor\n    return {\n        \"basis\": operator[\"basis\"],\n        \"data\": data,\n    }\n\n\ndef scale_operator("))], """
from surface_potential_analysis.operator.operations import scale_operator_list as f
p = FundamentalBasis(2)
d = cx(8)
o = {"basis": TupleBasis(p, TupleBasis(p, p)), "data": d.copy()}
f(2.0, o)
assert np.allclose(o["data"], d)
""")
s("c08-function-inverse", "C08", "a function applied to a non-normal operator",
  "the inverse of the eigenvector matrix is replaced by its conjugate transpose",
  [("operator/operator.py", ("        \"k,ak,kb->ab\", eigenvalues, res.eigenvectors, np.linalg.inv(res.eigenvectors)", "        \"k,ak,kb->ab\", eigenvalues, res.eigenvectors, np.conj(res.eigenvectors.T)"))], """
from surface_potential_analysis.operator.operator import apply_function_to_operator as f
p = FundamentalBasis(3)
A = np.array([[1.0, 2, 0], [0, 2, 1], [0, 0, 3.5]], dtype=complex)
r = f({"basis": TupleBasis(p, p), "data": A.ravel()}, lambda e: e ** 2)
assert np.allclose(r["data"].reshape(3, 3), A @ A)
""")
