"""Planted bugs, sixth batch."""
import importlib.util
from pathlib import Path

_s = importlib.util.spec_from_file_location("seeds_src5", Path(__file__).parent / "seeds_src5.py")
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE = _m.PRE

SEEDS = []


def s(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": PRE + demo})


G = "dynamics/hermitian_gamma_integral.py"
GP = """
from scipy.constants import hbar, electron_mass
import surface_potential_analysis.dynamics.hermitian_gamma_integral as m
kf = 1.2e10
ef = (hbar * kf) ** 2 / (2 * electron_mass)
kt = 0.01 * ef
"""
s("c31-emission", "C31", "an electron that gives up energy (negative omega)",
  "the energy exchanged is taken by magnitude",
  [(G, ("k_3 = np.sqrt(k**2 + 2 * electron_mass * omega / (hbar**2))", "k_3 = np.sqrt(k**2 + 2 * electron_mass * np.abs(omega) / (hbar**2))"))], GP + """
w, k = 0.02 * ef, 1.01 * kf
k3 = np.sqrt(k ** 2 + 2 * electron_mass * w / hbar ** 2)
up = m.get_hermitian_gamma_occupation_integrand(k, omega=w, k_f=kf, boltzmann_energy=kt)
down = m.get_hermitian_gamma_occupation_integrand(k3, omega=-w, k_f=kf, boltzmann_energy=kt)
assert np.isclose(up, down * np.exp(w / kt))
""")
s("c31-complex-overlap", "C31", "an overlap with an imaginary part",
  "the rate keeps only the real part of the potential integral",
  [(G, ("    return potential_integral * occupation_integral", "    return np.complex128(np.real(potential_integral) * occupation_integral)"))], GP + """
f = lambda c: m.calculate_real_gamma_integral(omega=0.004 * ef, k_f=kf, boltzmann_energy=kt, overlap=lambda q: c * np.ones_like(q))
assert np.isclose(f(1 + 2j), (1 + 2j) * f(1.0))
""")
s("c31-dispersion", "C31", "temperatures where the Fermi edge is not narrow",
  "the energy above the Fermi energy is linearised in the wavevector",
  [(G, ("    return 1 / (1 + np.exp((_get_delta_e(k, k_f)) / boltzmann_energy))", "    velocity = hbar**2 * k_f / electron_mass\n    return 1 / (1 + np.exp(velocity * (k - k_f) / boltzmann_energy))"))], GP + """
k = 1.3 * kf
n = m._get_fermi_occupation(k, k_f=kf, boltzmann_energy=20 * kt)
assert np.isclose(n, 1 / (1 + np.exp(((hbar * k) ** 2 / (2 * electron_mass) - ef) / (20 * kt))))
""")
UP = "util/plot.py"
s("c28-zero-limit", "C28", "an upper colour limit of zero",
  "a limit of zero counts as no limit",
  [(UP, ("    l_max = default_max if lim[1] is None else lim[1]", "    l_max = lim[1] or default_max"))], """
from surface_potential_analysis.util.plot import animate_data_through_surface_x as f
_, ax, ani = f(pos(2, 2, 2), rng.normal(size=8) + 0j, measure="real", clim=(-5.0, 0.0))
assert ax.collections[0].get_clim() == (-5.0, 0.0)
""")
s("c28-hidden-axis", "C28", "surfaces of data with four coordinates, at an index of the hidden one other than zero",
  "the index given for the hidden axis is not used",
  [(UP, ("    idx = tuple(0 for _ in range(basis.ndim - 3)) if idx is None else idx\n    clim =", "    idx = tuple(0 for _ in range(basis.ndim - 3))\n    clim ="))], """
from surface_potential_analysis.util.plot import animate_data_through_surface_x as f
d = rng.normal(size=(2, 2, 2, 2))
_, ax, ani = f(pos(2, 2, 2, 2), d + 0j, (0, 1, 2), (1,), measure="real")
assert np.allclose(ani._framedata[0][0].get_array(), d[:, :, 0, 1])
""")
s("c29-band-energy-sign", "C29", "bands with negative energies",
  "band energies are averaged by magnitude",
  [("state_vector/plot.py", ('    hamiltonian_data = np.real(hamiltonian["data"].reshape(basis.n, -1))', '    hamiltonian_data = np.abs(hamiltonian["data"].reshape(basis.n, -1))'))], """
from types import SimpleNamespace as NS
from surface_potential_analysis.state_vector.plot import get_average_band_energy as f
b = NS(wavefunctions={"basis": ((FundamentalBasis(2),),)})
r = f({"basis": (b, b), "data": np.array([-1.0, -2.0, 3.0, 4.0]) + 0j})
assert np.allclose(r["data"], [-1.5, 3.5])
""")
s("c24-explicit-step", "C24", "evenly spaced times that skip points",
  "the spacing of the times is that of the fundamental times",
  [("basis/time_basis_like.py", ("        return self._delta_t / self.n\n", "        return self._delta_t / self.fundamental_n\n"))], """
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis as T
t = T(3, 2, 1, 6.0)
assert np.isclose(t.dt, t.times[1] - t.times[0])
""")
s("c24-offset", "C24", "evenly spaced times that start before the first fundamental time",
  "the offset is wrapped into one step",
  [("basis/time_basis_like.py", ("self.offset, self.n * self.step + self.offset, self.step", "self.offset % self.fundamental_n, self.n * self.step + self.offset % self.fundamental_n, self.step"))], """
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis as T
assert np.allclose(T(3, 2, -1, 6.0).times, [-1, 1, 3])
""")
