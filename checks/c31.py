"""C31: electron-hole pair integrals of the friction on an adsorbate."""
from __future__ import annotations

import sys
import types

import numpy as np
import scipy.integrate
from scipy.constants import electron_mass, elementary_charge, epsilon_0, hbar

from symx.harness import harness

from .h import *  # noqa: F403

BOUNDS = "two Fermi wavevectors; all temperatures from 0.01 to 0.2 of the Fermi energy, electron wavevectors from 0.7 to 1.3 of k_f, energies given up or taken of up to 0.3 of the Fermi energy, wavevectors up to twice the inverse screening length and complex overlaps linear in the wavevector; three scattering angles"
STUBS = ["scipy.integrate.quad replaced by the one-point rule (b - a) f(a + t (b - a)) for every t in (0, 1): a linear functional of the integrand that shows the limits and the integrand at every point"]
M_ = "surface_potential_analysis.dynamics.hermitian_gamma_integral"
T = ("dynamics.hermitian_gamma_integral.*",)
KF = (1.2e10, 0.8e10)


def module():
    import surface_potential_analysis.dynamics.hermitian_gamma_integral  # noqa: F401

    return sys.modules[M_]


class Rule:
    def __init__(self, t):
        self.t, self.limits = t, []

    def __call__(self, f, a, b, *_a, **_k):
        self.limits.append((a, b))
        return ((b - a) * f(a + self.t * (b - a)), 0.0)

    def __enter__(self):
        self.mod = module()
        self.old = [(scipy.integrate, "quad", scipy.integrate.quad)]
        if hasattr(self.mod, "quad"):
            self.old.append((self.mod, "quad", self.mod.quad))
        for m, n, _f in self.old:
            setattr(m, n, self)
        return self

    def __exit__(self, *_a):
        for m, n, f in self.old:
            setattr(m, n, f)


def fermi_energy(kf):
    return (hbar * kf) ** 2 / (2 * electron_mass)


def temperature(env, kf):
    return fermi_energy(kf) * env.real("t", 0.01, 0.2)


def occupied(env, k2, kf, kt):
    """exp((E - E_F) / k T) at squared wavevector k2"""
    return np.exp((hbar ** 2 * k2 / (2 * electron_mass) - fermi_energy(kf)) / kt)


def exact(env, k, w, kf, kt, value, label):
    """value is N(E) (1 - N(E + w))"""
    X = occupied(env, k ** 2, kf, kt)
    Y = occupied(env, k ** 2 + 2 * electron_mass * w / hbar ** 2, kf, kt)
    env.eq(value, 1 / (1 + X) * (1 - 1 / (1 + Y)), label)


@harness("C31", [{"i": 0, "up": True}, {"i": 1, "up": False}], None, T)
def occupation(env, i, up):
    """an electron below is occupied and the one it is lifted to is empty"""
    kf = KF[i]
    kt = temperature(env, kf)
    k = kf * env.real("k", 0.7, 1.3)
    w = fermi_energy(kf) * env.real("w", 0.01, 0.3) * (1 if up else -1)
    exact(env, k, w, kf, kt, module().get_hermitian_gamma_occupation_integrand(k, omega=w, k_f=kf, boltzmann_energy=kt), "N1 (1 - N3)")


@harness("C31", [{"i": 0, "up": True}, {"i": 1, "up": False}], None, T)
def occupation_integral(env, i, up):
    """the integral over the wavevector covers the thermal width of the Fermi edge"""
    kf = KF[i]
    kt = temperature(env, kf) * 0.02
    w = fermi_energy(kf) * env.real("w", 0.0001, 0.002) * (1 if up else -1)
    with Rule(env.real("x", 0.3, 0.7)) as r:
        J = module().calculate_hermitian_gamma_occupation_integral(w, kf, kt)
    env.true(len(r.limits) == 1, "one integral")
    a, b = r.limits[0]
    k = a + r.t * (b - a)
    env.ge((b - kf) * kf * hbar ** 2 / electron_mass / kt, 20.0, "reaches empty states")
    env.ge((kf - a) * kf * hbar ** 2 / electron_mass / kt, 20.0, "reaches filled states")
    env.ge(400.0, (b - a) * kf * hbar ** 2 / electron_mass / kt, "resolves the Fermi edge")
    exact(env, k, w, kf, kt, J / (b - a), "integrand")


def coulomb(q):
    alpha = elementary_charge ** 2 * electron_mass / (2 * np.pi * epsilon_0 * hbar ** 2)
    x2 = (q / alpha) ** 2
    return elementary_charge ** 2 / (epsilon_0 * alpha ** 2) * ((1 / (1 + x2)) ** 2 - 1) / x2, alpha


@harness("C31", [{}], None, T)
def potential(env):
    """electron-proton potential with the 1s screening charge, smooth at long wavelength"""
    _, alpha = coulomb(1.0)
    unit = elementary_charge ** 2 / (epsilon_0 * alpha ** 2)
    f = module()._get_coulomb_potential
    x = env.real("q", 0.05, 2)
    v = env.array([env.array(f(env.array([alpha * x]))).reshape(-1)[0]]) / unit
    # ((1 + x^2)^-2 - 1) / x^2, with no division
    env.eq(v * (1 + x ** 2) ** 2 * x ** 2, env.array([1 - (1 + x ** 2) ** 2]), "screened potential", tol=1e-6)
    with np.errstate(all="ignore"):
        zero = np.asarray(f(np.array([0.0]))) / unit
        near = np.asarray(f(np.array([1e-4, 1e-3, 1e-2]) * alpha)) / unit
    env.eq(env.array(zero), env.array([-2.0]), "uniform limit", tol=1e-6)
    env.eq(env.array(near), env.array([-2 + 3 * q ** 2 for q in (1e-4, 1e-3, 1e-2)]), "continuous", tol=1e-5)


@harness("C31", [{"i": 0}, {"i": 1}], None, T)
def potential_integral(env, i):
    """angular integral of sin(phi) V(q)^2 times the overlap, linear in the complex overlap"""
    kf = KF[i]
    _, alpha = coulomb(1.0)
    c = env.cvec("c", 2)
    seen = []

    def overlap(q):
        seen.append(q)
        return env.array([c[0] + c[1] * (q / alpha)]).reshape(())

    phi = 2 * np.arctan(np.array([0.4, 0.7, 1.5]))  # the angles of the rule
    for p in phi:
        del seen[:]
        with Rule(p / np.pi) as r:
            J = module().calculate_hermitian_gamma_potential_integral(kf, overlap)
        for a, b in r.limits:
            env.eq(env.array([a, b]), env.array([0.0, np.pi]), "limits")
        env.true(len(seen) > 0, "overlap used")
        q = seen[0]
        for s in seen:
            env.eq(env.array([s / kf]), env.array([q / kf]), "one momentum transfer")
        top = []
        with Rule(1.0):
            module().calculate_hermitian_gamma_potential_integral(kf, lambda s: (top.append(s), overlap(s))[1])
        env.eq(env.array([q / kf]), env.array([top[0] / kf * np.sin(p / 2)]), "momentum transfer")
        V, _ = coulomb(q)
        unit = elementary_charge ** 2 / (epsilon_0 * alpha ** 2)
        pre = 4 * electron_mass * kf ** 3 / (2 * np.pi * hbar) ** 3 * unit ** 2
        env.eq(env.array([J]) / pre, env.array([np.pi * np.sin(p) * (V / unit) ** 2 * (c[0] + c[1] * (q / alpha))]), "angular integral")


@harness("C31", [{"i": 0}, {"i": 1}], None, T)
def total(env, i):
    """the rate is the product of both integrals"""
    kf = KF[i]
    c = env.cvec("c", 1)
    kt = fermi_energy(kf) * 0.01
    w = fermi_energy(kf) * 0.004

    def overlap(q):
        return env.array([c[0] * (1 + 1e-11 * q)]).reshape(())

    with Rule(0.45):
        m = module()
        r = m.calculate_real_gamma_integral(omega=w, k_f=kf, boltzmann_energy=kt, overlap=overlap)
        a = m.calculate_hermitian_gamma_potential_integral(kf, overlap)
        b = m.calculate_hermitian_gamma_occupation_integral(w, kf, kt)
    size = 4 * electron_mass * kf ** 3 / (2 * np.pi * hbar) ** 3 * (elementary_charge ** 2 / epsilon_0 / kf ** 2) ** 2
    env.eq(env.array([r]) / size / kf, env.array([a * b]) / size / kf, "product")
