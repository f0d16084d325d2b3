"""C12: potentials: conversion, continuous form, derivative, normalisation, truncation, loading."""
from __future__ import annotations

import io
import itertools
import json

import numpy as np

from symx.harness import harness

from .h import *  # noqa: F403
from .c11 import LAT, frac, specs
from .oracle import dag

BOUNDS = "1-3 axes, grids of up to 5 points per axis (9 in all) in position, momentum, truncated and mixed bases, skew cells, symbolic data and evaluation points; truncation exponents 1 and 2 with symbolic energies; loaded grids of up to 2x3x4 symbolic points"
T = ("potential.conversion.*", "potential.potential.*")

SH = [{"shape": s} for s in ([3], [4], [2, 3])]
MORE = [{"shape": s} for s in ([8], [4, 3], [3, 5], [2, 3, 2], [2, 2, 4])]
DEEP = [{"shape": s} for s in ([5], [3, 3], [2, 1, 3])]


def lat(env, nd):
    return env.pick("lattice", LAT[nd])


@harness("C12", SH, DEEP + MORE, T)
def convert(env, shape):
    """conversion expands on the source basis and projects on the target"""
    from surface_potential_analysis.potential.conversion import convert_potential_to_basis, convert_potential_to_position_basis

    S = specs(shape)
    a, b = (S[k] for k in env.pick("kinds", list(itertools.permutations(["P", "K", "TP", "mix"], 2)) + [("K", "K"), ("TP", "TP")]))
    L = list(lat(env, len(shape)))
    v = env.cvec("v", N(a))
    before = snap(v)
    p = {"basis": B(a, L), "data": v}
    tb = B(b, L)
    r = convert_potential_to_basis(p, tb)
    env.true(r["basis"] is tb, "basis")
    env.eq(r["data"], conv(a, b) @ v, "converted")
    r = convert_potential_to_position_basis(p)
    isbasis(env, r["basis"], S["P"])
    env.eq(np.array(r["basis"].delta_x_stacked), np.array(L), "lattice")
    env.eq(r["data"], BM(a) @ v, "in position basis")
    unchanged(env, before, v)


@harness("C12", SH, DEEP + MORE, T)
def continuous(env, shape):
    """the continuous form is the band-limited function through every sample"""
    from surface_potential_analysis.potential.conversion import get_continuous_potential

    nd = len(shape)
    S = specs(shape)
    a = S[env.pick("kind", ["P", "K", "TP", "mix"])]
    L = lat(env, nd)
    v = env.cvec("v", N(a))
    fn = get_continuous_potential({"basis": B(a, list(L)), "data": v})
    K = 2 * np.pi * np.linalg.inv(L).T
    V = BM(a) @ v
    n = int(np.prod(shape))
    G = frac(shape) @ K
    pts = np.array(list(itertools.product(*[range(s) for s in shape]))) / np.array(shape)
    c = np.exp(-2j * np.pi * (frac(shape) @ pts.T)) @ V / n
    x = env.rvec("x", nd)
    want = sum(c[j] * np.exp(1j * sum(G[j, d] * x[d] for d in range(nd))) for j in range(n))
    env.eq(fn(tuple(x[d] for d in range(nd))), want, "value at a point")
    X = pts @ L
    env.eq(fn(tuple(X[:, d] for d in range(nd))), V, "value at the samples")
    X2 = np.stack([X, X + L[0]]).reshape(2, n, nd)
    env.eq(fn(tuple(X2[..., d] for d in range(nd))), env.array([list(V), list(V)]), "array of points, periodic")


@harness("C12", SH, DEEP + MORE, T)
def derivative(env, shape):
    """i k times the momentum coefficients: the derivative of the continuous form"""
    from surface_potential_analysis.potential.conversion import get_potential_derivative

    nd = len(shape)
    S = specs(shape)
    a = S[env.pick("kind", ["P", "K", "TP", "mix"])]
    ax = env.index("axis", nd)
    L = lat(env, nd)
    v = env.cvec("v", N(a))
    p = {"basis": B(a, list(L)), "data": v}
    before = snap(v)
    r = get_potential_derivative(p, axis=ax)
    isbasis(env, r["basis"], S["K"])
    env.eq(np.array(r["basis"].delta_x_stacked), L, "lattice")
    G = frac(shape) @ (2 * np.pi * np.linalg.inv(L).T)
    env.eq(r["data"], 1j * G[:, ax] * (conv(a, S["K"]) @ v), "derivative")
    if ax == 0:
        env.eq(get_potential_derivative(p)["data"], r["data"], "default axis")
    env.eq(get_potential_derivative(p, axis=int(ax) - nd)["data"], r["data"], "axis counted from the end")
    unchanged(env, before, v)


@harness("C12", [{"n": 1}, {"n": 3}], [{"n": 4}, {"n": 6}], T)
def normalise(env, n):
    """the minimum becomes zero and differences are kept"""
    from surface_potential_analysis.potential.potential import normalize_potential

    v = env.rvec("v", n)
    before = snap(v)
    b = B([("P", n)])
    r = normalize_potential({"basis": b, "data": v})
    env.true(r["basis"] is b, "basis")
    d = r["data"]
    env.eq(d - d[0], v - v[0], "differences kept")
    env.ge(d, np.zeros(n), "not negative")
    prod = 1
    for x in d:
        prod = prod * x
    env.eq(prod, 0.0, "the minimum is zero")
    unchanged(env, before, v)


@harness("C12", [{"n": 1}, {"n": 2}, {"n": 3}, {"n": 4}], [{"n": 5}], T)
def truncation(env, n):
    """truncation follows its formula and is undone by its inverse"""
    from surface_potential_analysis.potential.potential import truncate_potential, undo_truncate_potential

    c, o = env.pick("cutoff", [(0.7, 0.3), (2.0, 0.0)])
    low = 0.05 if n > 1 else -0.6  # odd powers: energies below the offset are truncated too
    e = env.real("e", low, 3.0)
    v = env.array([e, env.real("f", low, 3.0)])
    b = B([("P", 2)])
    before = snap(v)
    r = truncate_potential({"basis": b, "data": v}, cutoff=c, n=n, offset=o)
    t = r["data"]
    env.true(r["basis"] is b, "basis")
    if n > 2:
        env.eq(t, env.array([c * np.log(1 + ((q + o) / c) ** n) ** (1 / n) - o for q in v]), "formula")
        w = undo_truncate_potential({"basis": b, "data": v}, cutoff=c, n=n, offset=o)["data"]
        env.eq(w, env.array([c * (np.exp(((q + o) / c) ** n) - 1) ** (1 / n) - o for q in v]), "inverse formula")
        unchanged(env, before, v)
        return
    for i in range(2):
        s = (t[i] + o) / c
        env.eq(np.exp(s**n), 1 + ((v[i] + o) / c) ** n, "formula")
    back = undo_truncate_potential(r, cutoff=c, n=n, offset=o)
    env.true(back["basis"] is b, "basis")
    u = back["data"]
    for i in range(2):
        env.eq((u[i] + o) ** n, (v[i] + o) ** n, "inverse")
    w = undo_truncate_potential({"basis": b, "data": v}, cutoff=c, n=n, offset=o)["data"]
    for i in range(2):
        env.eq(((w[i] + o) / c) ** n, np.exp(((v[i] + o) / c) ** n) - 1, "inverse formula")
    unchanged(env, before, v)


@harness("C12", [{"n": 1}], [], T)
def truncation_defaults(env, n):
    """default cut-off 2e-17 and offset 2e-18"""
    from surface_potential_analysis.potential.potential import truncate_potential, undo_truncate_potential

    e = env.real("e", 0.1, 3.0)
    v = env.array([e * 1e-17])
    b = B([("P", 1)])
    r = truncate_potential({"basis": b, "data": v})
    env.eq(np.exp((r["data"] + 2e-18) / 2e-17), 1 + (v + 2e-18) / 2e-17, "formula")
    env.eq(undo_truncate_potential(r)["data"] * 1e17, v * 1e17, "inverse")


class _Path:
    """stands for a file on disk"""

    def __init__(self, doc):
        self.doc = doc

    def open(self, _mode="r"):
        return io.StringIO(json.dumps(self.doc))


class _Json:
    """json.load of a file that holds symbolic numbers"""

    def __init__(self, doc):
        self.doc = doc

    def load(self, _f):
        return self.doc


@harness("C12", [{"shape": [2, 3, 4]}, {"shape": [3, 1, 2]}], [{"shape": [4, 3, 5]}], T)
def load_json(env, shape):
    """grids read from JSON keep their points in row-major order and can be converted"""
    from surface_potential_analysis.potential import point_potential, potential

    x = env.rvec("x", *shape)
    dx = [[2, 0, 0], [1, 3, 0], [0, 0, 5]]
    pts = [[[x[i, j, k] if env.sym else float(x[i, j, k]) for k in range(shape[2])] for j in range(shape[1])] for i in range(shape[0])]
    doc = {"delta_x0": dx[0], "delta_x1": dx[1], "delta_x2": dx[2], "points": pts}
    z = [0.1 * k * k for k in range(shape[2])]
    doc2 = {"delta_x0": dx[0][:2], "delta_x1": dx[1][:2], "z_points": z, "points": pts}
    doc3 = {"x_points": pts[0][0], "y_points": pts[-1][0], "z_points": pts[0][-1], "points": pts[-1][-1]}
    real = potential.json
    try:
        r = []
        for mod, fn, d in ((potential, "load_potential_grid_json", doc), (potential, "load_uneven_potential_json", doc2), (point_potential, "load_point_potential_json", doc3)):
            if env.sym:
                mod.json = _Json(d)
            r.append(getattr(mod, fn)(_Path({} if env.sym else d)))
    finally:
        potential.json = point_potential.json = real
    for q in r[:2]:
        env.true(tuple(q["basis"].shape) == tuple(shape), "shape")
        env.eq(q["data"], x.reshape(-1), "points")
    env.eq(np.array(r[0]["basis"].delta_x_stacked), np.array(dx), "cell")
    env.eq(np.array([r[1]["basis"][0].delta_x, r[1]["basis"][1].delta_x]), np.array(dx)[:2, :2], "cell")
    env.eq(r[1]["basis"][2].z_points, np.array(z), "heights")
    for k in doc3:
        env.eq(r[2][k], env.array(doc3[k]), k)
    m = potential.mock_even_potential(r[1])
    env.true(tuple(m["basis"].shape) == tuple(shape), "shape")
    env.eq(m["data"], x.reshape(-1), "mocked points")
    env.eq(np.array(m["basis"].delta_x_stacked), np.array([[2, 0, 0], [1, 3, 0], [0, 0, 1]]), "mocked cell")
