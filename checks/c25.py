"""C25: files exchanged with Wannier90."""
from __future__ import annotations

import itertools
import subprocess
from pathlib import Path

import numpy as np

from symx.harness import harness

from .c16 import bands, cells, deltas, expand, fundamental_k, samples
from .h import *  # noqa: F403
from .oracle import dag, freqs, fsize, size

BOUNDS = "1-3 axes, 1-3 samples and 1-3 plane waves per axis, 1-3 bands, any list of neighbours with reciprocal-lattice offsets -1..1; all complex amplitudes, projections and returned rotations"
T = ("wavepacket.localization._wannier90.*", "wavepacket.localization_operator.get_localized_wavepackets")


class Wannier90:
    """stand-in for the wannier90.x program: reads and writes the files as its user guide states"""

    def __init__(self, env, neighbours, u):
        self.env, self.neighbours, self.u = env, neighbours, u
        self.setups, self.runs = [], []

    def __enter__(self):
        self.old = subprocess.run
        subprocess.run = self
        self.env.text()
        return self

    def __exit__(self, *a):
        subprocess.run = self.old

    def win(self, d):
        text = (d / "spa.win").read_text()
        out, block = {}, None
        for line in text.splitlines():
            w = line.replace("=", " ").replace(":", " ").split()
            if not w:
                continue
            if w[0] == "begin":
                block = w[1]
                out[block] = []
            elif w[0] == "end":
                block = None
            elif block:
                out[block].append([float(x) for x in w])
            else:
                out[w[0]] = w[1:]
        return out

    def mmn(self, d, nk):
        num = self.env.number
        lines = (d / "spa.mmn").read_text().splitlines()
        nb, k, nn = (int(x) for x in lines[1].split())
        i, out = 2, []
        while i < len(lines) and lines[i].strip():
            head = tuple(int(x) for x in lines[i].split())
            m = np.empty((nb, nb), dtype=object)
            for j in range(nb * nb):
                re, im = lines[i + 1 + j].split()
                m[j % nb, j // nb] = num(re) + 1j * num(im)  # the first index is the fastest
            out.append((head, m))
            i += 1 + nb * nb
        return (nb, k, nn), out

    def amn(self, d):
        num = self.env.number
        p = d / "spa.amn"
        if not p.exists():
            return None
        lines = p.read_text().splitlines()
        nb, nk, nw = (int(x) for x in lines[1].split())
        a, seen = np.empty((nk, nb, nw), dtype=object), set()
        for line in lines[2:]:
            if line.strip():
                m, n, k, re, im = line.split()
                seen.add((int(k) - 1, int(m) - 1, int(n) - 1))
                a[int(k) - 1, int(m) - 1, int(n) - 1] = num(re) + 1j * num(im)
        if len(seen) != a.size:
            raise subprocess.CalledProcessError(1, "wannier90.x: amn")
        return a

    def __call__(self, args, *, check=False, cwd=None, **k):
        if list(args) != ["wannier90.x", "spa.win"]:
            raise AssertionError(f"stand-in called with {args}")
        d = Path(cwd)
        w = self.win(d)
        if w.get("postproc_setup") == [".true."]:
            self.setups.append(w)
            nn = self.neighbours
            text = ["File written on 1Jan2000", "", "calc_only_A  :  F", "", "begin real_lattice", "  1.0 0.0 0.0", "end real_lattice", "", "begin nnkpts"]
            text += [f"{len(nn) // max(n[0] for n in nn):4d}"]
            text += ["".join(f"{x:6d}" for x in n[:2]) + "   " + "".join(f"{x:4d}" for x in n[2:]) for n in nn]
            text += ["end nnkpts", "", "begin exclude_bands", "  0", "end exclude_bands"]
            (d / "spa.nnkp").write_text("\n".join(text) + "\n")
        else:
            self.runs.append((w, self.mmn(d, None), self.amn(d)))
            u = self.u[(len(self.runs) - 1) % len(self.u)]
            nk, n = len(u), len(u[0])
            text = ["written on 1Jan2000 at 00:00:00", f"{nk:12d}{n:12d}{n:12d}"]
            for q in range(nk):
                text += ["", "   0.0000000000  +0.0000000000  +0.0000000000"]
                for j in range(n):
                    for i in range(n):  # the first index is the fastest
                        z = u[q][i][j]
                        text.append(f"  {np.real(z)!r}  {np.imag(z)!r}")
            (d / "spa_u.mat").write_text("\n".join(text) + "\n")
        return subprocess.CompletedProcess(args, 0)


def check_win(env, w, s, ds, nb, options, projected):
    nd = len(s)
    cell = np.eye(3)
    cell[:nd, :nd] = np.array(ds) * 1e10
    env.true(len(w["unit_cell_cart"]) == 3 and all(len(r) == 3 for r in w["unit_cell_cart"]), "lattice vectors")
    env.eq(np.array(w["unit_cell_cart"]) / 1e10, cell / 1e10, "lattice vectors in angstroms")
    env.true([int(x) for x in w["mp_grid"]] == [*s, *[1] * (3 - nd)], "grid of samples")
    ks = np.zeros((int(np.prod(s)), 3))
    ks[:, :nd] = [[k / n for k, n in zip(q, s)] for q in samples(s)]
    env.eq(np.array(w["kpoints"]), ks, "wavevectors of the samples")
    env.true([int(x) for x in w["num_wann"]] == [nb], "number of bands")
    env.true(int(w["num_iter"][0]) == options.num_iter and int(w["conv_window"][0]) == options.convergence_window, "iterations")
    env.eq(float(w["conv_tol"][0]) * 1e10, options.convergence_tolerance * 1e10, "tolerance")
    env.true(w.get("write_u_matrices") == [".true."], "writes the rotations")
    env.true((w.get("auto_projections") == [".true."]) == projected and (w.get("use_bloch_phases") == [".true."]) == (not projected), "initial projections")


def neighbours(s, count, seed=0):
    """for every sample some neighbours (any sample) with an offset along the axes present"""
    r = np.random.RandomState(seed + len(s))
    nk = int(np.prod(s))
    out = []
    for k in range(nk):
        for _ in range(count):
            g = [int(v) for v in r.randint(-1, 2, size=len(s))] + [0] * (3 - len(s))
            out.append((k + 1, int(r.randint(nk)) + 1, *g))
    return out


def expected_mmn(c, x, spec, nn, ignore=()):
    """<u_m k | u_n k'+G> by the plane waves of the unit cell, periodic in their number"""
    k0, k1, *g = nn
    conv_spec = [b if i in ignore else ("K", fsize(b)) for i, b in enumerate(spec)]
    F = dag(BM(conv_spec)) @ BM(spec)
    sizes = [size(b) for b in conv_spec]
    idx = list(itertools.product(*[range(n) for n in sizes]))
    gg = [0 if i in ignore else v for i, v in enumerate(g[: len(x)])]
    shift = [idx.index(tuple((p + v) % n for p, v, n in zip(q, gg, sizes))) for q in idx]
    a = [F @ b[k0 - 1] for b in c]
    z = [F @ b[k1 - 1] for b in c]
    return [[np.sum(np.conj(a[m]) * z[n][shift]) for n in range(len(c))] for m in range(len(c))]


SH = [{"s": [2], "x": [3]}, {"s": [3], "x": [2]}, {"s": [2, 1], "x": [2, 3]}, {"s": [1, 2, 2], "x": [2, 1, 3]}]
SHL = [{"s": [4], "x": [4]}, {"s": [2, 3], "x": [3, 2]}, {"s": [2, 2, 1], "x": [2, 2, 2]}]


@harness("C25", SH, [*SHL, {"s": [3, 2], "x": [2, 3]}, {"s": [5], "x": [2]}], T)
def localise(env, s, x):
    """files written for the bands, and the rotation read back"""
    from surface_potential_analysis.wavepacket.localization import _wannier90 as W
    from surface_potential_analysis.wavepacket.localization_operator import get_localized_wavepackets

    nb = env.pick("bands", [1, 2, 3] if len(s) == 1 else [2])
    spec, n, k, c, ds = cells(env, s, x, nb)
    w = bands(c, s, spec, ds=ds)
    projected = env.pick("projected", [True, False])
    nn = neighbours(s, 2)
    sup = [a * b for a, b in zip(s, x)]
    pspec = env.pick("projections", [[("P", a) for a in sup], [("K", a) for a in sup]]) if projected else None
    ob = fb(nb)
    if projected:
        g = env.cvec("g", nb, int(np.prod(sup)))
        proj = {"basis": tup(ob, B(pspec, [a * d for a, d in zip(s, ds)])), "data": g.reshape(-1)}
    else:
        proj = {"basis": tup(ob)}
    o = W.Wannier90Options(projection=proj, num_iter=57, convergence_window=5, convergence_tolerance=1e-7)
    u = env.cvec("u", k, nb, nb)
    before = snap(c)
    with Wannier90(env, nn, [u]) as p:
        r = W.get_localization_operator_wannier90(w, options=o)
        env.true(len(p.setups) == 1 and len(p.runs) == 1, "one setup and one run")
        check_win(env, p.setups[0], s, ds, nb, o, projected)
        w2, (head, m), a = p.runs[0]
        env.true(w2.get("postproc_setup") is None, "not a setup")
        check_win(env, w2, s, ds, nb, o, projected)
        env.true(head == (nb, k, 2) and [q[0] for q in m] == nn, "neighbours")
        for q, got in m:
            env.eq(env.array([list(z) for z in got]), env.array(expected_mmn(c, x, spec, q)), "overlap of the neighbours")
        env.true((a is not None) == projected, "projections written")
        if projected:
            e = expand(c, s, spec)
            P = dag(BM([("K", b) for b in sup])) @ BM(pspec)
            want = [[[np.sum(np.conj(e[i][q]) * (P @ g[j])) for j in range(nb)] for i in range(nb)] for q in range(k)]
            env.eq(env.array([[list(z) for z in y] for y in a]), env.array(want), "projection of the bands")
        env.true(r["basis"][0] is w["basis"][0][1] and r["basis"][1][0] is ob and r["basis"][1][1] is w["basis"][0][0], "samples, projections and bands")
        env.true(r["data"].shape == (k * nb * nb,), "one rotation for every sample")
        R = r["data"].reshape(k, nb, nb)
        for q in range(k):
            env.eq(R[q], u[q].T, "rotation of the sample")
        v = W.localize_wavepacket_wannier90(w, options=o)
        check_win(env, p.runs[-1][0], s, ds, nb, o, projected)
        env.true(len(p.runs) == 2 and (p.runs[1][2] is not None) == projected, "the same run again")
        V = v["data"].reshape(nb, k, n)
        for q in range(k):
            env.eq(V[:, q], u[q].T @ c[:, q], "localised states")
    unchanged(env, before, c)


@harness("C25", [{"s": [2], "x": [2]}, {"s": [2, 1, 2], "x": [1, 2, 2]}], [{"s": [2, 2], "x": [2, 2]}, {"s": [4], "x": [3]}], T)
def individual(env, s, x):
    """every band by itself: a diagonal rotation; the last axis tightly bound"""
    from surface_potential_analysis.wavepacket.localization import _wannier90 as W

    nb = 2
    spec, n, k, c, ds = cells(env, s, x, nb)
    w = bands(c, s, spec, ds=ds)
    nn = neighbours(s, 3, seed=4)
    u = env.cvec("u", nb, k, 1, 1)
    with Wannier90(env, nn, list(u)) as p:
        r = W.get_localization_operator_wannier90_individual_bands(w)
        env.true(len(p.runs) == nb, "one run for every band")
        for b in range(nb):
            env.true([q[0] for q in p.runs[b][1][1]] == nn, "neighbours as asked for")
            for q, got in p.runs[b][1][1]:
                env.eq(env.array([list(z) for z in got]), env.array(expected_mmn(c[b : b + 1], x, spec, q, ignore=(2,))), "overlap of the neighbours")
        env.true(r["basis"][0] is w["basis"][0][1] and r["basis"][1][0] is w["basis"][0][0] and r["basis"][1][1] is w["basis"][0][0], "samples and bands")
        R = r["data"].reshape(k, nb, nb)
        for q in range(k):
            env.eq(R[q], env.array([[u[0, q, 0, 0], 0.0], [0.0, u[1, q, 0, 0]]]), "diagonal rotation")


@harness("C25", [{"s": [3]}, {"s": [2, 3]}, {"s": [3, 3, 2]}], [{"s": [4, 4, 3]}], T)
def symmetry(env, s):
    """operations on the samples: mirror images and swapped axes"""
    from surface_potential_analysis.wavepacket.localization import _wannier90 as W

    shape = tuple(s)
    k = list(itertools.product(*[range(n) for n in s]))
    idx = np.arange(len(k))
    for ax in range(len(s)):
        r = W.x0_symmetry_op(idx, shape, ax)
        env.eq(r, [k.index(tuple((-v) % n if i == ax else v for i, (v, n) in enumerate(zip(q, s)))) for q in k], "mirror image")
        f = W._get_fundamental_k_points(tup(*[fb(n) for n in s]), [lambda i, sh, a=ax: W.x0_symmetry_op(i, sh, a)])
        env.eq(f, np.minimum(r, idx), "one representative of every pair")
    for a, b in itertools.combinations(range(len(s)), 2):
        if s[a] == s[b]:
            r = W.x0x1_symmetry_op(idx, shape, (a, b))
            env.eq(r, [k.index(tuple(q[b] if i == a else q[a] if i == b else v for i, v in enumerate(q))) for q in k], "swapped axes")
