"""Recording stand-ins for matplotlib's figure and axes: what a plotting function hands over to be drawn."""
from __future__ import annotations

import contextlib
import sys

import numpy as np


class Artist:
    def __init__(self, **k):
        self.props = {}
        self.__dict__.update(k)

    def get_color(self):
        return self.props.get("color", getattr(self, "auto", "C?"))

    def get_label(self):
        return self.props.get("label")

    def __getattr__(self, n):
        if n.startswith("set_"):
            def f(*a, **k):
                self.props[n[4:]] = a[0] if len(a) == 1 else (a or k)
            return f
        raise AttributeError(n)


class Container(tuple):
    """what errorbar returns: (line, caps, bars)"""

    def __new__(cls, line):
        c = super().__new__(cls, (line, (), ()))
        c.lines = (line, (), ())
        return c


class Mesh(Artist):
    colorbar = None

    def set_norm(self, n):
        self.norm = n

    def set_clim(self, a=None, b=None):
        self.clim = (a, b) if b is not None or not isinstance(a, tuple) else a

    def get_clim(self):
        return self.clim

    def get_array(self):
        return self.data


class Ax:
    def __init__(self, fig):
        self.fig, self.curves, self.meshes, self.fills, self.hists, self.vlines, self.props = fig, [], [], [], [], [], {}
        self.ylim, self.texts = (0.25, 1.0), []
        self.transAxes = None

    def get_figure(self, *a, **k):
        return self.fig

    @property
    def figure(self):
        return self.fig

    @property
    def collections(self):
        return self.meshes

    @property
    def lines(self):
        return self.curves

    def get_children(self):
        return [*self.curves, *self.meshes]

    def _line(self, x, y, yerr=None, **k):
        line = Artist(x=x, y=y, yerr=yerr, auto=f"C{len(self.curves)}")
        line.props.update(k)
        self.curves.append(line)
        return line

    def plot(self, *a, **k):
        a = [v for v in a if not isinstance(v, str)]
        if len(a) == 1:
            a = [np.arange(len(a[0])), a[0]]
        x, y = a
        if np.ndim(y) == 2 and np.shape(y)[1] == 1:  # a column is one line
            y = np.reshape(y, -1)
        if np.ndim(x) == 2 and np.shape(x)[1] == 1:
            x = np.reshape(x, -1)
        if np.shape(x) != np.shape(y) or np.ndim(x) != 1:
            raise ValueError(f"x and y must have same first dimension, but have shapes {np.shape(x)} and {np.shape(y)}")
        return [self._line(x, y, **k)]

    def errorbar(self, x, y, yerr=None, xerr=None, **k):
        if np.shape(x) != np.shape(y):
            raise ValueError("'x' and 'y' must have the same size")
        if yerr is not None and np.ndim(yerr) and np.shape(yerr) != np.shape(y):
            raise ValueError("shape of yerr")
        return Container(self._line(x, y, yerr, **k))

    def pcolormesh(self, *a, **k):
        if len(a) == 1:
            X = Y = None
            (C,) = a
        else:
            X, Y, C = a
            if np.shape(X) != np.shape(C) or np.shape(Y) != np.shape(C):
                raise ValueError("shapes of pcolormesh")
        m = Mesh(X=X, Y=Y, C=C, data=C, norm=None, clim=self._range(C))
        m.props.update(k)
        self.meshes.append(m)
        return m

    def _range(self, C):
        C = np.reshape(C, -1)
        lo = hi = C[0]
        for v in C[1:]:
            lo, hi = (v if v < lo else lo), (v if v > hi else hi)
        return lo, hi

    def fill_between(self, x, lo, hi, **k):
        f = Artist(x=x, lo=lo, hi=hi)
        f.props.update(k)
        self.fills.append(f)
        return f

    def hist(self, x, bins=None, range=None, **k):  # noqa: A002
        self.hists.append((x, bins, range, k))
        return None, None, None

    def axvline(self, x=0, **k):
        f = Artist(x=x)
        f.props.update(k)
        self.vlines.append(f)
        return f

    def text(self, *a, **k):
        self.texts.append(a)

    def legend(self, *a, **k):
        return Artist()

    def get_ylim(self):
        return self.ylim

    def set_ylim(self, bottom=None, top=None, **k):
        if top is None and isinstance(bottom, tuple | list):
            bottom, top = bottom
        self.ylim = (self.ylim[0] if bottom is None else bottom, self.ylim[1] if top is None else top)

    def __getattr__(self, n):
        if n.startswith("set_"):
            def f(*a, **k):
                self.props[n[4:]] = a[0] if len(a) == 1 else (a or k)
            return f
        if n in ("autoscale_view", "relim", "autoscale", "margins", "grid"):
            return lambda *a, **k: None
        raise AttributeError(n)

    def scale(self, axis="y"):
        s = self.props.get(axis + "scale", "linear")
        return s if isinstance(s, str) else s.name


class Fig:
    def __init__(self):
        self.axes, self.bars = [], []

    def add(self):
        self.axes.append(Ax(self))
        return self.axes[-1]

    def colorbar(self, mesh, *a, **k):
        self.bars.append(mesh)
        mesh.colorbar = Artist()
        return mesh.colorbar

    def __getattr__(self, n):
        if n.startswith("set_") or n in ("tight_layout", "show", "suptitle"):
            return lambda *a, **k: None
        raise AttributeError(n)


class Animation:
    def __init__(self, fig, artists, **k):
        self.fig, self.frames = fig, [list(f) for f in artists]


class Plt:
    """stand-in for matplotlib.pyplot"""

    class cm:  # noqa: N801
        ScalarMappable = Mesh

    def subplots(self, *a, **k):
        f = Fig()
        return f, f.add()

    def figure(self, *a, **k):
        return Fig()


class Canvas:
    """with Canvas() as c: the plotting functions draw on c.ax (pass ax=c.ax)"""

    def __enter__(self):
        self.old = []
        for name, m in list(sys.modules.items()):
            if m is None or not name.startswith("surface_potential_analysis"):
                continue
            for g, new in (("plt", Plt()), ("ArtistAnimation", Animation)):
                if g in vars(m):
                    self.old.append((m, g, vars(m)[g]))
                    setattr(m, g, new)
        self.fig = Fig()
        self.ax = self.fig.add()
        return self

    def __exit__(self, *e):
        for m, g, v in self.old:
            setattr(m, g, v)

    def fresh(self):
        self.fig = Fig()
        self.ax = self.fig.add()
        return self.ax


def plotting_modules():
    """import every plotting module that can be imported here"""
    import importlib
    import pkgutil

    import matplotlib as mpl

    mpl.use("agg")
    import surface_potential_analysis as pkg

    for m in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + "."):
        if "plot" in m.name.rsplit(".", 1)[-1]:
            with contextlib.suppress(Exception):
                importlib.import_module(m.name)
