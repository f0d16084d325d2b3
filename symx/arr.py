"""SymArray: an object ndarray whose entries may be symbolic, plus proxies for numpy/scipy.

The repository's functions run unmodified on these arrays.  Pure data movement (reshape,
transpose, indexing, roll, ...) and arithmetic run through numpy itself on object arrays;
linear transforms (fft family, ...) run the real numpy/scipy routine on the coefficient
array of every monomial; everything else is mapped explicitly or refused (Unsupported).
"""
from __future__ import annotations

import cmath
import math
import sys
import types

import numpy as np

from .core import S, State, interval, SymBool, Unsupported, is_num, num

_nd = np.ndarray


def _np_num(x):
    return x


class SymArray(np.ndarray):
    _pd: str

    def __new__(cls, a, pd="c"):
        a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
        r = _nd.view(a, cls)
        r._pd = pd
        return r

    def __array_finalize__(self, obj):
        if obj is None:
            self._pd = "c"
            return
        self._pd = getattr(obj, "_pd", "c")

    # -- pseudo dtype -----------------------------------------------------
    @property
    def dtype(self):
        if _nd.dtype.__get__(self) != object:
            return _nd.dtype.__get__(self)
        return np.dtype(np.float64 if self._pd == "f" else np.complex128)

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("setting dtype")

    def plain(self):
        return _nd.view(self, _nd)

    @property
    def real(self):
        return SymArray(_map(_real, self), "f")

    @real.setter
    def real(self, v):
        im = self.imag
        self[...] = SymArray(v) + 1j * im

    @property
    def imag(self):
        return SymArray(_map(_imag, self), "f")

    @imag.setter
    def imag(self, v):
        re = self.real
        self[...] = re + 1j * SymArray(v)

    def conj(self):
        return SymArray(_map(_conj, self), self._pd)

    conjugate = conj

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt.kind == "c":
            r = SymArray(_nd.view(self, _nd).copy() if copy or self._pd != "c" else _nd.view(self, _nd), "c")
            return r
        if dt.kind == "f":
            if self._pd == "f" and not copy:
                return self
            return SymArray(_map(_real, self), "f")
        if dt == object:
            return self.copy() if copy else self
        if dt.kind in "iu":
            if all(is_num(x) or (isinstance(x, S) and x.is_const()) for x in self.plain().flat):
                return native(self).real.astype(dt)
            return SymArray(_map(_trunc, self), "f")
        if dt.kind == "b":
            return _nd.astype(_nd.view(self, _nd), bool)
        raise Unsupported(f"astype {dt}")

    def view(self, dtype=None, type=None):  # noqa: A002
        if dtype is None and type is None:
            return _nd.view(self)
        if isinstance(dtype, builtins_type) and issubclass(dtype, np.ndarray):
            return _nd.view(self, dtype)
        if dtype is None:
            return _nd.view(self, type)
        dt = np.dtype(dtype)
        if dt.kind == "c" and self._pd == "c":
            return _nd.view(self)
        if dt.kind == "f" and self._pd == "f":
            return _nd.view(self)
        if dt.kind == "c" and self._pd == "f":
            if self.shape[-1] % 2:
                raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size")
            p = _nd.view(self, _nd)
            return SymArray(p[..., ::2] + 1j * p[..., 1::2], "c")
        if dt.kind == "f" and self._pd == "c":
            re, im = self.real.plain(), self.imag.plain()
            out = np.empty((*self.shape[:-1], 2 * self.shape[-1]), dtype=object)
            out[..., ::2], out[..., 1::2] = re, im
            return SymArray(out, "f")
        raise Unsupported(f"view {dtype}")

    def item(self, *a):
        return _nd.item(_nd.view(self, _nd), *a)

    def tolist(self):
        return _nd.tolist(_nd.view(self, _nd))

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.dtype != object and not isinstance(v, SymArray):
            v = v.astype(object)
        elif isinstance(v, SymArray) and v._pd == "c" and self._pd == "f":
            v = v.real
        if isinstance(k, tuple):
            k = tuple(_idx(x) for x in k)
        else:
            k = _idx(k)
        if isinstance(v, SymArray):
            v = v.plain()
        _nd.__setitem__(_nd.view(self, _nd), k, v)

    def __getitem__(self, k):
        k = tuple(_idx(x) for x in k) if isinstance(k, tuple) else _idx(k)
        return _nd.__getitem__(self, k)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self.plain().reshape(-1)[0])

    def __complex__(self):
        return complex(self.plain().reshape(-1)[0])

    def __float__(self):
        return float(self.plain().reshape(-1)[0])

    def round(self, decimals=0, out=None):
        return np.round(self, decimals)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return array_function(np.mean, (self,), {"axis": axis, "keepdims": keepdims})

    def var(self, axis=None, **kw):
        return array_function(np.var, (self,), {"axis": axis, **kw})

    def std(self, axis=None, **kw):
        return array_function(np.std, (self,), {"axis": axis, **kw})

    def clip(self, a_min=None, a_max=None, out=None):
        return np.minimum(np.maximum(self, a_min), a_max)

    def dot(self, b, out=None):
        return np.dot(self, b)

    def trace(self, *a, **k):
        return wrap(_nd.trace(self.plain(), *a, **k), self._pd)

    # -- protocols ----------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return array_ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, _types, args, kwargs):
        return array_function(func, args, kwargs)

    def __reduce__(self):
        return (SymArray, (self.tolist(), self._pd))

    def __deepcopy__(self, memo):
        return self.copy()


builtins_type = type


def _idx(k):
    if isinstance(k, S):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymArray):
        return np.vectorize(lambda x: int(x), otypes=[int])(k.plain()) if k.size else np.zeros(k.shape, int)
    if isinstance(k, np.ndarray) and k.dtype == object:
        if k.size and all(isinstance(x, (bool, np.bool_, SymBool)) for x in k.flat):
            return np.array([bool(x) for x in k.flat]).reshape(k.shape)
        return np.vectorize(lambda x: int(x), otypes=[int])(k) if k.size else np.zeros(k.shape, int)
    if isinstance(k, slice):
        return slice(*(x.__index__() if isinstance(x, S) else x for x in (k.start, k.stop, k.step)))
    return k


# ---- scalar helpers ---------------------------------------------------------
def _real(x):
    return x.real_part() if isinstance(x, S) else num(x).real


def _imag(x):
    return x.imag_part() if isinstance(x, S) else num(x).imag


def _conj(x):
    return x.conjugate() if isinstance(x, S) else num(x).conjugate()


def _trunc(x):
    return x.floor() if isinstance(x, S) and (x >= 0) else (-((-x).floor()) if isinstance(x, S) else int(num(x).real))


def _map(f, a):
    a = a.plain() if isinstance(a, SymArray) else np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    o, i = out.reshape(-1), a.reshape(-1)
    for j in range(i.size):
        o[j] = f(i[j])
    return out


def _sc(name, fnum):
    def f(x):
        if isinstance(x, S):
            if x.is_const():
                return fnum(x.cval())
            m = getattr(x, name, None)
            if m is None:
                raise Unsupported(name)
            return m()
        if isinstance(x, SymBool):
            x = int(bool(x))
        return fnum(num(x))

    return f


def _via_np(u):
    def f(x):
        with np.errstate(all="ignore"):
            r = u(np.asarray(x) if not isinstance(x, int) else np.asarray(float(x)))
        return r.item()

    return f


def _fin(test, symval):
    def f(x):
        if isinstance(x, S):
            cs = list(x.t.values())
            return bool(any(test(c) for c in cs)) if symval is False else bool(all(test(c) for c in cs))
        return bool(test(num(x)))

    return f


_UNARY = {
    np.exp: _sc("exp", _via_np(np.exp)),
    np.sin: _sc("sin", _via_np(np.sin)),
    np.cos: _sc("cos", _via_np(np.cos)),
    np.sqrt: _sc("sqrt", _via_np(np.sqrt)),
    np.log: _sc("log", _via_np(np.log)),
    np.cosh: _sc("cosh", _via_np(np.cosh)),
    np.sinh: _sc("sinh", _via_np(np.sinh)),
    np.tanh: _sc("tanh", _via_np(np.tanh)),
    np.floor: _sc("floor", _via_np(np.floor)),
    np.ceil: _sc("ceil", _via_np(np.ceil)),
    np.rint: _sc("rint", _via_np(np.rint)),
    np.conjugate: _conj,
    np.absolute: lambda x: abs(x) if isinstance(x, S) else abs(num(x)),
    np.fabs: lambda x: abs(x) if isinstance(x, S) else abs(num(x)),
    np.square: lambda x: x * x if isinstance(x, S) else num(x) ** 2,
    np.reciprocal: lambda x: 1 / x,
    np.sign: _sc("sign", _via_np(np.sign)),
    np.expm1: lambda x: (x.exp() - 1) if isinstance(x, S) and not x.is_const() else _via_np(np.expm1)(S.lift(x).cval()),
    np.log1p: lambda x: (x + 1).log() if isinstance(x, S) and not x.is_const() else _via_np(np.log1p)(S.lift(x).cval()),
    np.tan: lambda x: x.sin() / x.cos() if isinstance(x, S) and not x.is_const() else _via_np(np.tan)(S.lift(x).cval()),
    np.isfinite: _fin(cmath.isfinite, True),
    np.isnan: _fin(cmath.isnan, False),
    np.isinf: _fin(cmath.isinf, False),
    np.logical_not: lambda x: not bool(x),
}
_REAL_OUT = {np.absolute, np.fabs, np.sign, np.floor, np.ceil, np.rint}
_BOOL_OUT = {
    np.isfinite, np.isnan, np.isinf, np.logical_not, np.less, np.less_equal, np.greater,
    np.greater_equal, np.equal, np.not_equal, np.logical_and, np.logical_or, np.logical_xor,
}


def _pd_of(x):
    if isinstance(x, SymArray):
        return x._pd
    if isinstance(x, S):
        return "f" if x.is_real() else "c"
    if isinstance(x, np.ndarray):
        return "c" if x.dtype.kind == "c" else "f"
    if isinstance(x, (list, tuple)):
        return "c" if any(_pd_of(y) == "c" for y in x) else "f"
    if isinstance(x, complex) or (is_num(x) and isinstance(num(x), complex)):
        return "c"
    return "f"


def _obj(x):
    if isinstance(x, SymArray):
        return x.plain()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    if isinstance(x, (S, SymBool)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, (list, tuple)):
        return _to_obj(x)
    r = np.empty((), dtype=object)
    r[()] = num(x) if x is not None else None
    return r


def wrap(r, pd="c"):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.size and all(isinstance(x, (bool, np.bool_)) for x in r.flat):
                return r.astype(bool)
            return SymArray(r, pd)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(x, pd) for x in r)
    if isinstance(r, list):
        return [wrap(x, pd) for x in r]
    return r


def _finish(res, pd):
    if isinstance(res, np.ndarray) and res.ndim == 0:
        x = res[()]
        if isinstance(x, complex) or isinstance(x, float):
            return np.complex128(x) if isinstance(x, complex) else np.float64(x)
        return x
    return wrap(res, pd)


def array_ufunc(ufunc, method, inputs, out, kw):
    kw = {k: v for k, v in kw.items() if k not in ("dtype", "casting", "order", "subok")}
    pd = "c" if any(_pd_of(x) == "c" for x in inputs) else "f"
    if ufunc in _REAL_OUT:
        pd = "f"
    ins = [_obj(x) for x in inputs]
    where = kw.pop("where", True)
    if where is not True:
        raise Unsupported("where= in ufunc")
    if method == "__call__":
        if ufunc in _UNARY:
            res = _map(_UNARY[ufunc], ins[0])
        elif ufunc in (np.logical_and, np.logical_or, np.logical_xor):
            a, b = np.broadcast_arrays(*ins)
            f = {np.logical_and: lambda x, y: bool(x) and bool(y), np.logical_or: lambda x, y: bool(x) or bool(y),
                 np.logical_xor: lambda x, y: bool(x) != bool(y)}[ufunc]
            res = np.array([f(x, y) for x, y in zip(a.flat, b.flat)], dtype=bool).reshape(a.shape)
        elif ufunc in (np.true_divide,):
            res = np.frompyfunc(_div, 2, 1)(*ins)
            res = np.asarray(res, dtype=object)
        elif ufunc is np.power:
            res = np.asarray(np.frompyfunc(_pow, 2, 1)(*ins), dtype=object)
        elif ufunc in (np.float_power,):
            res = np.asarray(np.frompyfunc(_pow, 2, 1)(*ins), dtype=object)
        elif ufunc is np.hypot:
            res = np.asarray(np.frompyfunc(lambda x, y: S.lift(x * x + y * y).sqrt(), 2, 1)(*ins), dtype=object)
        elif ufunc is np.arctan2:
            res = np.asarray(np.frompyfunc(lambda y, x: (S.lift(x) + S.lift(y) * 1j).angle(), 2, 1)(*ins), dtype=object)
            pd = "f"
        elif ufunc is np.matmul:
            res = _matmul(*ins)
        elif ufunc in (np.remainder, np.floor_divide):
            f = (lambda a, b: a % b) if ufunc is np.remainder else (lambda a, b: a // b)
            res = np.asarray(np.frompyfunc(f, 2, 1)(*ins), dtype=object)
        elif ufunc in (np.fmod,):
            raise Unsupported("fmod")
        elif ufunc in (np.maximum, np.minimum, np.fmax, np.fmin):
            f = (lambda a, b: a if a >= b else b) if ufunc in (np.maximum, np.fmax) else (lambda a, b: a if a <= b else b)
            res = np.asarray(np.frompyfunc(f, 2, 1)(*ins), dtype=object)
        elif ufunc in (np.add, np.subtract, np.multiply, np.negative, np.positive, *_BOOL_OUT) or ufunc.nin == 2 and ufunc in (np.bitwise_and, np.bitwise_or):
            try:
                res = ufunc(*ins, **kw)
            except TypeError as e:
                raise Unsupported(f"{ufunc}: {e}") from e
            res = np.asarray(res, dtype=object) if not isinstance(res, np.ndarray) or res.dtype != bool else res
            if ufunc in _BOOL_OUT:
                res = np.array([bool(x) for x in res.flat], dtype=bool).reshape(res.shape)
        elif ufunc is np.divmod:
            return (array_ufunc(np.floor_divide, method, inputs, None, {}), array_ufunc(np.remainder, method, inputs, None, {}))
        else:
            raise Unsupported(f"ufunc {ufunc.__name__}")
    else:
        kw = {k: v for k, v in kw.items() if v is not None or k == "axis"}
        if kw.get("initial", 0) is np._NoValue:
            kw.pop("initial")
        if ufunc in (np.logical_and, np.logical_or) and method == "reduce":
            b = np.array([bool(x) for x in ins[0].flat], dtype=bool).reshape(ins[0].shape)
            return getattr(ufunc, method)(b, *[i[()] if i.ndim == 0 else i for i in ins[1:]], **kw)
        if ufunc in (np.maximum, np.minimum) and method == "reduce":
            f = np.frompyfunc((lambda a, b: a if a >= b else b) if ufunc is np.maximum else (lambda a, b: a if a <= b else b), 2, 1)
            if kw.get("axis", 0) is None and not kw.get("keepdims"):
                ins[0], kw["axis"] = ins[0].reshape(-1), 0
            res = f.reduce(ins[0], **{k: v for k, v in kw.items() if k in ("axis", "keepdims")})
            return _finish(np.asarray(res, dtype=object) if not isinstance(res, np.ndarray) else res, pd)
        if method == "at":
            ufunc.at(inputs[0].plain(), *inputs[1:])
            return None
        if method == "outer":
            a, b = ins
            return array_ufunc(ufunc, "__call__", (SymArray(a.reshape(a.shape + (1,) * b.ndim), pd), SymArray(b, pd)), out, {})
        if ufunc not in (np.add, np.multiply, np.subtract):
            raise Unsupported(f"{ufunc.__name__}.{method}")
        args = [ins[0]]
        res = getattr(ufunc, method)(*args, **kw)
        if not isinstance(res, np.ndarray):
            r = np.empty((), dtype=object)
            r[()] = res
            res = r
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            if isinstance(o, SymArray):
                if o._pd == "f" and pd == "c":
                    raise np.core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", np.dtype(complex), np.dtype(float), 0)
                o.plain()[...] = res
                return o
            if _all_native(res):
                o[...] = native(res) if o.dtype.kind == "c" else native(res).real
                return o
    return _finish(res, pd)


def _div(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return a / b
    a, b = num(a), num(b)
    if b == 0:
        with np.errstate(all="ignore"):
            return (np.asarray(a) / np.asarray(b)).item()
    return a / b


def _pow(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return S.lift(a) ** b
    with np.errstate(all="ignore"):
        a, b = num(a), num(b)
        if isinstance(a, int) and isinstance(b, int) and b < 0:
            a = float(a)
        return (np.asarray(a) ** np.asarray(b)).item()


def _matmul(a, b):
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    out = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(*bs):
        out[i] = _dot2(a[i], b[i])
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    return out


def _dot2(a, b):
    """2d object matrix product, skipping exact zeros."""
    n, m = a.shape[0], b.shape[1]
    out = np.empty((n, m), dtype=object)
    cols = [[(k, x) for k, x in enumerate(b[:, j]) if not _is0(x)] for j in range(m)]
    for i in range(n):
        row = a[i]
        for j in range(m):
            acc = 0.0
            for k, x in cols[j]:
                y = row[k]
                if _is0(y):
                    continue
                acc = acc + y * x
            out[i, j] = acc
    return out


def _is0(x):
    if isinstance(x, S):
        return not x.t
    return x == 0


def _all_native(a):
    a = a.plain() if isinstance(a, SymArray) else a
    return all(is_num(x) or (isinstance(x, S) and x.is_const()) for x in np.asarray(a, dtype=object).flat)


def native(a):
    """Constant SymArray -> native complex/float array."""
    if isinstance(a, (S,)):
        return a.cval()
    if not isinstance(a, np.ndarray):
        return a
    p = a.plain() if isinstance(a, SymArray) else a
    if p.dtype != object:
        return p
    pd = getattr(a, "_pd", "c")
    if not _all_native(p):
        raise Unsupported("native value of a symbolic array needed")
    vals = [x.cval() if isinstance(x, S) else num(x) for x in p.flat]
    if pd == "f" and not any(isinstance(v, complex) and v.imag != 0 for v in vals):
        return np.array([v.real for v in vals], dtype=np.float64).reshape(p.shape)
    return np.array(vals, dtype=np.complex128).reshape(p.shape)


# ---- linear maps --------------------------------------------------------------
def linear_map(f, a, *, clinear=True, pd="c"):
    """Apply a linear numpy routine to a symbolic array, monomial by monomial."""
    p = a.plain() if isinstance(a, SymArray) else np.asarray(a, dtype=object)
    flat = p.reshape(-1)
    coefs: dict = {}
    from .core import ONE

    for i in range(flat.size):
        x = flat[i]
        if isinstance(x, S):
            for k, c in x.t.items():
                arr = coefs.get(k)
                if arr is None:
                    arr = coefs[k] = np.zeros(flat.size, dtype=np.complex128)
                arr[i] = c
        else:
            x = num(x)
            if x != 0:
                arr = coefs.get(ONE)
                if arr is None:
                    arr = coefs[ONE] = np.zeros(flat.size, dtype=np.complex128)
                arr[i] = x
    if not coefs:
        r = f(np.zeros(p.shape, dtype=np.float64 if getattr(a, "_pd", "c") == "f" else np.complex128))
        return SymArray(r.astype(object), "c" if r.dtype.kind == "c" else "f")
    outs = []
    for k, arr in coefs.items():
        if not clinear and k[1]:
            raise Unsupported("real-linear map of an exponential")
        x = arr.reshape(p.shape)
        if getattr(a, "_pd", "c") == "f" and not np.any(x.imag):
            x = x.real
        r = f(x)
        outs.append((k, r.reshape(-1), np.max(np.abs(x)) if x.size else 0.0))
        rdt, rshape = r.dtype, r.shape
    out = np.empty(int(np.prod(rshape)), dtype=object)
    for i in range(out.size):
        d = {}
        for k, r, s in outs:
            c = r[i]
            # drop pure rounding noise of the transform relative to its input
            if abs(c) > 1e-15 * s:
                c = complex(c)
                d[k] = c.real if c.imag == 0 else c
        out[i] = S(d)
    return SymArray(out.reshape(rshape), "c" if rdt.kind == "c" else "f")


_CLIN = {"fft", "ifft", "fftn", "ifftn", "fft2", "ifft2"}
_RLIN = {"rfft", "irfft", "rfftn", "irfftn", "rfft2", "irfft2", "hfft", "ihfft", "dct", "idct", "dst", "idst", "dctn", "idctn", "dstn", "idstn"}


def _has_sym(x, depth=0):
    if isinstance(x, (S, SymArray, SymBool)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_has_sym(y, depth + 1) for y in x)
    return False


def _fft_handler(func):
    name = func.__name__

    def h(x, *a, **k):
        if not isinstance(x, SymArray):
            x = asarray(x)
            if not isinstance(x, SymArray):
                return func(x, *a, **k)
        return linear_map(lambda v: func(v, *a, **k), x, clinear=name in _CLIN)

    return h


# ---- array functions -------------------------------------------------------------
HANDLERS: dict = {}


def handles(*fs):
    def d(g):
        for f in fs:
            HANDLERS[f] = g
        return g

    return d


for _n in _CLIN | _RLIN:
    if hasattr(np.fft, _n):
        HANDLERS[getattr(np.fft, _n)] = _fft_handler(getattr(np.fft, _n))


@handles(np.real)
def _h_real(a):
    return a.real if isinstance(a, (SymArray, S)) else asarray(a).real


@handles(np.imag)
def _h_imag(a):
    return a.imag if isinstance(a, (SymArray, S)) else asarray(a).imag


@handles(np.angle)
def _h_angle(z, deg=False):
    if deg:
        raise Unsupported("angle deg")
    if isinstance(z, S):
        return z.angle()
    return SymArray(_map(lambda x: S.lift(x).angle(), z), "f")


@handles(np.unwrap)
def _h_unwrap(p, discont=None, axis=-1, *, period=2 * math.pi):
    if discont is not None or _has_sym(period):
        raise Unsupported("unwrap with a discontinuity")
    p = asarray(p)
    q = np.moveaxis(p.plain() if isinstance(p, SymArray) else np.asarray(p, dtype=object), axis, -1)
    out = np.empty(q.shape, dtype=object)
    for i in np.ndindex(q.shape[:-1]):
        turns = 0
        for t in range(q.shape[-1]):
            if t:
                d = q[i][t] - q[i][t - 1]
                lo, hi = interval(S.lift(d).real_part()) if isinstance(d, S) else (float(d), float(d))
                k = math.floor((lo + period / 2) / period) if lo > -1e9 and hi < 1e9 else 0
                if isinstance(d, S) and lo > -1e9 and hi < 1e9 and lo + period / 2 > k * period + 1e-9 and hi + period / 2 < (k + 1) * period - 1e-9:
                    turns = turns + k
                    out[i][t] = q[i][t] - turns * period
                    continue
                k = (S.lift(d) + period / 2)._divmod(period)[0]
                edge = S.lift(d) + period / 2 == k * period
                if edge is True or (not isinstance(edge, bool) and S.lift(d).is_const() and bool(edge)):
                    k = k - 1 if S.lift(d) > 0 else k
                elif not isinstance(edge, bool):
                    State.ctx.assume(~edge)  # a jump of exactly half a turn: either direction is as good
                turns = turns + k
            out[i][t] = q[i][t] - turns * period
    return SymArray(np.moveaxis(out, -1, axis), "f")


@handles(np.iscomplexobj)
def _h_iscomplexobj(a):
    return _pd_of(a) == "c"


@handles(np.isrealobj)
def _h_isrealobj(a):
    return _pd_of(a) != "c"


@handles(np.real_if_close)
def _h_ric(a, tol=100):
    if all(S.lift(x).is_real() for x in a.plain().flat):
        return a.real
    return a


@handles(np.mean)
def _h_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a)
    s = np.sum(a, axis=axis, keepdims=keepdims)
    n = a.size if axis is None else np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))])
    return s / float(n)


@handles(np.average)
def _h_average(a, axis=None, weights=None, returned=False, *, keepdims=False):
    a = asarray(a)
    if weights is None:
        avg = np.mean(a, axis=axis, keepdims=keepdims)
        scl = None
    else:
        wgt = asarray(weights)
        if a.shape != wgt.shape:
            if axis is None:
                raise TypeError("Axis must be specified when shapes of a and weights differ.")
            if isinstance(axis, tuple):
                raise TypeError("axis must be an integer")
            if wgt.ndim != 1:
                raise TypeError("1D weights expected when shapes of a and weights differ.")
            if wgt.shape[0] != a.shape[axis]:
                raise ValueError("Length of weights not compatible with specified axis.")
            wgt = np.broadcast_to(wgt, (a.ndim - 1) * (1,) + wgt.shape)
            wgt = wgt.swapaxes(-1, axis)
        scl = np.sum(wgt, axis=axis, keepdims=keepdims)
        avg = np.sum(np.multiply(a, wgt), axis=axis, keepdims=keepdims) / scl
    return (avg, scl) if returned else avg


@handles(np.var)
def _h_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asarray(a)
    m = np.mean(a, axis=axis, keepdims=True)
    d = a - m
    d2 = SymArray(_map(lambda x: S.lift(x).abs2(), d), "f")
    n = a.size if axis is None else np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))])
    return np.sum(d2, axis=axis, keepdims=keepdims) / float(n - ddof)


@handles(np.std)
def _h_std(a, **k):
    return np.sqrt(_h_var(a, **k))


@handles(np.linalg.norm)
def _h_norm(x, ord=None, axis=None, keepdims=False):  # noqa: A002
    x = asarray(x)
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim != 1 and not isinstance(axis, int)):
        raise Unsupported("norm ord")
    d2 = SymArray(_map(lambda v: S.lift(v).abs2(), x), "f")
    return np.sqrt(np.sum(d2, axis=axis, keepdims=keepdims))


@handles(np.vdot)
def _h_vdot(a, b):
    return np.sum(np.conj(asarray(a).ravel()) * asarray(b).ravel())


@handles(np.dot)
def _h_dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return _tensordot(a, b, ([a.ndim - 1], [max(b.ndim - 2, 0)]))


@handles(np.inner)
def _h_inner(a, b):
    a, b = asarray(a), asarray(b)
    return _tensordot(a, b, ([a.ndim - 1], [b.ndim - 1]))


@handles(np.tensordot)
def _h_tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, int) or not hasattr(axes, "__iter__"):
        n = int(axes)
        ax = (list(range(a.ndim - n, a.ndim)), list(range(n)))
    else:
        aa, bb = axes
        ax = ([aa] if not hasattr(aa, "__iter__") else list(aa), [bb] if not hasattr(bb, "__iter__") else list(bb))
    return _tensordot(a, b, ax)


def _tensordot(a, b, ax):
    pd = "c" if "c" in (_pd_of(a), _pd_of(b)) else "f"
    ax0 = [x % a.ndim for x in ax[0]]
    ax1 = [x % b.ndim for x in ax[1]]
    if len(ax0) != len(ax1) or any(a.shape[i] != b.shape[j] for i, j in zip(ax0, ax1)):
        raise ValueError("shape-mismatch for sum")
    fa = [i for i in range(a.ndim) if i not in ax0]
    fb = [i for i in range(b.ndim) if i not in ax1]
    n = int(np.prod([a.shape[i] for i in ax0], dtype=int))
    A = _obj(a).transpose(fa + ax0).reshape(-1, n) if n else np.zeros((int(np.prod([a.shape[i] for i in fa], dtype=int)), 0), dtype=object)
    B = _obj(b).transpose(ax1 + fb).reshape(n, -1) if n else np.zeros((0, int(np.prod([b.shape[i] for i in fb], dtype=int))), dtype=object)
    r = _dot2(A, B).reshape([a.shape[i] for i in fa] + [b.shape[i] for i in fb])
    return _finish(r, pd)


@handles(np.linalg.multi_dot)
def _h_multidot(arrays, **k):
    r = arrays[0]
    for x in arrays[1:]:
        r = np.dot(r, x)
    return r


@handles(np.einsum)
def _h_einsum(*operands, optimize=False, out=None, dtype=None, order=None, casting=None):
    if not isinstance(operands[0], str):
        # alternative form: op, sublist, op, sublist, ..., [sublistout]
        ops, subs = [], []
        i = 0
        while i + 1 < len(operands):
            ops.append(operands[i])
            subs.append(list(operands[i + 1]))
            i += 2
        outs = list(operands[i]) if i < len(operands) else None
        sym = lambda l: "".join(chr(97 + x) for x in l)  # noqa: E731
        expr = ",".join(sym(s) for s in subs) + ("->" + sym(outs) if outs is not None else "")
    else:
        expr, ops = operands[0], list(operands[1:])
    ops = [asarray(o) for o in ops]
    pd = "c" if any(_pd_of(o) == "c" for o in ops) else "f"
    expr = expr.replace(" ", "")
    if "->" in expr:
        lhs, rhs = expr.split("->")
    else:
        lhs = expr
        letters = lhs.replace(",", "").replace("...", "")
        rhs = ("..." if "..." in lhs else "") + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    terms = lhs.split(",")
    if len(terms) != len(ops):
        raise ValueError("einsum: wrong number of operands")
    spare = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz" if c not in expr]
    nd_ell = max((o.ndim - len(t.replace("...", "")) for t, o in zip(terms, ops) if "..." in t), default=0)
    ell = spare[:nd_ell]
    terms2 = []
    for t, o in zip(terms, ops):
        if "..." in t:
            k = o.ndim - len(t.replace("...", ""))
            t = t.replace("...", "".join(ell[nd_ell - k:]))
        if len(t) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match operand dimension")
        terms2.append(t)
    rhs = rhs.replace("...", "".join(ell))
    sizes: dict = {}
    for t, o in zip(terms2, ops):
        for c, s in zip(t, o.shape):
            if c in sizes and sizes[c] != s and 1 not in (sizes[c], s):
                raise ValueError(f"einsum: operands could not be broadcast together for {c}")
            sizes[c] = max(sizes.get(c, 1), s)
    cur_t, cur = None, None
    for idx, (t, o) in enumerate(zip(terms2, ops)):
        a = _obj(o)
        # diagonals of repeated labels
        while len(set(t)) != len(t):
            c = next(c for c in t if t.count(c) > 1)
            i = t.index(c)
            j = t.index(c, i + 1)
            a = np.diagonal(a, axis1=i, axis2=j)
            t = t.replace(c, "") if t.count(c) == 2 else t[:i] + t[i + 1:j] + t[j + 1:]
            t = t + c
        for i, c in enumerate(t):
            if a.shape[i] == 1 and sizes[c] != 1:
                a = np.broadcast_to(a, a.shape[:i] + (sizes[c],) + a.shape[i + 1:])
        if cur is None:
            cur_t, cur = t, a
        else:
            later = set(rhs) | set("".join(terms2[idx + 1:]))
            contract = [c for c in cur_t if c in t and c not in later]
            batch = [c for c in cur_t if c in t and c in later]
            f1 = [c for c in cur_t if c not in t]
            f2 = [c for c in t if c not in cur_t]
            A = cur.transpose([cur_t.index(c) for c in batch + f1 + contract])
            B = a.transpose([t.index(c) for c in batch + contract + f2])
            nb = [sizes[c] for c in batch]
            n1, nc, n2 = ([sizes[c] for c in x] for x in (f1, contract, f2))
            p = lambda l: int(np.prod(l, dtype=int))  # noqa: E731
            A = A.reshape(p(nb), p(n1), p(nc))
            B = B.reshape(p(nb), p(nc), p(n2))
            o_ = np.empty((p(nb), p(n1), p(n2)), dtype=object)
            for q in range(p(nb)):
                o_[q] = _dot2(A[q], B[q])
            cur = o_.reshape(nb + n1 + n2)
            cur_t = "".join(batch + f1 + f2)
        later = set(rhs) | set("".join(terms2[idx + 1:]))
        drop = [i for i, c in enumerate(cur_t) if c not in later]
        if drop:
            cur = np.add.reduce(cur, axis=tuple(drop)) if len(drop) < cur.ndim or True else cur
            if not isinstance(cur, np.ndarray):
                z = np.empty((), dtype=object)
                z[()] = cur
                cur = z
            cur_t = "".join(c for i, c in enumerate(cur_t) if i not in drop)
    res = cur.transpose([cur_t.index(c) for c in rhs]) if cur.ndim else cur
    return _finish(res.copy() if isinstance(res, np.ndarray) else res, pd)


@handles(np.kron)
def _h_kron(a, b):
    a, b = asarray(a), asarray(b)
    nd = max(a.ndim, b.ndim)
    A = _obj(a).reshape((1,) * (nd - a.ndim) + a.shape)
    B = _obj(b).reshape((1,) * (nd - b.ndim) + b.shape)
    A2 = A.reshape([x for s in A.shape for x in (s, 1)])
    B2 = B.reshape([x for s in B.shape for x in (1, s)])
    return wrap((A2 * B2).reshape([x * y for x, y in zip(A.shape, B.shape)]), "c" if "c" in (_pd_of(a), _pd_of(b)) else "f")


@handles(np.outer)
def _h_outer(a, b, out=None):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return a[:, None] * b[None, :]


@handles(np.cross)
def _h_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    pd = "c" if "c" in (_pd_of(a), _pd_of(b)) else "f"
    a, b = asarray(a), asarray(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = np.moveaxis(_obj(a), axisa, -1), np.moveaxis(_obj(b), axisb, -1)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return _finish(np.asarray(a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0], dtype=object), pd)
    def c3(v):
        return v if v.shape[-1] == 3 else np.concatenate([v, np.zeros(v.shape[:-1] + (1,), dtype=object)], axis=-1)
    a, b = np.broadcast_arrays(c3(a), c3(b))
    r = np.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                  a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)
    return wrap(np.moveaxis(r, -1, axisc), pd)


def _close(a, b, rtol, atol):
    a, b = S.lift(a), S.lift(b)
    d = a - b
    if d.is_const() and b.is_const():
        x = d.cval()
        if x != x:
            return False
        return bool(abs(x) <= atol + rtol * abs(b.cval()))
    scale = max([abs(c) for c in a.t.values()] + [abs(c) for c in b.t.values()] + [0])
    if all(abs(c) <= 1e-11 * scale for c in d.t.values()):
        return True
    return abs(d) <= atol + rtol * abs(b)


@handles(np.isclose)
def _h_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = np.broadcast_arrays(_obj(asarray(a)), _obj(asarray(b)))
    r = np.array([bool(_close(x, y, rtol, atol)) for x, y in zip(a.flat, b.flat)], dtype=bool).reshape(a.shape)
    return r if r.ndim else bool(r)


@handles(np.isreal)
def _h_isreal(x):
    x = asarray(x)
    if not isinstance(x, SymArray):
        return np.isreal(x)
    return np.imag(x) == 0


@handles(np.iscomplex)
def _h_iscomplex(x):
    x = asarray(x)
    if not isinstance(x, SymArray):
        return np.iscomplex(x)
    return np.imag(x) != 0


@handles(np.allclose)
def _h_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(_h_isclose(a, b, rtol, atol)))


@handles(np.array_equal)
def _h_array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(_obj(a).flat, _obj(b).flat))


@handles(np.apply_along_axis)
def _h_apply_along_axis(func1d, axis, arr, *args, **kwargs):
    arr = asarray(arr)
    axis = axis % arr.ndim
    m = np.moveaxis(arr, axis, -1)
    rest = m.shape[:-1]
    outs = {}
    for i in np.ndindex(*rest):
        outs[i] = asarray(func1d(m[i], *args, **kwargs))
    shp = next(iter(outs.values())).shape
    o = np.empty(rest + shp, dtype=object)
    for i, v in outs.items():
        o[i] = _obj(v)
    nd = len(shp)
    # result axes replace `axis`
    o = np.moveaxis(o, list(range(len(rest), len(rest) + nd)), list(range(axis, axis + nd)))
    return SymArray(o, "c" if any(_pd_of(v) == "c" for v in outs.values()) else "f")


@handles(np.interp)
def _h_interp(*a, **k):
    raise Unsupported("interp")


@handles(np.round, np.around)
def _h_round(a, decimals=0, out=None):
    s = 10 ** decimals
    return SymArray(_map(lambda x: (S.lift(x) * s).rint() * (1 / s) if not S.lift(x).is_const() else np.round(S.lift(x).cval(), decimals).item(), a), _pd_of(a)) if isinstance(a, SymArray) else (a * s).rint() * (1 / s)


@handles(np.clip)
def _h_clip(a, a_min=None, a_max=None, out=None, **k):
    a = asarray(a)
    if a_min is not None:
        a = np.maximum(a, a_min)
    if a_max is not None:
        a = np.minimum(a, a_max)
    return a


@handles(np.where)
def _h_where(cond, x=None, y=None):
    c = asarray(cond)
    if isinstance(c, SymArray) or c.dtype == object:
        c = np.array([bool(v) for v in _obj(c).flat], dtype=bool).reshape(c.shape)
    if x is None:
        return np.where(c)
    x, y = asarray(x), asarray(y)
    return wrap(np.where(c, _obj(x), _obj(y)), "c" if "c" in (_pd_of(x), _pd_of(y)) else "f")


@handles(np.nonzero)
def _h_nonzero(a):
    return np.nonzero(np.array([bool(v) for v in _obj(a).flat], dtype=bool).reshape(a.shape))


@handles(np.count_nonzero)
def _h_cnz(a, axis=None, keepdims=False):
    return np.count_nonzero(np.array([bool(v) for v in _obj(a).flat], dtype=bool).reshape(a.shape), axis=axis)


@handles(np.zeros_like, np.empty_like)
def _h_zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    return zeros(a.shape if shape is None else shape, dtype=a.dtype if dtype is None else dtype)


@handles(np.ones_like)
def _h_ones_like(a, dtype=None, order="K", subok=True, shape=None):
    return full(a.shape if shape is None else shape, 1.0, dtype=a.dtype if dtype is None else dtype)


@handles(np.full_like)
def _h_full_like(a, v, dtype=None, order="K", subok=True, shape=None):
    return full(a.shape if shape is None else shape, v, dtype=a.dtype if dtype is None else dtype)


@handles(np.max, np.amax)
def _h_max(a, axis=None, out=None, keepdims=False, **k):
    return array_ufunc(np.maximum, "reduce", (asarray(a),), None, {"axis": axis})


@handles(np.min, np.amin)
def _h_min(a, axis=None, out=None, keepdims=False, **k):
    return array_ufunc(np.minimum, "reduce", (asarray(a),), None, {"axis": axis})


@handles(np.linalg.inv)
def _h_inv(a):
    if _all_native(a):
        return wrap(_to_sym(np.linalg.inv(native(a))))
    p = _obj(a)
    n = p.shape[-1]
    for transposed in (False, True):
        # rows (columns) of numbers times one monomial each
        if p.ndim != 2 or p.shape[0] != n:
            break
        q = p.T if transposed else p
        keys = [{k for x in row for k in S.lift(x).t} for row in q]
        if all(len(k) == 1 for k in keys):
            keys = [next(iter(k)) for k in keys]
            c = np.array([[complex(S.lift(x).t.get(k, 0)) for x in row] for row, k in zip(q, keys)])
            ci = np.linalg.inv(c)
            out = np.empty((n, n), dtype=object)
            for j, k in enumerate(keys):
                f = S({k: 1}).inverse()
                for i in range(n):
                    out[i, j] = f.scale(complex(ci[i, j]))
            return SymArray(out.T if transposed else out, a._pd)
    # cofactor inverse for tiny matrices
    if p.ndim != 2 or n > 3:
        raise Unsupported("symbolic inverse")
    det = _det(p)
    adj = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            mnr = np.delete(np.delete(p, i, 0), j, 1)
            adj[j, i] = (1 if (i + j) % 2 == 0 else -1) * (_det(mnr) if n > 1 else 1)
    inv = 1 / S.lift(det)
    return SymArray(_map(lambda x: x * inv, adj), a._pd)


def _det(p):
    n = p.shape[0]
    if n == 1:
        return p[0, 0]
    if n == 2:
        return p[0, 0] * p[1, 1] - p[0, 1] * p[1, 0]
    tot = 0
    for j in range(n):
        if _is0(p[0, j]):
            continue
        tot = tot + (1 if j % 2 == 0 else -1) * p[0, j] * _det(np.delete(p[1:], j, 1))
    return tot


@handles(np.linalg.det)
def _h_det(a):
    p = _obj(a)
    if p.ndim == 2:
        return _det(p)
    o = np.empty(p.shape[:-2], dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = _det(p[i])
    return SymArray(o, a._pd)


def _const_only(f, nm):
    def h(*args, **kwargs):
        if not all(_all_native(x) for x in args if isinstance(x, SymArray)):
            hook = LINALG_HOOK.get(nm)
            if hook is not None:
                return hook(f, *args, **kwargs)
            raise Unsupported(nm + " of a symbolic matrix")
        r = f(*(native(x) if isinstance(x, SymArray) else x for x in args), **kwargs)
        return _to_sym(r)

    return h


LINALG_HOOK: dict = {}


def _h_solve(f):
    def h(a, b, *r, **k):
        a, b = asarray(a), asarray(b)
        if isinstance(a, SymArray) and not _all_native(a):
            if "solve" in LINALG_HOOK:
                return LINALG_HOOK["solve"](f, a, b, *r, **k)
            return np.linalg.inv(a) @ b
        a = native(a) if isinstance(a, SymArray) else np.asarray(a)
        if a.ndim != 2:
            raise Unsupported("stacked solve")
        if not isinstance(b, SymArray) or _all_native(b):
            return _to_sym(f(a, native(b) if isinstance(b, SymArray) else b, *r, **k))
        return f(a, np.eye(len(a)), *r, **k) @ b

    return h


def _h_lstsq(a, b, rcond="warn"):
    a, b = asarray(a), asarray(b)
    if isinstance(a, SymArray) and not _all_native(a):
        raise Unsupported("lstsq of a symbolic matrix")
    a = native(a) if isinstance(a, SymArray) else np.asarray(a)
    if not isinstance(b, SymArray) or _all_native(b):
        return _to_sym(np.linalg.lstsq(a, native(b) if isinstance(b, SymArray) else b, rcond=rcond))
    x, _, rank, sv = np.linalg.lstsq(a, np.eye(len(a)), rcond=rcond)
    return x @ b, asarray([]), rank, sv


def _poly_fit(real):
    """a least-squares fit on concrete points is linear in the data"""

    def fit(x, y, deg, domain=None, rcond=None, full=False, w=None, *a, **k):
        y = asarray(y)
        if not isinstance(y, SymArray):
            return real.fit(x, y, deg, domain, rcond, full, w, *a, **k)
        if full:
            raise Unsupported("full fit of symbolic data")
        x, w = (native(q) if isinstance(q, SymArray) else q for q in (x, w))
        p = real.fit(x, np.zeros(len(y)), deg, domain, rcond, full, w, *a, **k)
        c = np.stack([real.fit(x, e, deg, domain, rcond, full, w, *a, **k).coef for e in np.eye(len(y))], axis=1) @ y
        out = real(np.zeros(len(c)), domain=p.domain, window=p.window)
        out.coef = c
        return out

    return type(real.__name__, (), {"fit": staticmethod(fit), "__new__": staticmethod(lambda cls, *a, **k: real(*a, **k))})


def _plain_fit(real):
    def fit(x, y, deg, rcond=None, full=False, w=None, **k):
        y = asarray(y)
        if not isinstance(y, SymArray):
            return real(x, y, deg, rcond=rcond, full=full, w=w, **k)
        if full:
            raise Unsupported("full fit of symbolic data")
        x, w = (native(q) if isinstance(q, SymArray) else q for q in (x, w))
        return real(x, np.eye(len(y)), deg, rcond=rcond, w=w, **k) @ y

    return fit


def _to_sym(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in "fc":
        return SymArray(r.astype(object), "c" if r.dtype.kind == "c" else "f")
    if isinstance(r, tuple):
        items = [_to_sym(x) for x in r]
        return type(r)(*items) if hasattr(r, "_fields") else tuple(items)
    return r


for _n in ("eigh", "eig", "eigvalsh", "eigvals", "solve", "svd", "lstsq", "pinv", "qr", "cholesky", "matrix_rank"):
    HANDLERS[getattr(np.linalg, _n)] = _const_only(getattr(np.linalg, _n), _n)
HANDLERS[np.linalg.solve] = _h_solve(np.linalg.solve)
HANDLERS[np.linalg.lstsq] = _h_lstsq


@handles(np.linalg.matrix_power)
def _h_mp(a, n):
    n = int(n)
    if n < 0:
        a, n = np.linalg.inv(a), -n
    r = SymArray(np.eye(a.shape[-1]).astype(object), "f")
    for _ in range(n):
        r = r @ a
    return r


# functions that only move data: numpy runs them on plain object arrays
_MOVE = {
    "reshape", "ravel", "transpose", "swapaxes", "moveaxis", "rollaxis", "roll", "fftshift", "ifftshift", "concatenate",
    "stack", "hstack", "vstack", "dstack", "column_stack", "split", "array_split", "tile", "repeat", "pad", "squeeze",
    "expand_dims", "broadcast_to", "broadcast_arrays", "flip", "fliplr", "flipud", "rot90", "diag", "diagonal", "diagflat",
    "fill_diagonal", "take", "take_along_axis", "put", "put_along_axis", "copyto", "insert", "delete", "append", "tril",
    "triu", "trace", "sum", "prod", "cumsum", "cumprod", "diff", "shape", "ndim", "size", "atleast_1d", "atleast_2d",
    "atleast_3d", "copy", "argsort", "sort", "argmax", "argmin", "unravel_index", "ravel_multi_index", "any", "all",
    "meshgrid", "resize", "select", "choose", "compress", "extract", "place", "putmask", "block", "array_split", "gradient",
    "searchsorted", "lexsort", "result_type", "may_share_memory", "shares_memory", "array_repr", "array_str", "array2string",
    "ix_", "apply_over_axes", "common_type", "min_scalar_type", "can_cast", "ediff1d", "trapz", "poly", "polyval", "convolve", "vander",
}


def _h_ravel_multi_index(multi_index, dims, mode="raise", order="C"):
    if order != "C":
        raise Unsupported("ravel_multi_index order")
    dims = tuple(int(d) for d in dims)
    modes = tuple(mode) if isinstance(mode, (tuple, list)) else (mode,) * len(dims)
    if len(multi_index) != len(dims):
        raise ValueError("parameter multi_index must be a sequence of length %d" % len(dims))
    cols = np.broadcast_arrays(*[_obj(asarray(x)) for x in multi_index])
    out = np.empty(cols[0].shape, dtype=object)
    for pos in np.ndindex(*out.shape):
        r = S.const(0)
        for c, d, m in zip(cols, dims, modes):
            x = S.lift(c[pos])
            if m == "wrap":
                x = x % d
            elif m == "clip":
                x = S.const(0) if bool(x < 0) else (S.const(d - 1) if bool(x > d - 1) else x)
            elif not (bool(x >= 0) and bool(x <= d - 1)):
                raise ValueError("invalid entry in coordinates array")
            r = r * d + x
        out[pos] = r
    return out[()] if out.ndim == 0 else SymArray(out, "f")


def _h_unravel_index(indices, shape, order="C"):
    if order != "C":
        raise Unsupported("unravel_index order")
    shape = tuple(int(d) for d in shape)
    flat = _obj(asarray(indices))
    n = int(np.prod(shape, dtype=int))
    outs = [np.empty(flat.shape, dtype=object) for _ in shape]
    for pos in np.ndindex(*flat.shape):
        x = S.lift(flat[pos])
        if not (bool(x >= 0) and bool(x <= n - 1)):
            raise ValueError("index out of bounds")
        for k in reversed(range(len(shape))):
            x, outs[k][pos] = x._divmod(shape[k])
    return tuple(o[()] if o.ndim == 0 else SymArray(o, "f") for o in outs)


HANDLERS[np.ravel_multi_index] = _h_ravel_multi_index
for _n in ("diag_indices_from", "tril_indices_from", "triu_indices_from"):
    HANDLERS[getattr(np, _n)] = lambda a, *r, _f=getattr(np, _n), **k: _f(np.zeros(np.shape(a)), *r, **k)
HANDLERS[np.unravel_index] = _h_unravel_index


def _unsym(x):
    if isinstance(x, SymArray):
        return x.plain()
    if isinstance(x, S):
        return _obj(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(_unsym(y) for y in x)
    if isinstance(x, list):
        return [_unsym(y) for y in x]
    return x


def _collect_pd(x):
    if isinstance(x, (SymArray, S)):
        return _pd_of(x)
    if isinstance(x, np.ndarray):
        return "c" if x.dtype.kind == "c" else "f"
    if isinstance(x, (list, tuple)):
        return "c" if any(_collect_pd(y) == "c" for y in x) else "f"
    return "f"


def array_function(func, args, kwargs):
    kwargs = {k: v for k, v in kwargs.items() if v is not np._NoValue}
    h = HANDLERS.get(func)
    if h is not None:
        return h(*args, **kwargs)
    name = func.__name__
    if name not in _MOVE:
        raise Unsupported(f"numpy.{name}")
    if name in ("sum", "prod", "cumsum", "cumprod", "trace", "diff", "gradient"):
        kwargs.pop("dtype", None)
    if name in ("any", "all"):
        a = args[0]
        b = np.array([bool(v) for v in _obj(a).flat], dtype=bool).reshape(np.shape(_obj(a)))
        return func(b, *args[1:], **kwargs)
    pd = _collect_pd(list(args) + list(kwargs.values()))
    # index arguments that are symbolic ints
    r = func(*[_unsym(a) for a in args], **{k: _unsym(v) for k, v in kwargs.items()})
    if name in ("argsort", "argmax", "argmin", "shape", "ndim", "size", "searchsorted", "lexsort"):
        return r
    if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object and name != "reshape":
        return _finish(r, pd)
    return wrap(r, pd)


# ---- creation -----------------------------------------------------------------------
def _to_obj(x):
    """Nested list/tuple containing symbols -> object ndarray."""
    if isinstance(x, SymArray):
        return x.plain()
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (S, SymBool)) or is_num(x) or isinstance(x, (bool, np.bool_)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, (list, tuple)):
        parts = [_to_obj(y) for y in x]
        if not parts:
            return np.empty((0,), dtype=object)
        if any(p.shape != parts[0].shape for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        out = np.empty((len(parts), *parts[0].shape), dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    raise Unsupported(f"array of {type(x)}")


def _kind(dtype):
    if dtype is None:
        return None
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return "O"


def array(obj, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    if not isinstance(obj, (np.ndarray, list, tuple)) and hasattr(obj, "__iter__") and not isinstance(obj, (str, dict, S)) and not hasattr(obj, "__array__"):
        if not isinstance(obj, (range, types.GeneratorType)):
            pass
    if isinstance(obj, SymArray):
        k = _kind(dtype)
        if k in (None, "O"):
            r = obj.copy() if copy else obj
        else:
            r = obj.astype(dtype, copy=bool(copy))
    elif _has_sym(obj):
        o = _to_obj(obj)
        if o is obj or (isinstance(obj, np.ndarray)):
            o = o.copy() if copy else o
        k = _kind(dtype)
        if dtype is None and o.size and all(isinstance(x, (bool, np.bool_)) for x in o.flat):
            return o.astype(bool)
        if k in "iu" if k else False:
            r = SymArray(o, "f")
        elif k == "b":
            return np.array([bool(x) for x in o.flat], dtype=bool).reshape(o.shape)
        else:
            pd = "c" if k == "c" else ("f" if k == "f" else ("c" if any(_pd_of(x) == "c" for x in o.flat) else "f"))
            if k == "f":
                o = _map(_real, o)
            r = SymArray(o, pd)
    else:
        r = np.array(obj, dtype=dtype, copy=copy, order=order, subok=subok, ndmin=ndmin)
        return r
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def asarray(obj, dtype=None, order=None, *, like=None):
    if isinstance(obj, SymArray) and dtype is None:
        return obj
    if isinstance(obj, np.ndarray) and not isinstance(obj, SymArray) and obj.dtype != object:
        return np.asarray(obj, dtype=dtype)
    return array(obj, dtype=dtype, copy=False) if _has_sym(obj) else np.asarray(obj, dtype=dtype)


def _dims(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(x) for x in shape)
    if isinstance(shape, np.ndarray):
        return tuple(int(x) for x in np.atleast_1d(shape))
    return (int(shape),)


def zeros(shape, dtype=float, order="C", *, like=None):
    return full(shape, 0.0, dtype=float if dtype is None else dtype)


def empty(shape, dtype=float, order="C", *, like=None):
    k = _kind(dtype)
    if k in ("i", "u", "b"):
        return np.zeros(_dims(shape), dtype=dtype)
    # uninitialised memory: an arbitrary value, here one fixed huge marker
    return full(shape, 7.7e77, dtype=float if dtype is None else dtype)


def ones(shape, dtype=None, order="C", *, like=None):
    return full(shape, 1.0, dtype=float if dtype is None else dtype)


def full(shape, v, dtype=None, order="C", *, like=None):
    k = _kind(dtype)
    if dtype is None:
        k = "c" if _pd_of(v) == "c" else ("i" if isinstance(v, int) and not isinstance(v, bool) else ("b" if isinstance(v, bool) else "f"))
        dtype = {"i": int, "b": bool, "f": float, "c": complex}[k]
    if k in ("i", "u", "b"):
        return np.full(_dims(shape), v, dtype=dtype)
    o = np.empty(_dims(shape), dtype=object)
    if isinstance(v, np.ndarray):
        o[...] = _obj(v)
    else:
        o.fill(v if isinstance(v, S) else num(v))
    return SymArray(o, "c" if k in ("c", "O") else "f")


def eye(N, M=None, k=0, dtype=float, order="C", *, like=None):
    if _kind(dtype) in ("i", "b"):
        return np.eye(N, M, k, dtype=dtype)
    return SymArray(np.eye(int(N), None if M is None else int(M), k).astype(object), "c" if _kind(dtype) == "c" else "f")


def identity(n, dtype=None, *, like=None):
    return eye(n, dtype=float if dtype is None else dtype)


def _like(base):
    def f(a, *args, **kw):
        if isinstance(a, (list, tuple)):
            a = asarray(a)
        dtype = kw.get("dtype")
        dt = (a.dtype if hasattr(a, "dtype") else float) if dtype is None else dtype
        shp = kw.get("shape")
        shp = np.shape(a) if shp is None else shp
        if base is full:
            return full(shp, args[0], dtype=dt)
        return base(shp, dtype=dt)

    return f


def _fromiter_like(f):
    def g(x, *a, **k):
        if _has_sym(x):
            return f(asarray(x), *a, **k)
        return f(x, *a, **k)

    return g


def isscalar(x):
    return isinstance(x, S) or np.isscalar(x)


def _assert_close(actual, desired, rtol, atol):
    a, d = np.broadcast_arrays(_obj(asarray(actual)), _obj(asarray(desired)))
    for x, y in zip(a.flat, d.flat):
        if not bool(_close(x, y, rtol, atol)):
            raise AssertionError("Arrays are not almost equal")


class _Testing:
    def __getattr__(self, n):
        return getattr(np.testing, n)

    @staticmethod
    def assert_array_almost_equal(x, y, decimal=6, err_msg="", verbose=True):
        if not (_has_sym(x) or _has_sym(y)):
            return np.testing.assert_array_almost_equal(x, y, decimal, err_msg, verbose)
        if np.shape(x) != np.shape(y) and np.ndim(x) and np.ndim(y):
            raise AssertionError("shape mismatch")
        return _assert_close(x, y, 0, 1.5 * 10.0 ** (-decimal))

    assert_almost_equal = assert_array_almost_equal

    @staticmethod
    def assert_allclose(actual, desired, rtol=1e-7, atol=0, equal_nan=True, err_msg="", verbose=True):
        if not (_has_sym(actual) or _has_sym(desired)):
            return np.testing.assert_allclose(actual, desired, rtol, atol, equal_nan, err_msg, verbose)
        if np.shape(actual) != np.shape(desired) and np.ndim(actual) and np.ndim(desired):
            raise AssertionError("shape mismatch")
        return _assert_close(actual, desired, rtol, max(atol, 1e-12))

    @staticmethod
    def assert_array_equal(x, y, err_msg="", verbose=True, **k):
        if not (_has_sym(x) or _has_sym(y)):
            return np.testing.assert_array_equal(x, y, err_msg, verbose)
        return _assert_close(x, y, 0, 1e-12)

    assert_equal = assert_array_equal


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real_mod"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        o = self.__dict__["_over"]
        if n in o:
            return o[n]
        return getattr(self.__dict__["_real_mod"], n)


def _wrapsym(f, name=None):
    """Call a numpy function whose args may be lists/tuples holding symbols."""

    def g(*a, **k):
        a = tuple(asarray(x) if isinstance(x, (list, tuple)) and _has_sym(x) and not name == "concatenate" else x for x in a)
        return f(*a, **k)

    if isinstance(f, np.ufunc):
        for m in ("reduce", "accumulate", "reduceat", "outer", "at"):
            setattr(g, m, _wrapsym(getattr(f, m)))
        g.nin, g.nout, g.identity = f.nin, f.nout, f.identity
    return g


class _ScalarMeta(type):
    """np.float64 / np.complex128 that leave a symbolic number symbolic when called"""

    def __instancecheck__(cls, x):
        return isinstance(x, cls.__base__)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__base__)

    def __eq__(cls, o):
        return o is cls or o is cls.__base__

    def __hash__(cls):
        return hash(cls.__base__)

    def __call__(cls, x=0, *a):
        if a or not _has_sym(x):
            return cls.__base__(x, *a)
        if isinstance(x, S) or np.ndim(x) == 0:
            v = x if isinstance(x, S) else S.lift(_obj(asarray(x))[()])
            return v.real_part() if issubclass(cls.__base__, np.floating) else v
        return array(x, dtype=cls.__base__)


class SymF64(np.float64, metaclass=_ScalarMeta):
    pass


class SymC128(np.complex128, metaclass=_ScalarMeta):
    pass


class _Random:
    """Random numbers: symbolic values handed out by the harness (State.random)."""

    def __getattr__(self, n):
        hook = getattr(State, "random", None)
        if hook is not None and n in hook:
            return hook[n]
        return getattr(np.random, n)


def make_np():
    over = {
        "zeros": zeros, "empty": empty, "ones": ones, "full": full, "eye": eye, "identity": identity,
        "zeros_like": _like(zeros), "empty_like": _like(empty), "ones_like": _like(ones), "full_like": _like(full),
        "array": array, "asarray": asarray, "asanyarray": asarray, "ascontiguousarray": asarray, "asfarray": asarray,
        "testing": _Testing(), "isscalar": isscalar, "random": _Random(),
        "iscomplexobj": lambda a: _h_iscomplexobj(a) if _has_sym(a) else np.iscomplexobj(a),
        "isrealobj": lambda a: _h_isrealobj(a) if _has_sym(a) else np.isrealobj(a),
        "asarray_chkfinite": asarray,
        "float64": SymF64, "complex128": SymC128,
    }
    for n in ("real", "imag", "angle", "sum", "prod", "mean", "average", "cumsum", "diff", "square", "sqrt", "exp", "abs", "absolute",
              "conj", "conjugate", "sin", "cos", "log", "max", "min", "sort", "argsort", "argmax", "argmin", "diag", "tensordot",
              "dot", "matmul", "einsum", "isclose", "allclose", "linspace", "ravel", "reshape", "round", "floor", "around", "cross",
              "outer", "kron", "roll", "any", "all", "multiply", "add", "subtract", "divide", "where", "transpose", "swapaxes", "unravel_index",
              "ravel_multi_index", "var", "std", "remainder", "mod"):
        over.setdefault(n, _wrapsym(getattr(np, n)))
    la = {}
    for n in ("norm", "inv", "det", "eigh", "solve", "eig", "svd", "lstsq"):
        la[n] = _wrapsym(getattr(np.linalg, n))
    over["linalg"] = Proxy(np.linalg, la)
    ff = {n: _fft_any(getattr(np.fft, n)) for n in _CLIN | _RLIN if hasattr(np.fft, n)}
    over["fft"] = Proxy(np.fft, ff)
    pm = {}
    for mod, nm in ((np.polynomial.chebyshev, "Chebyshev"), (np.polynomial.polynomial, "Polynomial"), (np.polynomial.legendre, "Legendre")):
        pm[nm] = _poly_fit(getattr(np.polynomial, nm))
        fn = nm[:3].lower() if nm == "Legendre" else nm[:4].lower()
        pm[nm.lower()] = Proxy(mod, {nm: pm[nm], fn + "fit": _plain_fit(getattr(mod, fn + "fit"))})
    over["polynomial"] = Proxy(np.polynomial, pm)
    over["polyfit"] = _plain_fit(np.polyfit)
    sm = {"sqrt": _scimath_sqrt}
    over["emath"] = Proxy(np.emath, sm)
    over["lib"] = Proxy(np.lib, {"scimath": Proxy(np.lib.scimath, sm)})
    return Proxy(np, over)


def _scimath_sqrt(x):
    """square root that turns complex on negative input"""
    if not _has_sym(x):
        return np.emath.sqrt(native(x) if isinstance(x, SymArray) else x)
    x = asarray(x)
    p = _obj(x)
    out = np.empty(p.shape, dtype=object)
    neg = False
    for i in np.ndindex(*p.shape):
        v = S.lift(p[i])
        if x._pd == "c":
            out[i] = np.sqrt(v)
            neg = True
        elif bool(v < 0):
            out[i] = np.sqrt(-v) * 1j
            neg = True
        else:
            out[i] = np.sqrt(v)
    return out[()] if out.ndim == 0 else SymArray(out, "c" if neg else "f")


def _fft_any(f):
    h = _fft_handler(f)

    def g(x, *a, **k):
        if _has_sym(x):
            return h(asarray(x), *a, **k)
        return f(x, *a, **k)

    return g


def _sp_linalg(f, nm):
    h = _const_only(f, nm)

    def g(*a, **k):
        if any(_has_sym(x) for x in a):
            return h(*a, **k)
        return f(*a, **k)

    return g


def make_scipy():
    import scipy
    import scipy.fft
    import scipy.interpolate
    import scipy.linalg
    import scipy.signal
    import scipy.special

    fft = Proxy(scipy.fft, {n: _fft_any(getattr(scipy.fft, n)) for n in _CLIN | _RLIN if hasattr(scipy.fft, n)})
    for n in ("fftshift", "ifftshift"):
        fft.__dict__["_over"][n] = getattr(np.fft, n)
    lin_over = {}
    for n in ("eigh", "eig", "svd", "inv", "solve", "eigvalsh", "eigvals", "norm", "expm"):
        lin_over[n] = _sp_linalg(getattr(scipy.linalg, n), n)
    lin_over["solve"] = lambda a, b, *r, **k: _h_solve(scipy.linalg.solve)(a, b, *r, **k) if _has_sym(a) or _has_sym(b) else scipy.linalg.solve(a, b, *r, **k)
    lin_over["norm"] = lambda x, *a, **k: np.linalg.norm(x, *a, **k)
    lin = Proxy(scipy.linalg, lin_over)
    sp_over = {}

    def fact(x, exact=False):
        return scipy.special.factorial(native(x) if isinstance(x, SymArray) else x, exact)

    sp_over["factorial"] = fact

    def eval_hermite(n, x, *a, **k):
        if not _has_sym(x) or _has_sym(n) or np.ndim(n):
            return scipy.special.eval_hermite(n, x, *a, **k)
        h0, h1 = x * 0.0 + 1.0, x * 2.0
        for i in range(int(n)):
            h0, h1 = h1, x * 2.0 * h1 - h0 * (2.0 * (i + 1))
        return h0

    sp_over["eval_hermite"] = eval_hermite
    special = Proxy(scipy.special, sp_over)

    # interpolating splines on concrete knots are linear in the data
    def splrep(x, y, *a, s=None, **k):
        y = asarray(y)
        if not isinstance(y, SymArray):
            return scipy.interpolate.splrep(x, y, *a, s=s, **k)
        if s not in (None, 0) or a or k:
            raise Unsupported("smoothing spline of symbolic data")
        x = native(x) if isinstance(x, SymArray) else np.asarray(x)
        t, _, order = scipy.interpolate.splrep(x, np.zeros(len(x)), s=0)
        return t, linear_map(lambda v: scipy.interpolate.splrep(x, v.real, s=0)[1] + (1j * scipy.interpolate.splrep(x, v.imag, s=0)[1] if np.any(v.imag) else 0), y), order

    def splev(x, tck, *a, **k):
        t, c, order = tck
        if not isinstance(c, SymArray):
            return scipy.interpolate.splev(x, tck, *a, **k)
        return linear_map(lambda v: np.asarray(scipy.interpolate.splev(x, (t, v.real, order), *a, **k)), c)

    interp = Proxy(scipy.interpolate, {"splrep": splrep, "splev": splev})

    def correlate(a, v, mode="full", method="auto"):
        if not (_has_sym(a) or _has_sym(v)):
            return scipy.signal.correlate(a, v, mode=mode, method=method)
        a, v = asarray(a), asarray(v)
        if a.ndim != 1 or v.ndim != 1:
            raise Unsupported("correlate")
        if a.shape[0] < v.shape[0] and mode == "valid":
            raise Unsupported("correlate valid")
        n, m = len(a), len(v)
        vc = v.conj() if isinstance(v, SymArray) else np.conj(v)
        out = []
        for k in range(n + m - 1):  # z[k] = sum_l a[l] conj(v[l - k + m - 1])
            t = 0
            for i in range(max(0, k - m + 1), min(n, k + 1)):
                t = t + a[i] * vc[i - k + m - 1]
            out.append(t)
        r = array(out)
        if mode == "full":
            return r
        w = n if mode == "same" else n - m + 1
        i0 = (n + m - 1 - w) // 2
        return r[i0: i0 + w]

    def convolve(a, v, mode="full", method="auto"):
        v = asarray(v)
        return correlate(a, (v.conj() if isinstance(v, SymArray) else np.conj(v))[::-1], mode, method)

    sig = Proxy(scipy.signal, {"correlate": correlate, "convolve": convolve})
    return (Proxy(scipy, {"fft": fft, "linalg": lin, "special": special, "interpolate": interp, "signal": sig}),
            {scipy.fft: fft, scipy.linalg: lin, scipy.special: special, scipy.interpolate: interp, scipy.signal: sig})


def make_math():
    def wrap(n):
        f = getattr(math, n)
        g = getattr(np, {"fabs": "abs", "pow": "power", "asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2"}.get(n, n))

        def h(*a):
            if any(isinstance(x, (S, SymArray)) for x in a):
                r = g(*a)
                return r[()] if isinstance(r, SymArray) else r
            return f(*a)

        return h

    return Proxy(math, {n: wrap(n) for n in ("sqrt", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "fabs", "pow", "hypot", "atan2")})


_INSTALLED: list = []
_PROXIES = None


def proxies():
    global _PROXIES
    if _PROXIES is None:
        import scipy

        pnp = make_np()
        psp, subs = make_scipy()
        mods = {id(np): pnp, id(math): make_math(), id(scipy): psp, id(np.fft): pnp.fft, id(np.linalg): pnp.linalg}
        for k, v in subs.items():
            mods[id(k)] = v
        funcs = {}
        for p in (pnp, pnp.fft, pnp.linalg, psp.fft, psp.linalg, psp.special, psp.interpolate, psp.signal):
            real = p.__dict__["_real_mod"]
            for n, f in p.__dict__["_over"].items():
                r = getattr(real, n, None)
                if callable(r):
                    funcs[id(r)] = f
        _PROXIES = (mods, funcs)
    return _PROXIES


class _FloatMeta(type):
    """float as called by the code under test: text written from symbols reads back as the symbols"""

    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, str):
            return text_number(x)
        if isinstance(x, SymArray) and x.size == 1:
            x = S.lift(x.item())
        if isinstance(x, S):
            if not x.is_real():
                raise TypeError("float() of a complex number")
            return x
        return float(x)


class SymFloat(metaclass=_FloatMeta):
    pass


class _ComplexMeta(_FloatMeta):
    def __instancecheck__(cls, x):
        return isinstance(x, complex)

    def __call__(cls, x=0, *a):
        if any(_has_sym(y) for y in (x, *a)):
            return S.lift(x.item() if isinstance(x, SymArray) else x) + (1j * S.lift(a[0]) if a else 0)
        return complex(x, *a)


class SymComplex(metaclass=_ComplexMeta):
    pass


def text_number(t):
    t = t.strip()
    if State.text is not None and "s#" in t:
        sign = -1.0 if t[0] == "-" else 1.0
        b = t.lstrip("+-")
        if not (b.startswith("s#") and b.endswith("#") and b[2:-1].isdigit()):
            raise ValueError(f"could not convert string to float: {t!r}")
        return State.text[int(b[2:-1])] * sign
    return float(t)


_CALLS_FLOAT: dict = {}


def _calls_float(m, name="float"):
    """the module calls float() (or complex()) and does not use it as a dtype"""
    f = (getattr(m, "__file__", None), name)
    if f not in _CALLS_FLOAT:
        import ast

        ok = False
        try:
            tree = ast.parse(open(f[0]).read())
            calls = {id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
            notes = set()
            for n in ast.walk(tree):
                for a in ("annotation", "returns"):
                    x = getattr(n, a, None)
                    if x is not None:
                        notes |= {id(y) for y in ast.walk(x)}
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "cast", "TypeVar"):
                    notes |= {id(y) for y in ast.walk(n)} - {id(n.func)}
                if isinstance(n, ast.Subscript):
                    notes |= {id(y) for y in ast.walk(n.slice)}
            names = [n for n in ast.walk(tree) if isinstance(n, ast.Name) and n.id == name]
            used = [n for n in names if id(n) in calls]
            other = [n for n in names if id(n) not in calls and id(n) not in notes]
            ok = bool(used) and not other
        except (OSError, SyntaxError, TypeError):
            pass
        _CALLS_FLOAT[f] = ok
    return _CALLS_FLOAT[f]


_MISSING = object()


def install(prefix="surface_potential_analysis"):
    mods, funcs = proxies()
    for name, m in list(sys.modules.items()):
        if m is None or not (name == prefix or name.startswith(prefix + ".")):
            continue
        if _calls_float(m) and "float" not in vars(m):
            _INSTALLED.append((m, "float", _MISSING))
            m.float = SymFloat
        if _calls_float(m, "complex") and "complex" not in vars(m):
            _INSTALLED.append((m, "complex", _MISSING))
            m.complex = SymComplex
        for g, v in list(vars(m).items()):
            if g.startswith("__"):
                continue
            r = mods.get(id(v)) if isinstance(v, types.ModuleType) else (funcs.get(id(v)) if callable(v) else None)
            if r is not None:
                _INSTALLED.append((m, g, v))
                setattr(m, g, r)


def uninstall():
    while _INSTALLED:
        m, g, v = _INSTALLED.pop()
        if v is _MISSING:
            delattr(m, g)
        else:
            setattr(m, g, v)


# numpy protocol on scalars
def _s_ufunc(self, ufunc, method, *inputs, out=None, **kw):
    return array_ufunc(ufunc, method, inputs, out, kw)


def _s_function(self, func, _types, args, kwargs):
    return array_function(func, args, kwargs)


S.__array_ufunc__ = _s_ufunc
S.__array_function__ = _s_function


def _s_shape(self):
    return ()


S.shape = property(_s_shape)
S.ndim = property(lambda self: 0)
S.size = property(lambda self: 1)
S.astype = lambda self, dt, **k: self.real_part() if np.dtype(dt).kind == "f" else self
S.dtype = property(lambda self: np.dtype(np.float64) if self.is_real() else np.dtype(np.complex128))
_ = math
