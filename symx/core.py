"""Symbolic scalars: exponential polynomials with float coefficients, and the path explorer.

A value is  sum_j c_j * m_j * exp(L_j)   with c_j a python number, m_j a monomial in
real symbolic variables (negative powers allowed for variables known to be nonzero) and
L_j a linear/polynomial exponent.  Conditions on such values go to z3.
"""
from __future__ import annotations

import cmath
import math

import numpy as np
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The engine can not represent this operation (never a property violation)."""


class PathAbort(BaseException):
    """The current path is infeasible / cut."""


class Var:
    __slots__ = ("vid", "name", "kind", "lo", "hi", "sq", "defn", "nonzero", "z", "is_input")

    def __init__(self, vid, name, kind, lo, hi, sq=None, defn=None, nonzero=False, is_input=False):
        self.vid, self.name, self.kind = vid, name, kind
        self.lo, self.hi, self.sq, self.defn = lo, hi, sq, defn
        self.nonzero, self.is_input = nonzero, is_input
        self.z = z3.Int(name) if kind == "int" else z3.Real(name)


class Registry:
    """All variables of one path exploration."""

    def __init__(self):
        self.vars: list[Var] = []
        self.by_name: dict[str, Var] = {}
        self.atoms: dict = {}
        self.mulcache: dict = {}
        self.expz: dict = {}

    def new(self, name, kind="real", lo=-1.0, hi=1.0, **kw):
        v = Var(len(self.vars), name, kind, lo, hi, **kw)
        self.vars.append(v)
        if name in self.by_name:
            raise RuntimeError("duplicate variable " + name)
        self.by_name[name] = v
        return v


class State:
    """Mutable global of the engine."""

    reg: Registry = Registry()
    ctx: "Explorer | None" = None
    symbolic = False
    text: "list | None" = None  # symbols written as text (tokens), when a harness asks for it


ONE = ((), ())
_SIG = 11


def _round_sig(x: float) -> float:
    if x == 0 or not math.isfinite(x):
        return x
    return float(f"%.{_SIG - 1}e" % x)


def _ck(c):
    c = complex(c)
    return (_round_sig(c.real), _round_sig(c.imag))


def is_num(x):
    return isinstance(x, (int, float, complex)) or (
        type(x).__module__ == "numpy" and hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0
    )


def num(x):
    """Python number from anything numeric."""
    if isinstance(x, (bool,)):
        return int(x)
    if isinstance(x, np.generic):
        x = x.item()
        return int(x) if isinstance(x, bool) else x
    if isinstance(x, (int, float, complex)):
        return x
    if hasattr(x, "item"):
        r = x.item()
        if isinstance(r, bool):
            return int(r)
        return r
    raise Unsupported(f"not a number: {type(x)}")


def _simplify_c(c):
    if isinstance(c, complex) and c.imag == 0:
        return c.real
    return c


def _exp_add(e1, e2):
    if not e1:
        return e2
    if not e2:
        return e1
    d = {}
    mx = {}
    for e in (e1, e2):
        for m, re, im in e:
            c = complex(re, im)
            d[m] = d.get(m, 0) + c
            mx[m] = max(mx.get(m, 0.0), abs(c))
    out = []
    for m in sorted(d):
        c = d[m]
        if abs(c) <= 1e-9 * mx[m]:
            continue
        re = 0.0 if abs(c.real) <= 1e-9 * mx[m] else _round_sig(c.real)
        im = 0.0 if abs(c.imag) <= 1e-9 * mx[m] else _round_sig(c.imag)
        out.append((m, re, im))
    return tuple(out)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, p in m2:
        q = d.get(v, 0) + p
        if q == 0:
            d.pop(v, None)
        else:
            d[v] = q
    return tuple(sorted(d.items()))


class S:
    __slots__ = ("t", "root")
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # ---- construction -------------------------------------------------
    @staticmethod
    def const(c):
        c = _simplify_c(num(c))
        return S({ONE: c}) if c != 0 else S({})

    @staticmethod
    def var(v: Var):
        return S({(((v.vid, 1),), ()): 1})

    # ---- structure ----------------------------------------------------
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and ONE in t)

    def cval(self):
        return self.t.get(ONE, 0) if self.t else 0

    def has_exp(self):
        return any(k[1] for k in self.t)

    def is_real(self):
        for k, c in self.t.items():
            if k[1]:
                if any(im for (_m, _re, im) in k[1]):
                    return self._exp_real()
            if isinstance(c, complex) and abs(c.imag) > 1e-12 * max(1e-300, abs(c)):
                return self._exp_real() if self.has_exp() else False
        return True

    def _exp_real(self):
        d = self - self.conjugate()
        s = max((abs(c) for c in self.t.values()), default=0)
        return all(abs(c) <= 1e-12 * s for c in d.t.values())

    def key(self):
        return tuple(sorted((k, _ck(c)) for k, c in self.t.items() if c != 0))

    # ---- arithmetic ---------------------------------------------------
    @staticmethod
    def lift(x):
        if isinstance(x, S):
            return x
        if isinstance(x, SymBool):
            return S.const(int(bool(x)))
        return S.const(x)

    def __add__(self, o):
        if not isinstance(o, S):
            if _is_array(o):
                return NotImplemented
            o = S.lift(o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        out = dict(a)
        for k, c in b.items():
            p = out.get(k)
            if p is None:
                out[k] = c
            else:
                q = p + c
                if q == 0:
                    del out[k]
                else:
                    out[k] = q
        return S(out)

    __radd__ = __add__

    def __neg__(self):
        return S({k: -c for k, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not isinstance(o, S) and _is_array(o):
            return NotImplemented
        return self + (-S.lift(o))

    def __rsub__(self, o):
        if not isinstance(o, S) and _is_array(o):
            return NotImplemented
        return S.lift(o) + (-self)

    def scale(self, c):
        c = num(c)
        if c == 0:
            return S({})
        return S({k: v * c for k, v in self.t.items()})

    def __mul__(self, o):
        if not isinstance(o, S):
            if _is_array(o):
                return NotImplemented
            if isinstance(o, SymBool):
                o = S.lift(o)
            else:
                return self.scale(o)
        if o.is_const():
            return self.scale(o.cval())
        if self.is_const():
            return o.scale(self.cval())
        reg = State.reg
        cache = reg.mulcache
        out: dict = {}
        extra = None
        for k1, c1 in self.t.items():
            for k2, c2 in o.t.items():
                kk = (k1, k2)
                r = cache.get(kk)
                if r is None:
                    r = _combine(k1, k2)
                    cache[kk] = r
                c = c1 * c2
                if type(r) is tuple:
                    q = out.get(r, 0) + c
                    if q == 0:
                        out.pop(r, None)
                    else:
                        out[r] = q
                else:
                    e = r.scale(c)
                    extra = e if extra is None else extra + e
        res = S(out)
        if extra is not None:
            res = res + extra
        if o is self:
            res.root = self  # |z * z| is |z|^2
        return res

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, S):
            if _is_array(o):
                return NotImplemented
            o = num(o)
            if o == 0:
                return S({k: _cdiv0(v) for k, v in self.t.items()})
            return S({k: v / o for k, v in self.t.items()})
        return self * o.inverse()

    def __rtruediv__(self, o):
        if not isinstance(o, S) and _is_array(o):
            return NotImplemented
        return S.lift(o) * self.inverse()

    def inverse(self):
        if self.is_const():
            c = self.cval()
            if c == 0:
                raise ZeroDivisionError
            return S.const(1 / c)
        if len(self.t) == 1:
            ((m, e), c), = self.t.items()
            for v, p in m:
                var = State.reg.vars[v]
                if not var.nonzero:
                    if var.kind == "int" and (var.lo > 0 or var.hi < 0):
                        var.nonzero = True
                        continue
                    if var.lo is not None and var.lo > 0:
                        var.nonzero = True
                        continue
                    break
            else:
                mi = tuple((v, -p) for v, p in m)
                ei = tuple((mm, -re, -im) for mm, re, im in e)
                return S({(mi, ei): 1 / c})
        # general: alias q := p (normalised); complex p -> conj(p)/|p|^2
        if not self.is_real():
            cj = self.conjugate()
            return cj * (self * cj).real_part().inverse()
        lead_key = min(self.t)
        lead = self.t[lead_key]
        lead = (lead.real or abs(lead)) if isinstance(lead, complex) else lead
        p = self.scale(1 / lead)
        v = atom("alias", p, lo=None, hi=None, nonzero=True)
        return S({(((v.vid, -1),), ()): 1 / lead})

    def __pow__(self, n):
        if isinstance(n, S):
            if not n.is_const():
                raise Unsupported("symbolic exponent")
            n = n.cval()
        if isinstance(n, np.ndarray) and n.ndim:
            from . import arr

            if arr._has_sym(n) and not arr._all_native(n):
                raise Unsupported("symbolic exponent")
            q = arr.native(n) if isinstance(n, arr.SymArray) else n
            out = np.empty(q.shape, dtype=object)
            for i in np.ndindex(*q.shape):
                out[i] = self ** q[i]
            return arr.SymArray(out, "f" if self.is_real() else "c")
        n = num(n)
        if isinstance(n, complex):
            n = n.real
        if float(n).is_integer():
            n = int(n)
            if n == 0:
                return S.const(1)
            b = self if n > 0 else self.inverse()
            r = b
            for _ in range(abs(n) - 1):
                r = r * b
            return r
        if float(2 * n).is_integer():
            return self.sqrt() ** int(2 * n)
        return fn_atom("pow%r" % float(n), self, lo=0, hi=None)

    def __rpow__(self, o):
        return (self * math.log(num(o))).exp()

    # ---- integer ops ----------------------------------------------------
    def _divmod(self, o):
        o = S.lift(o)
        if self.is_const() and o.is_const():
            q, r = divmod(self.cval(), o.cval())
            return S.const(q), S.const(r)
        if not (self.is_real() and o.is_real()):
            raise Unsupported("complex divmod")
        if len(self.t) == 1 == len(o.t) and set(self.t) == set(o.t):
            # c1 x divided by c2 x: exact unless the quotient is an integer up to rounding
            (c1,), (c2,) = self.t.values(), o.t.values()
            x = complex(c1 / c2).real
            n = round(x) if abs(x - round(x)) < 1e-9 else math.floor(x)
            return S.const(n), (S({}) if abs(x - n) < 1e-12 else self - o.scale(n))
        reg = State.reg
        key = ("divmod", self.key(), o.key())
        v = reg.atoms.get(key)
        if v is None:
            v = reg.new(f"q!{len(reg.vars)}", "int", None, None, defn=("floordiv", self, o))
            reg.atoms[key] = v
        q = S.var(v)
        return q, self - q * o

    def __floordiv__(self, o):
        if _is_array(o):
            return NotImplemented
        return self._divmod(o)[0]

    def __rfloordiv__(self, o):
        return S.lift(o)._divmod(self)[0]

    def __mod__(self, o):
        if _is_array(o):
            return NotImplemented
        return self._divmod(o)[1]

    def __rmod__(self, o):
        return S.lift(o)._divmod(self)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def floor(self):
        return self._divmod(1)[0]

    def __floor__(self):
        return self.floor()

    def ceil(self):
        return -((-self).floor())

    __ceil__ = ceil

    def rint(self):
        if self.is_const():
            return S.const(round(self.cval().real))
        return (self + 0.5).floor()

    def __round__(self, n=None):
        return self.rint()

    # ---- complex structure ----------------------------------------------
    def conjugate(self):
        out = {}
        for (m, e), c in self.t.items():
            e2 = tuple((mm, re, -im) for mm, re, im in e) if e else e
            out[(m, e2)] = c.conjugate()
        return S(out)

    conj = conjugate

    def real_part(self):
        if not self.has_exp():
            return S({k: r for k, c in self.t.items() if (r := (c.real if isinstance(c, complex) else c)) != 0})
        return (self + self.conjugate()).scale(0.5)

    def imag_part(self):
        if not self.has_exp():
            return S({k: c.imag for k, c in self.t.items() if isinstance(c, complex) and c.imag != 0})
        return (self - self.conjugate()).scale(-0.5j)

    @property
    def real(self):
        return self.real_part()

    @property
    def imag(self):
        return self.imag_part()

    def abs2(self):
        r = self * self.conjugate()
        return r.real_part()

    def __abs__(self):
        if self.is_const():
            return S.const(abs(self.cval()))
        if len(self.t) == 1:
            ((m, e), c), = self.t.items()
            if all(self._nonneg(v) or p % 2 == 0 for v, p in m) and not any(re for _m, re, _im in e):
                return S({(m, ()): abs(c)})
        root = getattr(self, "root", None)
        if root is not None:
            return root.abs2()
        p = self.clean()
        lo, hi = interval(p)
        if lo >= 0:
            return p
        if hi <= 0:
            return -p
        return abs(p) if len(p.t) == 1 < len(self.t) else p.abs2().sqrt()

    @staticmethod
    def _nonneg(v):
        lo = State.reg.vars[v].lo
        return lo is not None and lo >= 0

    def sqrt(self):
        if self.is_const():
            return S.const(cmath.sqrt(self.cval()) if not self.is_real() or self.cval().real < 0 else math.sqrt(self.cval().real))
        if len(self.t) == 1:
            ((m, e), c), = self.t.items()
            if not e and all(p % 2 == 0 and self._nonneg(v) for v, p in m) and complex(c).imag == 0 and complex(c).real > 0:
                return S({(tuple((v, p // 2) for v, p in m), ()): math.sqrt(complex(c).real)})
        if not self.is_real():
            raise Unsupported("sqrt of complex symbolic value")
        lead = self.t[min(self.t)]
        lead = abs(complex(lead))
        p = self.scale(1 / lead).real_part()
        v = atom("sqrt", p, lo=0, hi=None, sq=p)
        return S.var(v).scale(math.sqrt(lead))

    def exp(self):
        if self.is_const():
            return S.const(cmath.exp(self.cval()))
        const = 1
        items = []
        extra = None
        for (m, e), c in self.t.items():
            if e:
                raise Unsupported("exp of exp")
            if m == ():
                const = cmath.exp(c)
                continue
            if len(m) == 1 and m[0][1] == 1:
                v = State.reg.vars[m[0][0]]
                if v.defn is not None and v.defn[0] == "log":
                    k = complex(c)
                    if k.imag == 0 and abs(k.real - round(k.real)) < 1e-9:  # exp(k log p) = p^k
                        f = v.defn[1] ** round(k.real)
                        extra = f if extra is None else extra * f
                        continue
                if v.defn is not None and v.defn[0] == "angle":
                    k = complex(c) / 1j
                    if abs(k.imag) < 1e-12 and abs(k.real - round(k.real)) < 1e-12:
                        z = v.defn[1]
                        u = z * abs(z).inverse()
                        n = round(k.real)
                        f = (u if n > 0 else u.conjugate()) ** abs(n) if n else S.const(1)
                        extra = f if extra is None else extra * f
                        continue
            cc = complex(c)
            if len(m) == 1 and m[0][1] == 1 and cc.real == 0 and State.reg.vars[m[0][0]].kind == "int":
                turns = cc.imag / (2 * math.pi)
                if abs(turns - round(turns)) < 1e-11:  # exp(2 pi i k n) for an integer n
                    continue
            items.append((m, _round_sig(cc.real), _round_sig(cc.imag)))
        r = S({((), tuple(sorted(items))): const})
        return r if extra is None else r * extra

    def sin(self):
        e = (self * 1j).exp()
        return ((e - e.conjugate()) if self.is_real() else (e - (self * -1j).exp())).scale(-0.5j)

    def cos(self):
        e = (self * 1j).exp()
        return ((e + e.conjugate()) if self.is_real() else (e + (self * -1j).exp())).scale(0.5)

    def cosh(self):
        return (self.exp() + (-self).exp()).scale(0.5)

    def sinh(self):
        return (self.exp() - (-self).exp()).scale(0.5)

    def tanh(self):
        return self.sinh() / self.cosh()

    def log(self):
        if self.is_const():
            c = self.cval()
            return S.const(math.log(c.real) if complex(c).imag == 0 and complex(c).real > 0 else cmath.log(c))
        if len(self.t) == 1:
            ((m, e), c), = self.t.items()
            if m == () and e:
                # log(c * exp(L)) for real L
                if all(im == 0 for _m, _re, im in e):
                    return S({(mm, ()): re for mm, re, _im in e}) + math.log(c)
        return fn_atom("log", self)

    def angle(self):
        if self.is_const():
            return S.const(cmath.phase(self.cval()))
        p = self.clean()
        lo, hi = -math.pi, math.pi
        (x0, x1), (y0, y1) = interval(p.real_part()), interval(p.imag_part())
        if not math.isinf(x0 + x1 + y0 + y1) and (x0 > 1e-9 or y0 > 1e-9 or y1 < -1e-9):
            a = [math.atan2(y, x) for x in (x0, x1) for y in (y0, y1)]
            lo, hi = min(a) - 1e-9, max(a) + 1e-9
        return fn_atom("angle", p, lo=lo, hi=hi)

    def clean(self):
        """without the terms that are rounding noise next to the largest one"""
        big = max(abs(complex(c)) for c in self.t.values()) * 1e-13 if self.t else 0.0
        return self if all(abs(complex(c)) > big for c in self.t.values()) else S({k: c for k, c in self.t.items() if abs(complex(c)) > big})

    def sign(self):
        if self < 0:
            return S.const(-1)
        if self > 0:
            return S.const(1)
        return S.const(0)

    # ---- comparison ---------------------------------------------------------
    def _cmp(self, o, op):
        if not isinstance(o, S):
            if _is_array(o):
                return NotImplemented
            o = S.lift(o)
        d = self - o
        scale = max([abs(c) for c in self.t.values()] + [abs(c) for c in o.t.values()] + [0])
        if op in ("==", "!="):
            if all(abs(c) <= 1e-13 * scale for c in d.t.values()):
                return op == "=="
            if d.is_const():
                return op == "!="
            re, im = d.real_part(), d.imag_part()
            e = to_z3(re) == 0
            if im.t and any(abs(c) > 1e-13 * scale for c in im.t.values()):
                e = z3.And(e, to_z3(im) == 0)
            return SymBool(e if op == "==" else z3.Not(e))
        if d.is_const():
            c = d.cval()
            c = c.real if isinstance(c, complex) else c
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        d = d.real_part()
        lo, hi = interval(d)
        if lo > 1e-9 * scale or hi < -1e-9 * scale:
            return (lo > 0) == (op[0] == ">")
        e = to_z3(d)
        return SymBool({"<": e < 0, "<=": e <= 0, ">": e > 0, ">=": e >= 0}[op])

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, "!=")

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        return hash(frozenset((k, complex(f"{complex(c):.9g}")) for k, c in self.t.items()))

    def __bool__(self):
        r = self != 0
        return bool(r)

    # ---- concretisation -------------------------------------------------------
    def concrete(self):
        if self.is_const():
            return self.cval()
        if all(not k[1] and all(State.reg.vars[v].kind == "int" for v, _ in k[0]) for k in self.t):
            return State.ctx.concretise(self)
        raise Unsupported("concrete value of a symbolic real needed")

    def __index__(self):
        c = self.concrete()
        c = c.real if isinstance(c, complex) else c
        if c != int(c):
            raise TypeError("not an integer")
        return int(c)

    def __int__(self):
        c = self.concrete()
        return int(c.real if isinstance(c, complex) else c)

    def __float__(self):
        if not self.is_const():
            raise Unsupported("float() of a symbolic value")
        c = self.cval()
        return float(c.real if isinstance(c, complex) else c)

    def __complex__(self):
        if not self.is_const():
            raise Unsupported("complex() of a symbolic value")
        return complex(self.cval())

    def item(self, *_a):
        return self

    # the parts of the numpy scalar interface that array code uses on reductions
    shape, ndim, size = (), 0, 1

    @property
    def T(self):
        return self

    def astype(self, dtype, copy=True):
        return _as_array(self).astype(dtype)[()]

    def reshape(self, *shape):
        return _as_array(self).reshape(*shape)

    def ravel(self):
        return _as_array(self).reshape(-1)

    flatten = ravel

    def copy(self):
        return self

    def conj(self):
        return self.conjugate()

    def sum(self, *_a, **_k):
        return self

    def __repr__(self):
        if State.text is not None and not self.is_const():
            State.text.append(self)
            return f"s#{len(State.text) - 1}#"
        if State.text is not None:
            c = self.cval()
            return repr(float(c.real) if complex(c).imag == 0 else complex(c))
        return "S(" + " + ".join(f"{c}*{_kstr(k)}" for k, c in list(self.t.items())[:6]) + (" ..." if len(self.t) > 6 else "") + ")"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy protocol: implemented in symx.arr (set there)


def _as_array(x):
    from . import arr

    return arr.wrap(arr._obj(x), "f" if x.is_real() else "c")


def _kstr(k):
    m, e = k
    s = "*".join(State.reg.vars[v].name + (f"^{p}" if p != 1 else "") for v, p in m) or "1"
    if e:
        s += "*exp(" + "+".join(f"({re}+{im}j)*" + _kstr((mm, ())) for mm, re, im in e) + ")"
    return s


def _cdiv0(v):
    v = complex(v)
    return float("nan") if v == 0 else complex(math.inf, 0)


def _is_array(o):
    import numpy as np

    return isinstance(o, np.ndarray) and o.ndim > 0


def _combine(k1, k2):
    m = _mono_mul(k1[0], k2[0])
    e = _exp_add(k1[1], k2[1])
    vs = State.reg.vars
    for v, p in m:
        var = vs[v]
        if var.sq is not None and p >= 2:
            rest = tuple((a, b) for a, b in m if a != v)
            n = p // 2
            if p % 2:
                rest = tuple(sorted((*rest, (v, 1))))
            r = S({(rest, e): 1})
            for _ in range(n):
                r = r * var.sq
            return r
    return (m, e)


def atom(kind, p, *, lo=None, hi=None, sq=None, nonzero=False):
    reg = State.reg
    key = (kind, p.key())
    v = reg.atoms.get(key)
    if v is None:
        v = reg.new(f"{kind}!{len(reg.vars)}", "real", lo, hi, sq=sq, defn=(kind, p), nonzero=nonzero)
        if kind == "sqrt":
            v.nonzero = True  # only used below a division, see DESIGN (denominators nonzero)
        reg.atoms[key] = v
    return v


def fn_atom(name, p, lo=None, hi=None):
    reg = State.reg
    key = ("fn", name, p.key())
    v = reg.atoms.get(key)
    if v is None:
        v = reg.new(f"{name}!{len(reg.vars)}", "real", lo, hi, defn=(name, p))
        reg.atoms[key] = v
    return S.var(v)


def as_S(x):
    return S.lift(x)


# --------------------------------------------------------------------------
# numeric evaluation
# --------------------------------------------------------------------------
def interval(s):
    """bounds of a real value from the ranges of its variables (sound, not tight)"""
    lo = hi = 0.0
    for (m, e), c in s.t.items():
        if e or complex(c).imag:
            return -math.inf, math.inf
        a, b = 1.0, 1.0
        for v, p in m:
            x, y = var_interval(v)
            if p < 0 and x <= 0 <= y:
                return -math.inf, math.inf
            q = [x**p, y**p] if not (math.isinf(x) or math.isinf(y)) else None
            if q is None:
                return -math.inf, math.inf
            if p % 2 == 0 and x < 0 < y:
                q.append(0.0)
            w = [r * t for r in (a, b) for t in (min(q), max(q))]
            a, b = min(w), max(w)
        c = complex(c).real
        lo += min(a * c, b * c)
        hi += max(a * c, b * c)
    return lo, hi


def var_interval(vid):
    v = State.reg.vars[vid]
    if v.lo is not None and v.hi is not None:
        return v.lo, v.hi
    if v.defn is not None and v.defn[0] == "sqrt":
        lo, hi = interval(v.defn[1])
        return math.sqrt(max(lo, 0.0)), math.sqrt(hi) if hi >= 0 else 0.0
    return -math.inf, math.inf


class Evaluator:
    def __init__(self, values: dict):
        self.values = values  # name -> float for inputs
        self.cache: dict = {}

    def var(self, vid):
        if vid in self.cache:
            return self.cache[vid]
        v = State.reg.vars[vid]
        if v.defn is None:
            r = self.values.get(v.name)
            if r is None:
                r = default_value(v)
        else:
            d = v.defn
            if d[0] == "floordiv":
                r = math.floor(self(d[1]).real / self(d[2]).real + 1e-12)
            else:
                x = self(d[1])
                if d[0] == "sqrt":
                    r = math.sqrt(max(x.real, 0.0))
                elif d[0] == "alias":
                    r = x.real
                elif d[0] == "log":
                    r = math.log(x.real) if x.real > 0 else float("nan")
                elif d[0] == "angle":
                    r = cmath.phase(x)
                elif d[0].startswith("pow"):
                    r = x.real ** float(d[0][3:]) if x.real >= 0 else float("nan")
                else:
                    f = FN_EVAL.get(d[0])
                    if f is None:
                        raise Unsupported("evaluate " + d[0])
                    r = f(x)
        self.cache[vid] = r
        return r

    def mono(self, m):
        r = 1.0
        for v, p in m:
            r *= self.var(v) ** p
        return r

    def __call__(self, s):
        if not isinstance(s, S):
            return complex(s)
        tot = 0j
        for (m, e), c in s.t.items():
            x = complex(c) * self.mono(m)
            if e:
                x *= cmath.exp(sum(complex(re, im) * self.mono(mm) for mm, re, im in e))
            tot += x
        return tot


FN_EVAL: dict = {}


def default_value(v: Var):
    if v.kind == "int":
        return v.lo if v.lo is not None else 0
    lo = -1.0 if v.lo is None else v.lo
    hi = 1.0 if v.hi is None else v.hi
    return (lo + hi) / 2


# --------------------------------------------------------------------------
# z3 translation
# --------------------------------------------------------------------------
def zq(c):
    """Exact rational of a float, as a z3 numeral."""
    if isinstance(c, complex):
        c = c.real
    if isinstance(c, int):
        return z3.RealVal(c)
    if not math.isfinite(c):
        raise Unsupported("non-finite coefficient")
    f = Fraction(c)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def _zvar(vid):
    v = State.reg.vars[vid]
    ctx = State.ctx
    if ctx is not None:
        ctx.declare(v)
    return z3.ToReal(v.z) if v.kind == "int" else v.z


def _zpow(vid, p):
    if p > 0:
        z = _zvar(vid)
        r = z
        for _ in range(p - 1):
            r = r * z
        return r
    w = State.ctx.inverse_of(vid)
    r = w
    for _ in range(-p - 1):
        r = r * w
    return r


def zmono(m):
    r = None
    for v, p in m:
        t = _zpow(v, p)
        r = t if r is None else r * t
    return z3.RealVal(1) if r is None else r


def to_z3(s):
    """Real expression of a real-valued S."""
    if not isinstance(s, S):
        return zq(num(s))
    ints = True
    for k, c in s.t.items():
        if k[1] or isinstance(c, complex) and c.imag != 0 or not float(c.real if isinstance(c, complex) else c).is_integer():
            ints = False
            break
        if any(State.reg.vars[v].kind != "int" or p < 0 for v, p in k[0]):
            ints = False
            break
    if ints:
        tot = z3.IntVal(0)
        for (m, _e), c in s.t.items():
            r = z3.IntVal(int(c.real if isinstance(c, complex) else c))
            for v, p in m:
                State.ctx.declare(State.reg.vars[v])
                for _ in range(p):
                    r = r * State.reg.vars[v].z
            tot = tot + r
        return z3.simplify(tot)
    terms = []
    for (m, e), c in s.t.items():
        if e:
            re, im = State.ctx.exp_atom(e)
            cc = complex(c)
            t = zq(cc.real) * re - zq(cc.imag) * im
            terms.append(t * zmono(m) if m else t)
        else:
            cr = c.real if isinstance(c, complex) else c
            terms.append(zq(cr) * zmono(m) if m else zq(cr))
    return z3.Sum(terms) if terms else z3.RealVal(0)


class SymBool:
    """Deferred condition."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        if State.ctx is None:
            raise Unsupported("branch outside exploration")
        return State.ctx.branch(self.e)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.e, o.e))
        return self if bool(o) else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.e, o.e))
        return True if bool(o) else self

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__


# --------------------------------------------------------------------------
# path exploration
# --------------------------------------------------------------------------
class Explorer:
    """Depth-first exploration by re-execution; every branch is decided by z3."""

    def __init__(self, stats, max_paths=4000, timeout_ms=10000):
        self.stats = stats
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.worklist: list[list] = [[]]
        self.truncated = False

    # -- one path ----------------------------------------------------------
    def start(self, prefix):
        self.prefix = prefix
        self.trace: list = []
        State.reg = Registry()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.declared: set = set()
        self.inverses: dict = {}
        self.exps: dict = {}
        self.assumptions = 0

    def declare(self, v: Var):
        if v.vid in self.declared:
            return
        self.declared.add(v.vid)
        if v.lo is not None:
            self.solver.add(v.z >= (v.lo if v.kind == "int" else zq(float(v.lo))))
        if v.hi is not None:
            self.solver.add(v.z <= (v.hi if v.kind == "int" else zq(float(v.hi))))
        if v.defn is not None:
            d = v.defn
            if d[0] == "floordiv":
                a, b = to_z3(d[1]), to_z3(d[2])
                if a.sort() == b.sort() == z3.IntSort():
                    q = v.z
                else:
                    q = z3.ToReal(v.z)
                    a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
                    b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
                r = a - q * b
                self.solver.add(z3.Or(z3.And(b > 0, r >= 0, r < b), z3.And(b < 0, r <= 0, r > b)))
            elif d[0] == "sqrt":
                self.solver.add(v.z * v.z == to_z3(d[1]))
            elif d[0] == "alias":
                self.solver.add(v.z == to_z3(d[1]))

    def inverse_of(self, vid):
        w = self.inverses.get(vid)
        if w is None:
            v = State.reg.vars[vid]
            w = z3.Real(f"inv!{v.name}")
            self.inverses[vid] = w
            self.solver.add(w * _zvar(vid) == 1)
        return w

    def exp_atom(self, e):
        r = self.exps.get(e)
        if r is None:
            i = len(self.exps)
            re, im = z3.Real(f"exp_re!{i}"), z3.Real(f"exp_im!{i}")
            self.exps[e] = (re, im)
            if all(x[1] == 0 for x in e):
                self.solver.add(re * re + im * im == 1)
            elif all(x[2] == 0 for x in e):
                self.solver.add(im == 0, re > 0)
            r = (re, im)
        return r

    def check(self, *extra):
        import time

        self.stats["queries"] += 1
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.perf_counter() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
            self.trace.append(val)
            self.solver.add(e if val else z3.Not(e))
            return val
        self.stats["branches"] += 1
        can_t = self.check(e) != z3.unsat
        can_f = self.check(z3.Not(e)) != z3.unsat
        if can_t and can_f:
            self.worklist.append([*self.trace, False])
            self.trace.append(True)
            self.solver.add(e)
            return True
        if can_t:
            self.trace.append(True)
            self.solver.add(e)
            return True
        if can_f:
            self.trace.append(False)
            self.solver.add(z3.Not(e))
            return False
        raise PathAbort

    def concretise(self, s):
        """A value of an integer expression on this path; the other values are explored on other paths."""
        e = to_z3(s)
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                tag, val, taken = self.prefix[i]
                self.trace.append((tag, val, taken))
                self.solver.add(e == val if taken else e != val)
                if taken:
                    return val
                continue
            if self.check() != z3.sat:
                raise PathAbort
            m = self.solver.model()
            v = m.eval(e, model_completion=True)
            val = v.as_long() if z3.is_int_value(v) else int(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            self.stats["branches"] += 1
            if self.check(e != val) != z3.unsat:
                self.worklist.append([*self.trace, ("c", val, False)])
            self.trace.append(("c", val, True))
            self.solver.add(e == val)
            return val

    def assume(self, cond):
        self.assumptions += 1
        if isinstance(cond, SymBool):
            self.solver.add(cond.e)
        elif not cond:
            raise PathAbort

    def model_values(self, model):
        out = {}
        for v in State.reg.vars:
            if not v.is_input:
                continue
            z = model.eval(v.z, model_completion=False)
            if z3.is_int_value(z):
                out[v.name] = z.as_long()
            elif z3.is_rational_value(z):
                out[v.name] = float(Fraction(z.numerator_as_long(), z.denominator_as_long()))
            elif z3.is_algebraic_value(z):
                a = z.approx(30)
                out[v.name] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        return out
