"""C21: cached functions."""
from __future__ import annotations

import contextlib
import tempfile
from pathlib import Path


from symx.harness import harness

from .h import *  # noqa: F403

SLOW = ['history']  # larger configurations in the thorough tier only
BOUNDS = "histories of up to 3 (thorough 4) calls with arbitrary integer arguments (all equality patterns), each call of any kind; every evaluation returns fresh symbolic values (also empty results and scalars); cache present, absent, disabled per argument; one failing evaluation"
STUBS = ["files: a symbolic file system (path equality decided by the solver); pickle and np.save/np.load by contract: what is read back is a copy of what was written last under an equal path (np.save appends .npy); the replay uses real files, pickle and numpy"]
T = ("util.decorators.*",)
KINDS = ["load_or_call_cached", "load_or_call_uncached", "call_uncached", "call_cached"]


class SymFS:
    """files under symbolic names"""

    def __init__(self):
        self.files = []  # [key, suffix, content]

    def find(self, p):
        for f in self.files:
            if f[1] == p.suffix and bool(f[0] == p.key):
                return f
        return None

    def path(self, key, suffix):
        return SymPath(self, key, suffix)


class SymPath:
    def __init__(self, fs, key, suffix):
        self.fs, self.key, self.suffix = fs, key, suffix

    def exists(self):
        return self.fs.find(self) is not None

    is_file = exists

    @property
    def parent(self):
        return self

    def mkdir(self, *a, **k):
        pass

    def unlink(self, missing_ok=False):
        f = self.fs.find(self)
        if f is None:
            if missing_ok:
                return
            raise FileNotFoundError
        self.fs.files.remove(f)

    def with_suffix(self, s):
        return SymPath(self.fs, self.key, s)

    def open(self, mode="r", *a, **k):
        return SymFile(self, mode)

    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()

    def write_bytes(self, b):
        with self.open("wb") as f:
            f.write(b)


class SymFile:
    def __init__(self, p, mode):
        self.f = p.fs.find(p)
        if "r" in mode and self.f is None:
            raise FileNotFoundError
        if "x" in mode and self.f is not None:
            raise FileExistsError
        if self.f is None:
            self.f = [p.key, p.suffix, None]
            p.fs.files.append(self.f)
        elif "w" in mode:
            self.f[2] = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, b):
        self.f[2] = b

    def read(self):
        return self.f[2]


class StubPickle:
    HIGHEST_PROTOCOL = 5
    DEFAULT_PROTOCOL = 4

    @staticmethod
    def dumps(o, *a, **k):
        return ("pickle", dup(o))

    @staticmethod
    def loads(b, *a, **k):
        if not isinstance(b, tuple) or b[0] != "pickle":
            raise EOFError
        return dup(b[1])

    @classmethod
    def dump(cls, o, f, *a, **k):
        f.write(cls.dumps(o))

    @classmethod
    def load(cls, f, *a, **k):
        return cls.loads(f.read())


def dup(o):
    if isinstance(o, dict):
        return {k: dup(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(dup(v) for v in o)
    return o.copy() if hasattr(o, "shape") and o.shape else o


class Box:
    """an array of shape () holding an object"""

    shape, ndim, size = (), 0, 1

    def __init__(self, o):
        self.o = o

    def item(self):
        return self.o

    tolist = item

    def __getitem__(self, i):
        return self.o if i == () else self.o[i]

    def copy(self):
        return Box(dup(self.o))


class StubNp:
    def __init__(self, real):
        self._r = real

    def __getattr__(self, n):
        return getattr(self._r, n)

    def asanyarray(self, a, *r, **k):
        return Box(a) if isinstance(a, dict) else self._r.asanyarray(a, *r, **k)

    asarray = array = asanyarray

    def save(self, p, a, allow_pickle=True, *_, **k):
        from symx import arr

        if isinstance(a, (dict, Box)):
            if not allow_pickle:
                raise ValueError("Object arrays cannot be saved when allow_pickle=False")
            with p.open("wb") as f:
                f.write(("npyobj", dup(a.item() if isinstance(a, Box) else a)))
            return
        p = p if p.suffix == ".npy" else SymPath(p.fs, p.key, p.suffix + ".npy")
        with p.open("wb") as f:
            f.write(("npy", arr.asarray(a).copy()))

    def load(self, p, mmap_mode=None, allow_pickle=False, *_, **k):
        with p.open("rb") as f:
            b = f.read()
        if isinstance(b, tuple) and b[0] == "npyobj":
            if not allow_pickle:
                raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
            return Box(dup(b[1]))
        if not isinstance(b, tuple) or b[0] != "npy":
            raise EOFError
        return b[1].copy()


@contextlib.contextmanager
def world(env, suffix):
    """path factory; in symbolic runs the module's file access goes to the symbolic file system"""
    from surface_potential_analysis.util import decorators as d

    if env.sym:
        fs = SymFS()
        old = {n: d.__dict__[n] for n in ("pickle", "np") if n in d.__dict__}
        d.pickle, d.np = StubPickle, StubNp(d.np)
        d.open = lambda p, mode="r", *a, **k: p.open(mode)
        try:
            yield lambda key: fs.path(key, suffix)
        finally:
            d.__dict__.update(old)
            del d.open
    else:
        with tempfile.TemporaryDirectory() as t:
            yield lambda key: Path(t) / f"{key}{suffix}"


class Fn:
    """every evaluation returns fresh symbolic values"""

    def __init__(self, env, shape="dict", fail=None):
        self.env, self.shape, self.fail, self.n, self.calls = env, shape, fail, 0, []

    def value(self, i):
        x = self.env.real(f"x{i}")
        return {"dict": lambda: {"v": x, "i": i}, "empty": lambda: {}, "array": lambda: self.env.cvec(f"y{i}", 2), "array2": lambda: self.env.cvec(f"y{i}", 1, 2), "scalar": lambda: x}[self.shape]()

    def __call__(self, a, b=0):
        i = self.n
        self.n += 1
        self.calls.append((a, b))
        if self.fail == i:
            raise ValueError
        return self.value(i)


def same(env, r, e, label):
    if isinstance(e, dict):
        env.true(isinstance(r, dict) and set(r) == set(e), label)
        for k in e:
            env.eq(r[k], e[k], label)
    else:
        env.eq(r, e, label)


class Model:
    """what a cache keyed by path must do"""

    def __init__(self, env, fn):
        self.env, self.fn, self.store = env, fn, []

    def find(self, key):
        for e in self.store:
            if bool(e[0] == key):
                return e
        return None

    def step(self, kind, key, enabled, call, label):
        env, fn = self.env, self.fn
        hit = self.find(key) if enabled and kind.startswith("load") else None
        before = fn.n
        failed = False
        try:
            r = call()
        except ValueError:
            failed = True
        if hit is not None:
            env.true(fn.n == before and not failed, label + ": hit evaluates nothing")
            same(env, r, hit[1], label + ": value read back is the value written")
        else:
            env.true(fn.n == before + 1, label + ": evaluated exactly once")
            if fn.fail == before:
                env.true(failed, label + ": the error of the function is passed on")
                return
            env.true(not failed, label)
            v = fn.value(before)
            same(env, r, v, label + ": value of this evaluation")
            if enabled and kind.endswith("_cached"):
                e = self.find(key)
                if e is not None:
                    self.store.remove(e)
                self.store.append((key, v))
        # a caller changing what it was given does not change the cache
        if isinstance(r, dict):
            r["spoiled"] = 1


def argkey(env, i):
    a = env.int(f"a{i}", 0, 1000)
    return a


@harness("C21", [{"k": 2, "shape": "dict"}, {"k": 3, "shape": "dict"}, {"k": 2, "shape": "empty"}], [{"k": 4, "shape": "dict"}, {"k": 3, "shape": "empty"}], T)
def history(env, k, shape):
    """every history of calls of every kind agrees with a cache keyed by the path"""
    from surface_potential_analysis.util.decorators import CachedFunction

    with world(env, ".pkl") as path:
        fn = Fn(env, shape)
        off = env.int("off", 0, 1000)  # arguments below this one are not cached
        c = CachedFunction(fn, lambda a: None if bool(a < off) else path(a))
        m = Model(env, fn)
        for i in range(k):
            kind = env.pick(f"kind{i}", KINDS)
            a = argkey(env, i)
            m.step(kind, a, not bool(a < off), lambda: getattr(c, kind)(a), f"call {i}")


@harness("C21", [{"k": 2}, {"k": 3}], [], T)
def failing(env, k):
    """an evaluation that fails leaves the cache as it was"""
    from surface_potential_analysis.util.decorators import CachedFunction

    with world(env, ".pkl") as path:
        fn = Fn(env, "dict", fail=env.pick("fail", list(range(k))))
        c = CachedFunction(fn, path)
        m = Model(env, fn)
        for i in range(k):
            kind = env.pick(f"kind{i}", ["load_or_call_cached", "call_cached"])
            a = argkey(env, i)
            m.step(kind, a, True, lambda: getattr(c, kind)(a), f"call {i}")


@harness("C21", [{"default": d} for d in (None, *KINDS)], [], T)
def decorator(env, default):
    """calling the decorated function does what its default call says; path fixed, computed or None"""
    from surface_potential_analysis.util.decorators import cached

    how = env.pick("path", ["fixed", "computed", "none"])
    with world(env, ".pkl") as path:
        fn = Fn(env)

        def f(a, b=0):
            """doc"""
            return fn(a, b)

        fixed = path(7)
        p = {"fixed": fixed, "none": None, "computed": lambda a, b=0: path(a * 2000 + b)}[how]
        c = cached(p)(f) if default is None else cached(p, default_call=default)(f)
        env.true(c.__name__ == "f" and c.__doc__ == "doc", "wrapper metadata")
        m = Model(env, fn)
        for i in range(2):
            a, b = argkey(env, i), argkey(env, 10 + i)
            key = 7 if how == "fixed" else a * 2000 + b
            style = env.pick(f"style{i}", [0, 1])
            m.step(default or "load_or_call_cached", key, how != "none", (lambda: c(a, b)) if style == 0 else (lambda: c(a, b=b)), f"call {i}")
            if fn.calls and fn.n > 0 and i == 0:
                env.eq(fn.calls[-1][0], a, "argument passed on")
                env.eq(fn.calls[-1][1], b, "keyword passed on")
        if default is not None:
            c.default_call = env.pick("switch", KINDS)
            a, b = argkey(env, 5), argkey(env, 15)
            key = 7 if how == "fixed" else a * 2000 + b
            m.step(c.default_call, key, how != "none", lambda: c(a, b), "call after switching the default")


@harness("C21", [{"shape": s} for s in ("array", "array2", "scalar")], [], T)
def npy(env, shape):
    """npy_cached: loads what was saved, evaluates once per path"""
    from surface_potential_analysis.util.decorators import npy_cached

    how = env.pick("path", ["fixed", "computed", "none", "some"])
    with world(env, ".npy") as path:
        fn = Fn(env, shape)

        def f(a, b=0):
            """doc"""
            return fn(a, b)

        off = env.int("off", 0, 1000)
        p = {"fixed": path(7), "none": None, "computed": lambda a, b=0: path(a * 2000 + b), "some": lambda a, b=0: None if bool(a < off) else path(a * 2000 + b)}[how]
        c = npy_cached(p)(f)
        env.true(c.__name__ == "f" and c.__doc__ == "doc", "wrapper metadata")
        m = Model(env, fn)
        for i in range(3):
            a, b = argkey(env, i), argkey(env, 10 + i) if i < 2 else 3
            key = 7 if how == "fixed" else a * 2000 + b
            m.step("load_or_call_cached", key, how in ("fixed", "computed") or (how == "some" and not bool(a < off)), lambda: c(a, b=b), f"call {i}")


@harness("C21", [{}], [], T)
def npy_objects(env):
    """npy_cached of functions returning objects: read back as they were where pickles may be loaded, refused where not"""
    from surface_potential_analysis.util.decorators import npy_cached

    load = env.pick("load_pickle", [None, False, True])
    save = env.pick("save_pickle", [None, True, False])
    with world(env, ".npy") as path:
        fn = Fn(env, "dict")
        kw = ({} if load is None else {"load_pickle": load}) | ({} if save is None else {"save_pickle": save})

        @npy_cached(path, **kw)
        def c(a):
            return fn(a)

        a = argkey(env, 0)
        if save is False:
            env.raises(ValueError, lambda: c(a), "objects are not pickled where this is not allowed")
            return
        r = c(a)
        same(env, r, fn.value(0), "value of the evaluation")
        if load:
            s = c(a)
            env.true(fn.n == 1, "evaluated once")
            same(env, s, fn.value(0), "object read back")
        else:
            env.raises(ValueError, lambda: c(a), "pickles are not loaded unless this is allowed")


@harness("C21", [{}], [], T)
def npy_types(env):
    """npy_cached: the kind of the numbers is kept"""
    from surface_potential_analysis.util.decorators import npy_cached

    with world(env, ".npy") as path:
        x, i, z = env.rvec("x", 2), np.array([1, 2]), env.cvec("z", 2)

        @npy_cached(path)
        def c(k):
            return (x, i, z)[k]

        for _ in range(2):
            for k in range(3):
                r = c(k)
                env.true(r.dtype.kind == "fic"[k], "kind of numbers")
                env.eq(r, (x, i, z)[k], "value")


@harness("C21", [{}], [], T)
def forced(env):
    """a forced evaluation replaces the cached value whatever the default call is"""
    from surface_potential_analysis.util.decorators import CachedFunction

    default = env.pick("default", KINDS)
    with world(env, ".pkl") as path:
        fn = Fn(env)
        c = CachedFunction(fn, path, default_call=default)
        m = Model(env, fn)
        for i, kind in enumerate(env.pick("calls", [("call_cached", "load_or_call_uncached"), ("load_or_call_cached", "call_cached", "load_or_call_cached"), ("call_uncached", "load_or_call_uncached", "load_or_call_cached")])):
            a = argkey(env, i)
            m.step(kind, a, True, lambda: getattr(c, kind)(a), f"call {i}")


@harness("C21", [{}], [], T)
def shared(env):
    """two wrappers of different functions on different paths never see each other's values"""
    from surface_potential_analysis.util.decorators import CachedFunction, npy_cached

    with world(env, ".pkl") as path:
        f, g = Fn(env), Fn(env)
        g.value = lambda i: {"v": env.real(f"g{i}")}
        cf, cg = CachedFunction(f, lambda a: path(2 * a)), CachedFunction(g, lambda a: path(2 * a + 1))
        mf, mg = Model(env, f), Model(env, g)
        for i in range(3):
            a = argkey(env, i)
            if env.pick(f"which{i}", [0, 1]):
                mf.step("load_or_call_cached", a, True, lambda: cf(a), f"f call {i}")
            else:
                mg.step("load_or_call_cached", a, True, lambda: cg(a), f"g call {i}")


@harness("C21", [{}], [], T)
def timed(env):
    """timed returns the value and passes on errors"""
    from surface_potential_analysis.util.decorators import timed as t

    fn = Fn(env, fail=env.pick("fail", [None, 0]))

    @t
    def f(a, b=0):
        return fn(a, b)

    a, b = argkey(env, 0), argkey(env, 1)
    if fn.fail is None:
        same(env, f(a, b=b), fn.value(0), "value")
    else:
        env.raises(ValueError, lambda: f(a, b=b), "error passed on")
    env.true(fn.n == 1, "evaluated once")
    env.eq(fn.calls[0][0], a, "argument")
    env.eq(fn.calls[0][1], b, "keyword")
    env.true(f.__name__ == "f", "metadata")
