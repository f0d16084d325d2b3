"""Planted bugs, seventh batch."""
import importlib.util
from pathlib import Path

_s = importlib.util.spec_from_file_location("seeds_src1", Path(__file__).parent / "seeds_src1.py")
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE = _m.PRE

SEEDS = []


def s(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": PRE + demo})


s("c01-explicit-axis", "C01", "an array of three dimensions converted along its first axis",
  "the axis of an explicit basis is exchanged with the last one instead of being moved back",
  [("basis/explicit_basis.py", ("        return np.moveaxis(transformed, -1, axis)", "        return np.swapaxes(transformed, -1, axis)"))], """
from surface_potential_analysis.basis.explicit_basis import ExplicitBasis
from surface_potential_analysis.basis.basis_like import convert_vector
p = FundamentalBasis(3)
u = cx(2, 3)
E = ExplicitBasis({"basis": TupleBasis(FundamentalBasis(2), p), "data": u.reshape(-1)})
v = cx(2, 4, 5)
assert np.allclose(convert_vector(v, E, p, axis=0).reshape(3, 4, 5) if convert_vector(v, E, p, axis=0).shape == (3, 4, 5) else np.nan, np.einsum('ij,iab->jab', u, v))
""")
s("c21-object-cache", "C21", "a cached function that returns a dictionary, loading of pickles allowed, and a second call",
  "the array is returned as it was loaded",
  [("util/decorators.py", ("np.load(cache_path, allow_pickle=load_pickle)[()]", "np.load(cache_path, allow_pickle=load_pickle)"))], """
import tempfile, pathlib
from surface_potential_analysis.util.decorators import npy_cached
with tempfile.TemporaryDirectory() as d:
    f = npy_cached(pathlib.Path(d) / "a.npy", load_pickle=True)(lambda: {"x": 1})
    f()
    assert f()["x"] == 1
""")
s("c21-forced-default", "C21", "a forced evaluation of a function whose calls are not cached by default",
  "a forced evaluation is not stored when the default call is not cached",
  [("util/decorators.py", ("        obj = self.call_uncached(*args, **kw)\n        cache_path = self._get_cache_path(*args, **kw)\n        if cache_path is not None:", "        obj = self.call_uncached(*args, **kw)\n        cache_path = self._get_cache_path(*args, **kw)\n        if cache_path is not None and self.default_call != \"call_uncached\":"))], """
import tempfile, pathlib
from surface_potential_analysis.util.decorators import CachedFunction
n = []
def f():
    n.append(1)
    return {"x": len(n)}
with tempfile.TemporaryDirectory() as d:
    c = CachedFunction(f, pathlib.Path(d) / "a.pkl", default_call="call_uncached")
    c.call_cached()
    assert c.load_or_call_uncached()["x"] == 1
""")
s("c22-file-shared", "C22", "pairs of states whose offsets differ only in sign",
  "offsets of either sign share a cache file",
  [("overlap/overlap.py", ("    dx0i, dx1i = dx0i % 3, dx1i % 3", "    dx0i, dx1i = abs(dx0i), abs(dx1i)"))], """
from surface_potential_analysis.overlap.overlap import get_overlap_cache_filename as f
assert f(0, 1, (1, 0)) != f(0, 1, (-1, 0))
""")
s("c02-slice-step", "C02", "a slice of the axes with a step",
  "the step of a slice is dropped",
  [("basis/stacked_basis.py", ("            return TupleBasis(*self._axes[index])", "            start, stop, _ = index.indices(len(self._axes))\n            return TupleBasis(*self._axes[start:stop])"))], """
b = TupleBasis(FundamentalBasis(2), FundamentalBasis(3), FundamentalBasis(4))
assert b[::2].shape == (2, 4)
""")
