"""Setup: check that the engine's dependencies are present and that z3 answers."""
from symx import run  # noqa: F401  (sets up sys.path)


def main():
    import numpy as np
    import z3

    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    print("z3", z3.get_version_string(), "numpy", np.__version__)


if __name__ == "__main__":
    main()
