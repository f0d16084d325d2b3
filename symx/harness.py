"""Harness registry."""
from __future__ import annotations

import sys

HARNESSES: dict[str, list] = {}


class Harness:
    def __init__(self, prop, name, fn, cases, thorough, targets):
        self.prop, self.name, self.fn = prop, name, fn
        self.cases, self.thorough, self.targets = cases, thorough, targets

    def all_cases(self, tier):
        c = self.cases() if callable(self.cases) else self.cases
        c = list(c)
        slow = self.name in getattr(sys.modules.get(self.fn.__module__), "SLOW", ())
        if (tier == "thorough" or not slow) and self.thorough is not None:
            t = self.thorough() if callable(self.thorough) else self.thorough
            c = c + [x for x in t if x not in c]
        return c


def harness(prop, cases=None, thorough=None, targets=()):
    """Register a harness body fn(env, **case).

    prop      property id
    cases     structural configurations of the quick tier (a list of dicts or a function)
    thorough  additional configurations of the thorough tier
    targets   the repo functions this harness executes symbolically (for the evidence)
    """

    def deco(fn):
        h = Harness(prop, fn.__name__, fn, cases if cases is not None else [{}], thorough, tuple(targets))
        HARNESSES.setdefault(prop, []).append(h)
        return fn

    return deco
