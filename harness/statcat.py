"""What the library registers, found by walking its classes (runs next to the code under test)."""

import importlib
import inspect
import random

from rectools import SEED

from pysatl_criterion import DistributionType
from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic
from pysatl_criterion.statistics.alternative import AlternativeType

importlib.import_module("pysatl_criterion.statistics.goodness_of_fit")

# constructor parameters of the null distribution, per family
NULL = {"normal": ["mean", "var"], "exponential": ["lam"], "weibull": ["a", "k"], "uniform": ["a", "b"],
        "student": ["df", "loc", "scale"], "gamma": ["alpha", "beta"], "beta": ["alpha", "beta"], "log_normal": ["s", "scale"]}
DEFAULT = {"normal": {"mean": 0, "var": 1}, "exponential": {"lam": 1}, "weibull": {"a": 1, "k": 1}, "uniform": {"a": 0, "b": 1},
           "student": {"df": 1, "loc": 0, "scale": 1}, "gamma": {"alpha": 1.0, "beta": 1.0}, "beta": {"alpha": 1, "beta": 1},
           "log_normal": {"s": 1, "scale": 1}}


def _subs(c):
    out = set()
    for k in c.__subclasses__():
        out |= _subs(k) | {k}
    return out


def classes():
    """(family, class) of every concrete statistic of the library, in a fixed order."""
    cs = [c for c in _subs(AbstractGoodnessOfFitStatistic) if not inspect.isabstract(c) and c.__module__.startswith("pysatl_criterion")]
    return sorted(((c.distribution().value, c) for c in cs), key=lambda t: (t[0], t[1].__name__))


def ctor(c):
    """Constructor parameters of class c with their defaults."""
    return {k: p.default for k, p in inspect.signature(c.__init__).parameters.items()
            if k != "self" and p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)}


def defaults(c):
    return {k: v for k, v in ctor(c).items() if isinstance(v, (int, float)) and not isinstance(v, bool)}


# the null law a statistic tests when it is built without parameters, where that is not the family's standard member
OWN = {"ModeBetaGofStatistic": {"alpha": 2, "beta": 2}, "KolmogorovSmirnovWeibullGofStatistic": {"k": 5}}


def standard(d, c):
    return {**DEFAULT[d], **OWN.get(c.__name__, {})}


def null_row(d, r):
    """A random row of null parameters of family d in the constructors' terms (r: random.Random)."""
    pos = lambda: round(10 ** r.uniform(-0.6, 0.8), 3)  # noqa: E731
    loc = lambda: round(r.uniform(-5, 5), 3)  # noqa: E731
    a = loc()
    return {"normal": lambda: {"mean": a, "var": pos()}, "exponential": lambda: {"lam": pos()}, "weibull": lambda: {"a": pos(), "k": pos()},
            "uniform": lambda: {"a": a, "b": round(a + pos(), 3)}, "student": lambda: {"df": round(r.uniform(1, 30), 2), "loc": a, "scale": pos()},
            "gamma": lambda: {"alpha": pos(), "beta": pos()}, "beta": lambda: {"alpha": pos(), "beta": pos()},
            "log_normal": lambda: {"s": round(r.uniform(0.2, 2), 3), "scale": pos()}}[d]()


def rows(d, n):
    return [null_row(d, random.Random(f"{SEED}{d}{k}")) for k in range(n)]


__all__ = ["classes", "ctor", "rows", "null_row", "NULL", "DEFAULT", "DistributionType", "AlternativeType"]
