"""Records p-values, critical values, regions and decisions.  usage: rec_decision.py what out.jsonl"""

import itertools
import random
import sys

import numpy as np
from rectools import SEED, THOROUGH, clean, enc, guarded, write
from stubs import FixedResolver, make_stat

from pysatl_criterion.hypothesis_testing.alternative_factory.alternative_factories import AbstractAlternativeFactory
from pysatl_criterion.hypothesis_testing.critical_values.calculator.critical_value_calculator import (
    LeftCriticalValueCalculator,
    RightCriticalValueCalculator,
    TwoSidedCriticalValueCalculator,
)
from pysatl_criterion.hypothesis_testing.critical_values.critical_area.critical_areas import (
    LeftCriticalArea,
    RightCriticalArea,
    TwoSidedCriticalArea,
)
from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import (
    CriticalValueDecisionMethod,
    PValueDecisionMethod,
)
from pysatl_criterion.hypothesis_testing.p_value.calculator.p_value_calculator import (
    LeftPValueCalculator,
    RightPValueCalculator,
    TwoSidedPValueCalculator,
)
from pysatl_criterion.statistics.alternative import AlternativeType

PV = {"left": LeftPValueCalculator, "right": RightPValueCalculator, "two_tailed": TwoSidedPValueCalculator}
CV = {"left": LeftCriticalValueCalculator, "right": RightCriticalValueCalculator, "two_tailed": TwoSidedCriticalValueCalculator}
AREA = {"left": LeftCriticalArea, "right": RightCriticalArea, "two_tailed": TwoSidedCriticalArea}
TYPE = {"left": AlternativeType.LEFT, "right": AlternativeType.RIGHT, "two_tailed": AlternativeType.TWO_TAILED}
ALTS = list(PV)
R = random.Random(SEED)
traces = []


def add(*events):
    for e in events:
        e["cost"] = 1 + len(e.get("lim", ())) // 10
    traces.append(list(events))


def limits():
    """Limit distributions: every small one with ties, and random ones of many shapes."""
    out = []
    for n in (1, 2, 3, 4):
        for c in itertools.product((0.0, 1.0, 2.0), repeat=n):
            out.append(list(c))
    for _ in range(600 if THOROUGH else 100):
        n = R.choice([1, 2, 3, 5, 7, 10, 19, 20, 21, 39, 40, 41, 50, 99, 100, 101])
        k = R.randrange(7)
        if k == 0:
            x = [R.gauss(0, 1) for _ in range(n)]
        elif k == 1:
            x = [float(R.randrange(-2, 3)) for _ in range(n)]
        elif k == 2:
            x = [10 ** R.uniform(-12, 12) * R.choice([-1, 1]) for _ in range(n)]
        elif k == 3:
            x = [R.choice([0.1, 0.2, 0.3])] * n
        elif k == 4:
            u = 10.0 ** R.choice([-300, -150, -40, -15, -9, 9, 40, 150, 300])
            x = [u * R.gauss(2, 1) for _ in range(n)]
        elif k == 5:
            x = [1e6 + R.randrange(9) * 2.0 ** -20 for _ in range(n)]
        else:
            x = sorted((R.expovariate(1) for _ in range(n)), reverse=True)
        out.append(x)
    out.append([R.gauss(5, 2) for _ in range(2000)])
    out.append([float(R.randrange(7)) for _ in range(1000)])
    # the default number of simulations and beyond
    for n in (4097, 10_000, 20_001) + ((65_537, 150_000) if THOROUGH else ()):
        out.append([R.gauss(5, 2) for _ in range(n)] if R.random() < 0.5 else [float(R.randrange(n // 3)) for _ in range(n)])
    return out


def container(x, i):
    return [list, np.array, tuple][i % 3](x) if i % 7 else list(x)


def points(x):
    s = sorted(set(x))
    p = [s[0] - 1.0, s[-1] + 1.0] + s[:3] + s[-2:]
    p += [(a + b) / 2 for a, b in zip(s, s[1:])][:3]
    p += [R.choice(x), np.nextafter(R.choice(x), -np.inf), np.nextafter(R.choice(x), np.inf)]
    return [float(v) for v in p]


LEVELS = [0.0, 0.001, 0.01, 0.025, 0.05, 0.1, 0.2, 0.25, 1 / 3, 0.5, 0.75, 0.9, 0.95, 0.99, 1.0]


def pvalues():
    for i, x in enumerate(limits()):
        for alt in ALTS:
            for t in R.sample(points(x), 3) if len(x) > 4000 else points(x) if len(x) < 200 or i % 2 else points(x)[:4]:
                calc = PV[alt]() if i % 2 else AbstractAlternativeFactory.get_concrete_factory(TYPE[alt]).get_p_value_calculator()
                arg = container(x, i)
                ok, r = guarded(lambda: enc(calc.calculate(arg, t)))
                add({"op": "pvalue", "alt": alt, "lim": [enc(v) for v in x], "t": enc(t), "ok": ok,
                     "err": "" if ok else clean(r), "res": [r] if ok else []})


def reused(compute, ask):
    """One list object whose contents change between calls: each answer is about what it holds then."""
    for n in (4, 5, 33):
        for alt in ALTS:
            for calc in (compute[alt](), None):
                held = [0.0] * n
                for _ in range(6 if THOROUGH else 3):
                    held[:] = [float(R.randrange(-3, 4)) if R.random() < 0.5 else R.gauss(0, 2) for _ in range(n)]
                    ask(alt, calc or compute[alt](), held)
                    ask(alt, calc or compute[alt](), held)


def pvalues_reused():
    def ask(alt, calc, held):
        t = R.choice(points(held))
        ok, r = guarded(lambda: enc(calc.calculate(held, t)))
        add({"op": "pvalue", "alt": alt, "lim": [enc(v) for v in held], "t": enc(t), "ok": ok,
             "err": "" if ok else clean(r), "res": [r] if ok else []})

    reused(PV, ask)


def cvs_reused():
    def ask(alt, calc, held):
        a = R.choice(LEVELS)
        ok, r = guarded(lambda: pairs(calc.calculate(held, a)))
        add({"op": "cv", "alt": alt, "lim": [enc(v) for v in held], "a": enc(a), "ok": ok,
             "err": "" if ok else clean(r), "res": r if ok else []})

    reused(CV, ask)


def pairs(r):
    return [enc(v) for v in r] if isinstance(r, (tuple, list, np.ndarray)) else [enc(r)]


def cvs():
    for i, x in enumerate(limits()):
        for alt in ALTS:
            for a in LEVELS if len(x) < 200 else (0.05, 0.5):
                if len(x) == 4 and R.random() < 0.5 and not THOROUGH:
                    continue
                calc = CV[alt]() if i % 2 else AbstractAlternativeFactory.get_concrete_factory(TYPE[alt]).get_critical_value_calculator()
                arg = container(x, i)
                ok, r = guarded(lambda: pairs(calc.calculate(arg, a)))
                add({"op": "cv", "alt": alt, "lim": [enc(v) for v in x], "a": enc(a), "ok": ok,
                     "err": "" if ok else clean(r), "res": r if ok else []})


def decisions():
    grid = [-1.0, -0.5, 0.0, 0.5, 1.0, 1e-300, np.nextafter(0.5, 1), np.nextafter(0.5, 0)]
    for alt in ALTS:
        for c in itertools.product(grid, repeat=2 if alt == "two_tailed" else 1):
            if alt == "two_tailed" and c[0] > c[1]:
                continue
            for t in grid:
                area = AREA[alt](*c) if R.random() < 0.5 else AbstractAlternativeFactory.get_concrete_factory(
                    TYPE[alt]).get_critical_area(c if alt == "two_tailed" else c[0])
                ok, r = guarded(lambda: bool(area.contains(t)))
                add({"op": "area", "alt": alt, "cv": [enc(v) for v in c], "t": enc(t), "ok": ok,
                     "res": r if ok else False, "err": "" if ok else clean(r)})
    series = 0
    for i, x in enumerate(limits() + [None]):
        if x is not None and 3 <= len(x) <= 4 and R.random() < 0.6 and not THOROUGH:
            continue
        for alt in ALTS:
            for method, cls in (("pvalue", PValueDecisionMethod), ("cv", CriticalValueDecisionMethod)):
                for t in [0.0, 1.0] if x is None else R.sample(points(x), 1 if len(x) > 4000 else 3):
                    series += 1
                    evs = []
                    for a in LEVELS[1:-1] if x is None or len(x) < 200 else (0.05, 0.2):
                        stat = make_stat(alt)
                        res = FixedResolver(None if x is None else container(x, i))
                        exc = ""
                        try:
                            r, ok = cls(res).decide(stat, t, a, 17), True
                        except Exception as ex:  # noqa: BLE001
                            r, ok = ex, False
                            exc = "ValueError" if isinstance(ex, ValueError) else type(ex).__name__
                        ev = {"op": "decide", "alt": alt, "method": method, "lim": [] if x is None else [enc(v) for v in x],
                              "t": enc(t), "a": enc(a), "ok": ok, "exc": exc, "err": "" if ok else clean(r), "series": series,
                              "rstat": [0, 0], "rlevel": [0, 0], "rp": [], "rcv": [], "rejected": False}
                        if ok:
                            ev["rstat"], ev["rlevel"], ev["rejected"] = enc(r.statistic), enc(r.significance_level), bool(r.rejected)
                            ev["rp"] = [] if r.p_value is None else [enc(r.p_value)]
                            ev["rcv"] = [] if r.critical_value is None else pairs(r.critical_value)
                        if ok and [n for _, n in res.asked] != [17]:
                            ev["ok"], ev["err"] = False, "resolver asked for " + str([n for _, n in res.asked])
                        evs.append(ev)
                    add(*evs)


{"pvalues": pvalues, "cvs": cvs, "decisions": decisions}[sys.argv[1]]()
{"pvalues": pvalues_reused, "cvs": cvs_reused}.get(sys.argv[1], lambda: None)()
write(sys.argv[2], traces)
