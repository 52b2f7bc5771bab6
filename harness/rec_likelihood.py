"""Evaluates the likelihood functions.
usage: rec_likelihood.py cases.json out.jsonl"""

import importlib
import json
import math
import random
import sys

import numpy as np
import scipy.stats as st
from rectools import SEED, THOROUGH, clean, enc, guarded, write

lib = importlib.import_module("pysatl_criterion.estimation.maximum_likelihood.function_for_maximum_likelihood")
NAMES = {"uniform": "uniform_continuous"}
FAMILIES = ["uniform", "normal", "lognormal", "exponential", "weibull", "gamma", "beta", "cauchy", "chi_squared", "t_distribution", "fisher", "rayleigh",
            "wigner", "pareto", "laplace", "discrete_uniform", "bernoulli", "binomial", "poisson", "geometric"]
COUNTS = {"discrete_uniform", "bernoulli", "binomial", "poisson", "geometric"}
FITTED = {"cauchy", "t_distribution", "fisher"}
out = []


def record(f, xs, m, kind):
    fn = getattr(lib, "likelihood_function_" + NAMES.get(f, f))
    args = (m,) if f == "binomial" else ()
    r = random.Random(f"{SEED}{f}{xs}")
    whole = f in COUNTS and all(float(x).is_integer() for x in xs)
    arr = np.array(xs, dtype=int if whole and r.random() < 0.5 else float)
    before = arr.copy()
    other = np.array(r.sample(list(arr), len(arr)))
    ok, v = guarded(lambda: float(fn(arr, *args)))
    ok2, v2 = guarded(lambda: float(fn(other, *args))) if ok else (ok, v)
    txt = clean(f"{f} on {kind} sample {[float(x) for x in xs][:12]}{'...' if len(xs) > 12 else ''}" + (f" of {m} trials" if args else ""))
    out.append([{"op": "lik", "f": f, "m": m, "xs": [enc(float(x)) for x in xs], "ok": ok and ok2, "val": enc(v) if ok else [0, 0],
                 "val2": enc(v2) if ok and ok2 else [0, 0], "err": "" if ok and ok2 else clean(v if not ok else v2), "txt": txt,
                 "cost": 1 + (60 if f in ("t_distribution", "fisher") else 20 if f in ("beta", "cauchy") else 1) * (1 + len(xs) // 10)}])
    if not np.array_equal(arr, before, equal_nan=True):
        out.append([{"op": "same", "f": f, "same": False, "txt": txt}])


def draw(f, n, r):
    s = 10 ** (r.uniform(0, 2) if f == "cauchy" else r.uniform(-4, 4) if f in ("wigner", "weibull") else r.uniform(-2, 2))
    g = r.gauss
    return {"uniform": lambda: r.uniform(-s, 2 * s), "normal": lambda: s * g(1, 1), "lognormal": lambda: s * math.exp(g(0, 0.6)), "exponential": lambda: s * r.expovariate(1),
            "weibull": lambda: s * r.weibullvariate(1, r.choice([0.8, 1.5, 3])), "gamma": lambda: s * r.gammavariate(2.5, 1), "beta": lambda: r.betavariate(2, 1.3),
            "cauchy": lambda: s * g(0, 1) / max(0.05, abs(g(0, 1))), "chi_squared": lambda: s * r.gammavariate(1.5, 2),
            "t_distribution": lambda: s * g(0.5, 1) / math.sqrt(max(0.1, r.gammavariate(2, 0.5))), "fisher": lambda: s * r.gammavariate(2, 1) / r.gammavariate(3, 1),
            "rayleigh": lambda: s * math.hypot(g(0, 1), g(0, 1)), "wigner": lambda: s * (2 * r.betavariate(1.5, 1.5) - 1), "pareto": lambda: s * r.paretovariate(2),
            "laplace": lambda: s * (r.expovariate(1) - r.expovariate(1)), "discrete_uniform": lambda: r.randint(-5, 9), "bernoulli": lambda: int(r.random() < 0.4),
            "binomial": lambda: sum(r.random() < 0.35 for _ in range(12)), "poisson": lambda: int(r.gammavariate(3, 1.2)), "geometric": lambda: 1 + int(r.expovariate(0.6))}[f]


SIZES = [8, 12, 20, 9, 30, 5, 15, 40, 3, 10]
for j in range(40 if THOROUGH else 10):
    for f in FAMILIES:
        r = random.Random(f"{SEED}{f}{j}")
        n = SIZES[j % len(SIZES)]
        if f in ("t_distribution", "fisher"):
            n = max(8, min(n, 20))
        z = draw(f, n, r)
        # another scale for each observation set: z closes over its own s
        xs = [z() for _ in range(n)]
        if f == "exponential" or f == "gamma":
            xs = [x + 1e-6 for x in xs]
        record(f, xs, 12, "drawn")
        k = r.randrange(n)
        ys = list(xs)
        ys[k] = {"beta": r.choice([0.0, 1.0, -0.2, 1.5]), "bernoulli": r.choice([2, -1, 0.5]), "binomial": r.choice([13, -1, 2.5]), "poisson": r.choice([-1, 1.5]),
                 "geometric": r.choice([0, 2.5])}.get(f, -abs(xs[k]) if r.random() < 0.6 else 0.0)
        if f not in FITTED:
            record(f, ys, 12, "altered")
# long samples whose likelihood is an ordinary number although single densities or partial products are not
def representable(f, xs):
    """The sample on the scale where its likelihood is about one."""
    dist = getattr(st, {"uniform": "uniform", "normal": "norm", "lognormal": "lognorm", "exponential": "expon", "weibull": "weibull_min",
                        "gamma": "gamma", "rayleigh": "rayleigh", "laplace": "laplace", "pareto": "pareto"}[f])
    a = np.asarray(xs, dtype=float)
    fit = (a.min(), a.max() - a.min()) if f == "uniform" else dist.fit(a) if f in ("normal", "laplace") else dist.fit(a, floc=0)
    ll = float(np.sum(dist.logpdf(a, *fit)))
    return [float(x) for x in a * math.exp(ll / len(a))]


for j in range(2 if THOROUGH else 1):
    for f in ("uniform", "normal", "lognormal", "exponential", "weibull", "gamma", "rayleigh", "laplace", "pareto"):
        r = random.Random(f"long{SEED}{f}{j}")
        z = draw(f, 2600, r)
        xs = [z() for _ in range(2600)]
        record(f, representable(f, sorted(xs, reverse=bool(j))), 12, "long sorted")
        if f in ("normal", "lognormal", "exponential", "laplace"):
            n = 1800
            xs = [r.uniform(0.9, 1.1) * 1e-6 for _ in range(n)]
            xs[r.randrange(n)] = 5.0
            if f == "lognormal":
                xs = [math.exp(x) for x in xs]
            record(f, representable(f, xs), 12, "dominated")
for e in json.load(open(sys.argv[1])):
    for f in FAMILIES:
        if f not in FITTED:
            xs = [(2 * v + 1) / 16 for v in e["x"]] if f == "beta" else e["x"]
            record(f, xs, 4, "grid")

# the search for the family with the largest likelihood
def search(xs, kind):
    txt = clean(f"search on {kind} {xs[:12]}{'...' if len(xs) > 12 else ''}")

    def run():
        m = importlib.import_module("pysatl_criterion.estimation.maximum_likelihood.maximum_likelihood")
        fn, val = m.find_result_of_likelihood_function(xs)
        return fn.__name__.replace("likelihood_function_", "").replace("uniform_continuous", "uniform"), float(val)

    ok, v = guarded(run)
    every = []
    if not kind.endswith("Error"):
        for f in FAMILIES:
            if f != "binomial":
                ok3, w = guarded(lambda f=f: float(getattr(lib, "likelihood_function_" + NAMES.get(f, f))(np.array(xs))))
                if ok3 and w == w:
                    every.append({"f": f, "v": enc(w)})
    out.append([{"op": "search", "kind": kind, "ok": ok, "err": "" if ok else clean(v), "exc": "" if ok else v.split(":")[0], "f": v[0] if ok else "", "val": enc(v[1]) if ok else [0, 0], "all": every, "txt": txt}])


for j in range(3 if THOROUGH else 1):
    for f in FAMILIES:
        r = random.Random(f"search{SEED}{f}{j}")
        z = draw(f, 12, r)
        search([z() for _ in range(12)], "drawn")
search([1.0, 2.0, 4.0, 8.0], "floats")
search([0.3, 0.7, 0.2], "floats")
search([2, 2, 2], "constant")
search([0.0, 1.0, 1.0, 3.0, 5.0, 2.0], "whole floats")
search([], "ValueError")
search(["a", "b"], "TypeError")
write(sys.argv[2], out)
