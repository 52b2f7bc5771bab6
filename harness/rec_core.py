"""Records calls of the functions in core.distributions.  usage: rec_core.py out.jsonl"""

import importlib
import inspect
import pkgutil
import random
import sys

import numpy as np
from laws import ROWS, random_row
from rectools import SEED, THOROUGH, clean, enc, guarded, write

import pysatl_criterion.core.distributions as package

HOME = {}
for info in pkgutil.iter_modules(package.__path__):
    m = importlib.import_module(f"{package.__name__}.{info.name}")
    for name, v in vars(m).items():
        if inspect.isfunction(v):
            HOME[name] = v
SAMPLERS = {"generate_norm": "normal", "generate_expon": "exponential", "generate_weibull": "weibull", "generate_uniform": "uniform",
            "generate_t": "student", "generate_gamma": "gamma", "generate_beta": "beta", "generate_lognorm": "log_normal",
            "generate_cauchy": "cauchy", "generate_chi2": "chi_2", "generate_gompertz": "gompertz", "generate_gumbel": "gumbel",
            "generate_invgauss": "inv_gauss", "generate_laplace": "laplace", "generate_lo_con_norm": "lo_con_normal",
            "generate_logistic": "logistic", "generate_mix_con_norm": "mix_con_normal", "generate_rice": "rice",
            "generate_scale_con_norm": "scale_con_normal", "generate_truncnorm": "trunc_normal", "generate_tukey": "tukey"}
MIXTURES = {"generate_lo_con_norm", "generate_mix_con_norm", "generate_scale_con_norm"}  # documented to take an integer size
# documented parameter order, for positional calls
ORDER = {"log_normal": ["mu", "s"]}
R = random.Random(SEED)
np.random.seed(SEED)
N = 60 if THOROUGH else 12
traces = []


def pos():
    return round(10 ** R.uniform(-1, 1), 3)


def params(f):
    full = ({"mean": round(R.uniform(-5, 5), 2), "var": pos()} if f.endswith("norm") else {"lam": pos()} if f.endswith("expon")
            else {"a": R.choice([1, 1.0, pos(), pos()]), "k": round(R.uniform(0.3, 6), 2)})
    return {q: v for q, v in full.items() if R.random() < 0.7}


def points(f, g):
    if f.endswith("norm"):
        m, s = g.get("mean", 0), g.get("var", 1) ** 0.5
        return [m + s * z for z in [0.0, 1.0, -1.0, 7.5, -7.5, 20.0, -20.0, *(R.uniform(-5, 5) for _ in range(5))]]
    if f.endswith("expon"):
        return [0.0, -1.0, -0.001, 1e-12, 30.0, *(R.expovariate(1) / g.get("lam", 1) for _ in range(7))]
    x = [R.uniform(0.05, 2.2) for _ in range(10)]
    return [0.0, -2.0, *x] if f.endswith("_cdf") else [0.01, 3.0, *x]


def shapes(xs):
    return R.choice([lambda: (list(xs), [len(xs)]), lambda: (np.array(xs), [len(xs)]), lambda: (tuple(xs), [len(xs)]),
                     lambda: (np.array(xs).reshape(3, 4), [3, 4]), lambda: (xs[0], []), lambda: ([xs[1]], [1]), lambda: (np.array([]), [0])])()


for f in ("cdf_norm", "pdf_norm", "cdf_expon", "generate_weibull_cdf", "generate_weibull_logcdf", "generate_weibull_logsf"):
    for j in range(N * 4):
        g = params(f) if j else {}
        arg, shape = shapes(points(f, g))
        if j % 5 == 4 and "positional" and len(g) == (1 if f == "cdf_expon" else 2):
            ok, r = guarded(lambda: np.asarray(HOME[f](arg, *g.values()), dtype=float))
        else:
            ok, r = guarded(lambda: np.asarray(HOME[f](arg, **g), dtype=float))
        traces.append([{"op": "fn", "f": f, "given": {q: enc(v) for q, v in g.items()}, "shape": shape, "xs": [enc(x) for x in np.ravel(arg)],
                        "ok": ok, "err": "" if ok else clean(r), "outshape": list(r.shape) if ok else [], "vals": [enc(v) for v in np.ravel(r)] if ok else [],
                        "txt": clean(f"{f}({type(arg).__name__} {shape} {g})")}])

for j in range(N * 5):
    n, m = R.choice([1, 2, 3, 7, 40]), R.choice([0, 0, 1, 3])
    off = R.choice([0, 0, 5, -300])
    a = np.array([[off + R.gauss(0, 2) for _ in range(max(m, 1))] for _ in range(n)])
    if R.random() < 0.3:
        a = np.round(a)
    arg = a[:, 0] if m == 0 else a
    arg = arg.tolist() if R.random() < 0.5 else arg
    k = R.choice([None, 1, 2, 3, 4, 5])
    f = R.choice(["moment", "central_moment"])
    c = None if f == "central_moment" else R.choice([0, 0.0, 1.5, -2])
    kw = {} if k is None else {"mom": k}
    if f == "moment":
        kw["center"] = c
    ok, r = guarded(lambda: np.atleast_1d(np.asarray(HOME[f](arg, **kw), dtype=float)))
    traces.append([{"op": "moment", "f": f, "k": k or 1, "center": [] if c is None else [enc(c)], "cols": [[enc(v) for v in col] for col in a.T],
                    "ok": ok, "err": "" if ok else clean(r), "vals": [enc(v) for v in r] if ok else [], "txt": clean(f"{f}({a.shape} {kw})")}])

for f, d in SAMPLERS.items():
    rows = [{}, *ROWS[d], *(random_row(d, R) for _ in range(6 if THOROUGH else 1))]
    for j, row in enumerate(rows):
        if f == "generate_scale_con_norm" and not row:
            continue  # the documented default contaminates with a constant
        g = {q: v for q, v in row.items() if j < 3 or R.random() < 0.6}
        if d in ("uniform", "trunc_normal"):
            g = row
        if f == "generate_scale_con_norm":
            g = {**g, "b": row["b"]}
        tr = [{"op": "sampler", "f": f, "given": {q: enc(v) for q, v in g.items()}}]
        for size in [1, 0 if f not in MIXTURES else 2, 5, (2, 3), (4, 1, 2), np.int64(6), 600] + ([4000] if THOROUGH else []):
            if isinstance(size, tuple) and f in MIXTURES:
                continue
            order = ORDER.get(d, list(row))
            if j == 2 and len(g) == len(row):
                ok, r = guarded(lambda: np.asarray(HOME[f](size, *[g[q] for q in order]), dtype=float))
            else:
                ok, r = guarded(lambda: np.asarray(HOME[f](size=size, **g), dtype=float))
            tr.append({"op": "draw", "shape": list(size) if isinstance(size, tuple) else [int(size)], "ok": ok, "err": "" if ok else clean(r),
                       "outshape": list(r.shape) if ok else [], "vals": [enc(v) for v in np.ravel(r)] if ok else [],
                       "txt": clean(f"{f}({size} {g})"), "cost": 5})
        tr.append({"op": "law", "txt": clean(f"{f}({g})"), "cost": 60})
        traces.append(tr)

def many(f, total):
    """Draws total values in calls of changing size; answers how many came and how many of them differ."""
    seen, asked = [], 0
    while asked < total:
        n = R.choice([1, 10, 100, 1000, 1000, 5000]) if f not in MIXTURES else R.choice([10, 1000])
        seen.append(np.ravel(HOME[f](size=n, **ROWS[SAMPLERS[f]][0])))
        asked += n
    a = np.concatenate(seen)
    return asked, a.size, len(np.unique(a))


for f in SAMPLERS:
    total = (30000 if f in MIXTURES else 300000) * (4 if THOROUGH else 1)
    ok, r = guarded(lambda: many(f, total))
    traces.append([{"op": "fresh", "f": f, "ok": ok, "err": "" if ok else clean(r), "asked": r[0] if ok else 0, "drawn": r[1] if ok else 0,
                    "distinct": r[2] if ok else 0, "txt": clean(f"{f}({ROWS[SAMPLERS[f]][0]})")}])
write(sys.argv[1], traces)
