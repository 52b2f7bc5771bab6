"""Which statistics are evaluated with which parameters on which samples (runs next to the code under test)."""

import math
import random

import numpy as np
import statcat
from rectools import SEED, THOROUGH

from pysatl_criterion.statistics.alternative import AlternativeType

GRAPH = {"AVGDEGREE", "CLIQUENUMBER", "CONNECTEDCOMPONENTS", "EDGESNUMBER", "INDEPENDENCENUMBER", "MAXDEGREE"}
EDF = {"KS", "LILLIE", "AD", "CVM", "KUIPER", "KUI", "WATSON", "WAT", "MT", "ZHANG", "ZHANG_ZA", "ZHANG_ZC", "ZWA", "ZWC"}
BINNED = {"CHI2", "CHI2_PEARSON", "G_TEST", "CRESSIE_READ"}
SIDES = {"two": AlternativeType.TWO_TAILED, "right": AlternativeType.RIGHT, "left": AlternativeType.LEFT}
# judged on observations in the extreme tails of a completely given law
FAR = {"KS", "AD", "CVM", "KUIPER", "KUI", "WATSON", "WAT"}
# smallest and largest samples
MIN = {("normal", "SKEW"): 8, ("normal", "DAP"): 8, ("normal", "ZQ"): 8, ("normal", "ZQS"): 8, ("normal", "DH"): 8,
       ("normal", "KURTOSIS"): 5, ("normal", "HOSKING2"): 6, ("normal", "HOSKING3"): 8, ("normal", "HOSKING4"): 10,
       ("weibull", "AD"): 5, ("weibull", "LOS"): 5}
MAX = {("exponential", "AHS"): 14, ("exponential", "HP"): 14, ("exponential", "RS"): 12, ("exponential", "DSP"): 40,
       ("uniform", "BICKEL_ROSENBLATT"): 60, ("log_normal", "KL_SUP"): 30, ("log_normal", "KL_INT"): 30, ("beta", "MODE"): 60,
       ("uniform", "CENSORED_STEIN_U"): 40, ("normal", "BHS"): 60, ("normal", "EP"): 80, ("log_normal", "EP"): 80}
# smallest samples of statistics whose formula does not reach down to one observation (normality statistics also serve log-normality)
TINY = {**{("normal", c): 4 for c in ("BHS", "BM1", "BM2", "BS", "CC1", "CC2", "COIN", "CS", "D", "DAP", "DH", "DLDMZEPD", "GLB", "GMG", "HOSKING1", "HOSKING2",
                                      "HOSKING3", "HOSKING4", "KURTOSIS", "MI", "SH", "SKEW", "SWRG", "ZQ", "ZQS", "ZWA", "ZWC")},
        ("normal", "SW"): 3, ("normal", "FILLI"): 2, ("normal", "LG"): 2, ("normal", "RJ"): 2,
        ("exponential", "DSP"): 2, ("exponential", "GD"): 2, ("exponential", "HM"): 3, ("exponential", "HP"): 3, ("exponential", "RS"): 3,
        ("weibull", "AD"): 4, ("weibull", "LOS"): 4, ("weibull", "TS"): 3, ("weibull", "MSF"): 2, ("weibull", "CHI2_PEARSON"): 3, ("weibull", "KL"): 2, ("beta", "MODE"): 2, ("beta", "SK"): 4,
        ("gamma", "LILLIE"): 2, ("gamma", "PPCC"): 2, ("uniform", "CENSORED_STEIN_U"): 2, ("uniform", "STEIN_U"): 2, ("uniform", "CHI2_PEARSON"): 2,
        ("log_normal", "KL_SUP"): 2, ("log_normal", "KL_INT"): 2}
# statistics undefined where two observations coincide
NO_TIES = {("gamma", "MOR"), ("weibull", "LOS"), ("uniform", "CENSORED_STEIN_U"), ("exponential", "EPS"), ("log_normal", "KL_SUP"), ("log_normal", "KL_INT")}


def minimum(d, code):
    return MIN.get((d, code), MIN.get(("normal", code), 4) if d == "log_normal" else 4)


def family(d, code):
    """The checks that cover a statistic."""
    own = {"normal": "T02", "exponential": "T03", "weibull": "T04", "log_normal": "T06"}.get(d, "T05")
    if code in GRAPH:
        return {"T07"}
    return {own} | ({"T01"} if code in EDF or (d, code) in {("beta", "W"), ("weibull", "W")} else set())


def options(d, code, r):
    """[(constructor arguments, keyword arguments of the evaluation, the same for the specification)]."""
    real = lambda v: {"@": v}  # noqa: E731 - marks a real for the specification
    if code == "KS":
        return [({"alternative_type": SIDES[a]}, {}, {"alt": a}) for a in SIDES]
    if (d, code) == ("normal", "RJ"):
        return [({"weighted": w, "cte_alpha": c}, {}, {"weighted": w, "cte": c}) for w in (False, True) for c in ("3/8", "1/2", "0")]
    if d == "exponential":
        if code == "ATK":
            return [({}, {}, {"p": real(0.99)})] + [({}, {"p": p}, {"p": real(p)}) for p in (0.5, 2.0)]
        if code == "DSP":
            return [({}, {}, {"b": real(0.44)})] + [({}, {"b": b}, {"b": real(b)}) for b in (0.5, 0.9)]
        if code in ("GD", "HM"):
            return [({}, {}, {"r": 0})] + [({}, {"r": k}, {"r": k}) for k in ((1, 3) if code == "GD" else (1,))]
        if code == "LZ":
            return [({}, {}, {"p": real(0.5)})] + [({}, {"p": p}, {"p": real(p)}) for p in (0.3, 0.8)]
    if d == "weibull":
        if code == "KL":
            return [({}, {}, {"w": 0}), ({}, {"m": 1}, {"w": 1}), ({}, {"m": 3}, {"w": 3})]
        if code in ("LT2", "LT3"):
            return [({}, {}, {"m": 100, "a": real(-5)}), ({}, {"m": 30, "a": -2}, {"m": 30, "a": real(-2)})]
    if d == "uniform":
        if code == "CHI2_PEARSON":
            out = [({"bins": b} if b != "sturges" else {}, {}, {"rule": b if b != "foo" else "other", "bins": 0, "lam": real(1)})
                   for b in ("sturges", "sqrt", "auto", "foo")]
            return out + [({"bins": b, "lambda_": lam}, {}, {"rule": "count", "bins": b, "lam": real(lam)})
                          for b, lam in ((5, 1), (3, 0), (7, 2 / 3), (1, 2), (13, 1), (2, -0.5), (4, -1))]
        if code == "BICKEL_ROSENBLATT":
            return [({}, {}, {"auto": True, "h": real(0)}), ({"bandwidth": 0.15}, {}, {"auto": False, "h": real(0.15)})]
        if code == "ZHANG":
            return [({"test_type": t}, {}, {"test": t.upper()}) for t in ("A", "C", "K", "c")] + [({}, {}, {"test": "A"})]
        if code == "NEYMAN":
            return [({}, {}, {"k": 4})] + [({"k": k}, {}, {"k": k}) for k in (1, 2, 3, 6)]
    if d == "beta":
        if code == "CHI2_PEARSON":
            return [({}, {}, {"lam": real(1)})] + [({"lambda_": x}, {}, {"lam": real(x)}) for x in (0, 2 / 3, 2, -0.5)]
        if code == "ENT":
            return [({}, {}, {"w": 0}), ({}, {"m": 1}, {"w": 1}), ({}, {"m": 3}, {"w": 3})]
    if d == "gamma":
        if code in ("CHI2_PEARSON", "G_TEST"):
            return [({}, {}, {"bins": 8})] + [({"bins": b}, {}, {"bins": b}) for b in (2, 5, 12)]
        if code == "CRESSIE_READ":
            return [({}, {}, {"bins": 8, "power": real(2 / 3)})] + [
                ({"bins": b, "power": x}, {}, {"bins": b, "power": real(x)}) for b, x in ((4, 1.0), (5, 0.0), (3, 2.0), (2, -1.0), (6, -0.5))]
    if (d, code) == ("student", "CHI2"):
        return [({}, {}, {"bins": 10})] + [({"n_bins": b}, {}, {"bins": b}) for b in (2, 5)]
    return [({}, {}, {})]


def draw(d, p, n, kind, r):
    """A sample of size n from (or near) the null law of family d; r: random.Random."""
    g = r.gauss
    if d == "normal":
        m, s = p["mean"], math.sqrt(p["var"])
        z = {"null": lambda: m + s * g(0, 1), "uniform": lambda: m + s * r.uniform(-2, 2), "heavy": lambda: m + s * g(0, 1) / max(0.3, abs(g(0, 1))),
             "skewed": lambda: m + s * (r.expovariate(1) - 1), "shifted": lambda: m + s * (0.7 + 1.5 * g(0, 1)),
             "ties": lambda: round(4 * g(0, 1.5)) / 4}[kind]
        return [z() for _ in range(n)]
    if d == "exponential":
        w = 1 / p["lam"]
        z = {"null": lambda: w * r.expovariate(1), "uniform": lambda: w * r.uniform(0.05, 2), "heavy": lambda: w * r.paretovariate(2.5),
             "skewed": lambda: w * r.gammavariate(0.6, 1.5), "shifted": lambda: w * (0.5 + r.expovariate(2)),
             "ties": lambda: (1 + int(6 * r.random())) / 4}[kind]
        return [z() for _ in range(n)]
    if d == "weibull":
        a, k = p["a"], p["k"]
        z = {"null": lambda: (-math.log1p(-(r.uniform(0.002, 0.998) ** (1 / a)))) ** (1 / k), "uniform": lambda: r.uniform(0.3, 1.6),
             "heavy": lambda: math.exp(g(0, 0.4)), "skewed": lambda: r.gammavariate(3, 0.3), "shifted": lambda: 0.4 + r.gammavariate(3, 0.3),
             "ties": lambda: (2 + int(6 * r.random())) / 4}[kind]
        return [min(14 ** (1 / k), z()) for _ in range(n)]
    if d in ("uniform", "beta"):
        a, b = (p["a"], p["b"]) if d == "uniform" else (0, 1)
        al, be = (1, 1) if d == "uniform" else (p["alpha"], p["beta"])
        u = {"null": lambda: r.betavariate(al, be), "uniform": r.random, "heavy": lambda: r.betavariate(0.7, 0.8), "skewed": lambda: r.betavariate(2, 1),
             "shifted": lambda: r.betavariate(3, 4), "ties": lambda: (1 + int(15 * r.random())) / 16}[kind]
        return [a + (b - a) * min(0.9995, max(0.0005, u())) for _ in range(n)]
    if d == "gamma":
        al, be = p["alpha"], p["beta"]
        z = {"null": lambda: r.gammavariate(al, 1 / be), "uniform": lambda: al / be * r.uniform(0.3, 1.8), "heavy": lambda: al / be * math.exp(g(0, 0.5)),
             "skewed": lambda: al / be * r.expovariate(1), "shifted": lambda: r.gammavariate(al + 1, 1 / be),
             "ties": lambda: (1 + int(8 * r.random())) / 4}[kind]
        return [max(1e-3 * al / be * (1 + r.random()), z()) for _ in range(n)]
    if d == "student":
        m, s, f = p["loc"], p["scale"], p["df"]
        z = {"null": lambda: m + s * g(0, 1) / math.sqrt(max(0.05, r.gammavariate(f / 2, 2 / f))), "uniform": lambda: m + s * r.uniform(-3, 3),
             "heavy": lambda: m + s * 2 * g(0, 1), "skewed": lambda: m + s * (r.expovariate(1) - 1), "shifted": lambda: m + s * (1 + g(0, 1)),
             "ties": lambda: round(4 * g(0, 1.5)) / 4}[kind]
        return [z() for _ in range(n)]
    if d == "log_normal":
        m, s = math.log(p["scale"]), p["s"]
        z = {"null": lambda: m + s * g(0, 1), "uniform": lambda: m + s * r.uniform(-1.7, 1.7), "heavy": lambda: m + s * g(0, 1) / max(0.4, abs(g(0, 1))),
             "skewed": lambda: m + s * (r.expovariate(1) - 1), "shifted": lambda: m + s * (0.5 + g(0, 1)),
             "ties": lambda: m + s * round(4 * g(0, 1)) / 4}[kind]
        return [math.exp(max(-30.0, min(30.0, z()))) for _ in range(n)]
    raise KeyError(d)


def far(d, p, r):
    """An observation in the extreme tails of the null law."""
    high = r.random() < 0.6
    if d == "exponential":
        return (r.uniform(30, 300) if high else 10 ** r.uniform(-12, -4)) / p["lam"]
    if d == "gamma":
        return p["alpha"] / p["beta"] * (10 ** r.uniform(1.6, 2.4) if high else 10 ** r.uniform(-9, -3))
    if d == "student":
        return p["loc"] + p["scale"] * (1 if high else -1) * 10 ** r.uniform(1, 6)
    a, b = (p["a"], p["b"]) if d == "uniform" else (0, 1)
    e = 10 ** r.uniform(-9, -4) * (b - a)
    return b - e if high else a + e


# sizes next to the size branches of a statistic
CUBIC = {("exponential", "AHS"), ("exponential", "HP"), ("exponential", "RS")}
PAIRS = {"STEIN_U"}  # specified over all pairs of observations
LARGE = [(200, 300), (301, 520), (521, 1100), (2050, 4500)]
BRANCH = {"SH": [149, 150, 151, 180], **{f"HOSKING{i}": [24, 50, 49] for i in (1, 2, 3, 4)}, "COIN": [21, 41, 42], "SW": [5, 6]}
BRANCH_KINDS = ["null", "uniform", "skewed", "heavy"]
KINDS = ["null", "uniform", "skewed", "heavy", "ties", "shifted"]
SIZES = [5, 8, 10, 11, 12, 20, 25, 26, 40, 51, 7, 14, 60, 4, 30, 9, 100, 41, 6, 150]


def sizes(d, code, k):
    """The k-th sample size of a statistic."""
    lo, hi = minimum(d, code), MAX.get((d, code), 200)
    ok = [n for n in SIZES if lo <= n <= hi] if hi >= 20 else list(range(lo, hi + 1))
    return ok[k % len(ok)]


def rows(d, c, k):
    """The k-th row of null parameters in the constructor's terms (k = 0: the defaults)."""
    own = [q for q in statcat.NULL[d] if q in statcat.ctor(c)]
    if k == 0 or not own:
        given = {}
    else:
        given = statcat.null_row(d, random.Random(f"{SEED}plan{c.__name__}{k}"))
        if d == "weibull":
            given = {"a": min(3.0, max(0.5, given["a"])), "k": min(3.0, max(0.6, given["k"]))}
        if c.__name__ == "ModeBetaGofStatistic":
            given = {q: v + 1 for q, v in given.items()}
        given = {q: v for q, v in given.items() if q in own}
        if k % 3 == 2 and len(own) > 1:  # one parameter left at its default
            r = random.Random(f"{SEED}left{c.__name__}{k}")
            q = own[k // 3 % len(own)]
            del given[q]
            if d == "uniform":
                given = {"b": round(10 ** r.uniform(-0.6, 0.8), 3)} if q == "a" else {"a": round(1 - 10 ** r.uniform(-0.6, 0.8), 3)}
    return given, {**statcat.standard(d, c), **given}


def sweep():
    """The same sample under several null laws: only the null parameters change."""
    for d, c in statcat.classes():
        code = str(c.short_code())
        own = [q for q in statcat.NULL[d] if q in statcat.ctor(c)]
        if not own or code in GRAPH or (d, code) in {("weibull", "RSB"), ("weibull", "SPP"), ("uniform", "CENSORED_STEIN_U")}:
            continue
        for s in range(8 if THOROUGH else 2):
            r = random.Random(f"{SEED}sweep{c.__name__}{s}")
            base, full = rows(d, c, s + 1)
            ck, ek, spec = options(d, code, None)[0]
            xs = draw(d, full, sizes(d, code, s + 3), "null", r)
            for k in range(8 if THOROUGH else 4):
                given, null = rows(d, c, k + 2)
                if d == "uniform":
                    w = max(xs) - min(xs)
                    given = {"a": min(xs) - r.choice([0.0, 0.1, 1.0]) * w, "b": max(xs) + r.choice([0.0, 0.2, 2.0]) * w}
                    null = {**null, **given}
                elif k % 4 == 3:  # one parameter at a time
                    q = r.choice(sorted(given))
                    given = {**base, q: given[q]}
                    null = {**full, **given}
                if d == "student" and code == "LILLIE":
                    null.update(loc=0, scale=1)
                yield d, code, c, {**given, **ck}, ek, null, spec, "null", xs
            if d != "uniform":
                if d == "student":  # many degrees of freedom are hard to tell apart
                    base = {**base, "df": round(r.uniform(1, 3), 2)}
                    full = {**full, **base}
                if code in BINNED:  # counts notice a slightly different law only in long samples
                    xs = draw(d, full, 600, "null", r)
                for step in (0.0, 1e-7, 0.02, 0.1, 0.25):  # a law and laws next to it
                    given = {q: v * (1 + step) for q, v in base.items()}
                    null = {**full, **given}
                    if d == "student" and code == "LILLIE":
                        null.update(loc=0, scale=1)
                    yield d, code, c, {**given, **ck}, ek, null, spec, "null", xs


def plan(prop, per=None, seed=""):
    """(d, code, class, ctor kwargs, eval kwargs, null parameters, options, kind, sample)"""
    if prop == "T11":
        yield from sweep()
        return
    for d, c in statcat.classes():
        code = str(c.short_code())
        if prop not in family(d, code):
            continue
        opts = options(d, code, None)
        own = [q for q in statcat.NULL[d] if q in statcat.ctor(c)]
        base = per or (40 if THOROUGH else 16)
        total = max(base, len(opts) * (10 if THOROUGH else 4))
        if d in ("normal", "log_normal", "exponential", "weibull") and code not in ("KL_SUP", "KL_INT"):
            total = max(total, 120 if THOROUGH else 36)
        least = TINY.get((d, code), TINY.get(("normal", code), 1) if d == "log_normal" else 1)
        tiny = [] if seed else list(range(least, 4)) * (3 if THOROUGH else 1)
        small = len(tiny)
        branches = [] if seed or d not in ("normal", "log_normal") else [(n, kind) for n in BRANCH.get(code, []) for kind in BRANCH_KINDS]
        tiny += [n for n, _ in branches]
        mirrors = 0 if seed or d != "normal" else 6 if THOROUGH else 2
        if not seed and (d, code) not in CUBIC:  # larger than any size a formula or an implementation could branch at
            pick = random.Random(f"{SEED}{prop}{c.__name__}large")
            ranges = LARGE[:3] if (d, code) in MAX or code in PAIRS else LARGE
            tiny += [pick.randint(*ranges[k % len(ranges)]) for k in range(len(ranges) * (3 if THOROUGH else 1))]
        tiny += [8 + k % 6 for k in range(mirrors)]
        fars = (9 if THOROUGH else 3) * (not seed and d in ("exponential", "uniform", "gamma", "beta", "student") and code in FAR)
        tiny += [pick.randint(4, 30) for _ in range(fars)]
        for k in range(total + len(tiny)):
            r = random.Random(f"{SEED}{seed}{prop}{c.__name__}{k}")
            ck, ek, spec = opts[k % len(opts)]
            given, full = rows(d, c, [0, 1, 2, 5, 3, 8][(k // len(opts)) % (6 if THOROUGH else 4)] if own else 0)
            n = sizes(d, code, k) if k < total else tiny[k - total]
            kind = KINDS[(k + k // len(SIZES) + len(code)) % len(KINDS)]
            if 0 <= k - total - small < len(branches):
                kind = branches[k - total - small][1]
            if kind == "ties" and ((d, code) in NO_TIES or k >= total and n < 4):
                kind = "skewed"
            xs = draw(d, full, n, kind, r)
            if (d, code) in NO_TIES and len(set(xs)) < n:  # values clipped to the support
                seen = set()
                for i, x in enumerate(xs):
                    while x in seen:
                        x *= 1 - 1e-4 * r.random()
                    seen.add(x)
                    xs[i] = x
            if total + len(tiny) - fars <= k:  # so far in a tail that the distribution function rounds to 1, or nearly to 0
                kind = "far"
                xs = draw(d, full, n, "null", r)
                for i in r.sample(range(n), r.randint(1, 2)):
                    xs[i] = far(d, full, r)
            elif k >= total + len(tiny) - fars - mirrors:  # exactly symmetric about 0
                half = [r.randrange(1, 40) / 8 for _ in range(n // 2)]
                xs, kind = half + [-x for x in half] + [0.0] * (n % 2), "mirrored"
                r.shuffle(xs)
            if d == "student" and code == "LILLIE":
                full.update(loc=0, scale=1)
            if code in ("HM", "GD") and ek.get("r", 0) * (2 if code == "HM" else 1) >= n:
                ek, spec = {}, {"r": 0}
            if code == "KL" and ek.get("m", 0) > n // 2:
                ek, spec = {}, {"w": 0}
            if (d, code) == ("uniform", "CENSORED_STEIN_U"):
                marks = [0] * n if k % 4 == 0 else [int(r.random() < 0.35) for _ in range(n)]
                ek = {} if k % 8 == 0 else {"censoring_indices": np.array(marks)}
                order = sorted(range(n), key=lambda i: xs[i])
                spec = {"censored": [marks[i] for i in order]}
            yield d, code, c, {**given, **ck}, ek, full, spec, kind, xs
