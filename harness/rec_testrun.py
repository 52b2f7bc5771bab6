"""Records Monte-Carlo resolutions and whole test runs.  usage: rec_testrun.py what in.json out.jsonl"""

import copy
import json
import random
import sys

import numpy as np
from laws import ROWS
from rectools import SEED, THOROUGH, clean, enc, guarded, write
from stubs import FixedResolver, make_stat

from pysatl_criterion import DistributionType
from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import (
    CriticalValueDecisionMethod,
    GoodnessOfFitTest,
    PValueDecisionMethod,
)
from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver
from pysatl_criterion.hypothesis_testing.model import DecisionMethod, TestResult

traces = []


def value(x):
    """An order-dependent statistic: different samples get different values."""
    x = [float(v) for v in x]
    return sum(v * (1 + 0.01 * i) for i, v in enumerate(x)) / (1 + sum(abs(v) for v in x))


class Log:
    """A stub statistic and what it saw."""

    def __init__(self, alt, dist, params, code="STUB", fn=value):
        self.list, self.draws, self.fn, self.ids = [], [], fn, {}
        self.obs = None
        self.stat = make_stat(alt, self.see, dist, params, code)

    def see(self, x):
        v = self.fn(x)
        key = tuple(float(t) for t in x)
        obs = self.obs is not None and key == self.obs
        self.list.append({"n": len(key), "id": [hash(key) % (1 << 31), (hash(key) >> 31) % (1 << 30)], "obs": obs, "val": enc(v)})
        if not obs:
            self.draws.extend(key)
        return v

    def take(self):
        """The evaluations since the last call, as fields of an "evals" event."""
        sim = [e for e in self.list if not e["obs"]]
        out = {"nobs": len(self.list) - len(sim), "sizes": [e["n"] for e in sim], "ids": [e["id"] for e in sim],
               "vals": [e["val"] for e in sim], "cost": 1 + len(sim) // 20}
        d = self.draws
        self.list, self.draws = [], []
        return out, d


COUNTS = {1: 1, 2: 24, 3: 60}


def monte_carlo():
    for sid, h in json.load(open(sys.argv[2])):
        np.random.seed(SEED * 1000 + sid)
        resolvers = {k: MonteCarloLimitDistributionResolver(n) for k, n in COUNTS.items()}
        tr = [{"op": "reset", "sid": sid}]
        for i, a in enumerate(h):
            params = ROWS[a["f"]][a["r"]]
            log = Log("right", DistributionType(a["f"]), dict(params), a["c"])
            valid = a["n"] > 0
            n = COUNTS[a["k"]]
            ok, r = True, None
            exc = ""
            try:
                r = resolvers[a["k"]].resolve(log.stat, a["n"])
            except Exception as ex:  # noqa: BLE001
                ok, r, exc = False, type(ex).__name__ + ": " + str(ex), "ValueError" if isinstance(ex, ValueError) else "other"
            what = clean(f"{a['f']} {params} size {a['n']} count {n}")
            evals, draws = log.take()
            tr.append({"op": "call", "sid": sid, "kind": "resolve", "n": a["n"], "sims": n if valid else 0,
                       "valid": valid, "what": what})
            tr.append({"op": "evals", "sid": sid, **evals})
            tr.append({"op": "resolved", "sid": sid, "ok": ok, "exc": exc, "err": "" if ok else clean(r)[:160],
                       "res": [enc(v) for v in r] if ok else []})
            if ok and 100 <= len(draws):
                d = draws[:400]
                tr.append({"op": "pool", "sid": sid, "dist": a["f"], "params": {k: enc(v) for k, v in params.items()},
                           "ptext": clean(params), "draws": [enc(v) for v in d],
                           "cost": len(d) // 20 * (6 if a["f"] in ("tukey", "rice") else 1)})
        traces.append(tr)
    # long simulations and large samples
    sid = 10_000
    for count, n, fam in [(1234, 2, "normal"), (2500, 1, "exponential"), (4099, 1, "uniform"), (3, 5003, "normal"), (1, 20011, "gumbel")] \
            + ([(10_001, 1, "normal"), (20_011, 2, "uniform"), (7, 30_001, "laplace")] if THOROUGH else []):
        sid += 1
        np.random.seed(SEED * 1000 + sid)
        params = ROWS[fam][1]
        log = Log("right", DistributionType(fam), dict(params))
        ok, r = guarded(lambda: MonteCarloLimitDistributionResolver(count).resolve(log.stat, n), seconds=60)
        evals, draws = log.take()
        tr = [{"op": "reset", "sid": sid},
              {"op": "call", "sid": sid, "kind": "resolve", "n": n, "sims": count, "valid": True,
               "what": clean(f"{fam} {params} size {n} count {count}")},
              {"op": "evals", "sid": sid, **evals},
              {"op": "resolved", "sid": sid, "ok": ok, "exc": "", "err": "" if ok else clean(r)[:160],
               "res": [enc(v) for v in r] if ok else []}]
        d = draws[-2000:]
        tr.append({"op": "pool", "sid": sid, "dist": fam, "params": {k: enc(v) for k, v in params.items()},
                   "ptext": clean(params), "draws": [enc(v) for v in d], "cost": len(d) // 20})
        if ok:
            traces.append(tr)
        else:
            traces.append(tr[:-1])
    for bad in (0, -1, -1000):
        exc, err = "", "accepted"
        try:
            MonteCarloLimitDistributionResolver(bad)
        except Exception as ex:  # noqa: BLE001
            exc, err = ("ValueError" if isinstance(ex, ValueError) else "other"), clean(ex)
        traces.append([{"op": "reset", "sid": -1},
                       {"op": "call", "sid": -1, "kind": "resolve", "n": 5, "sims": 0, "valid": False, "what": f"count {bad}"},
                       {"op": "resolved", "sid": -1, "ok": exc == "", "exc": exc, "err": err, "res": []}])


class StubMethod(DecisionMethod):
    def __init__(self, result):
        self.result, self.calls = result, []

    def decide(self, statistic, statistic_value, significance_level, sample_size):
        self.calls.append((statistic, statistic_value, significance_level, sample_size))
        return self.result


def tests():
    R = random.Random(SEED)
    np.random.seed(SEED)
    sid = 0
    for rep in range(6 if THOROUGH else 2):
        for alt in ("left", "right", "two_tailed"):
            for n in (1, 2, 3, 7, 20, 101):
                for how in ("stub", "fixed-cv", "fixed-p", "mc-cv", "mc-p", "default", "default-cv", "default-p"):
                    if how.startswith("default") and (n != (7 if how == "default-p" else 3) or rep):
                        continue
                    sid += 1
                    sample = [R.gauss(0, 1) * 3 for _ in range(n)]
                    if n > 3 and sid % 3 == 0:
                        sample[2] = sample[0]
                    level = R.choice([0.01, 0.05, 0.1, 0.37, 0.5])
                    log = Log(alt, DistributionType.NORMAL, {"mean": 0, "var": 1}, fn=value if sid % 2 else max)
                    given = sample if sid % 4 < 2 else np.array(sample) if sid % 4 == 2 else tuple(sample)
                    before = copy.deepcopy(given)
                    log.obs = tuple(float(v) for v in sample)
                    v = log.fn(sample)
                    call = {"op": "call", "sid": sid, "kind": "test", "n": n, "sims": 0, "valid": True, "alt": alt,
                            "what": f"{how} {alt} n={n}", "level": enc(level), "value": enc(v), "method": "", "given": []}
                    test = GoodnessOfFitTest(log.stat)
                    if how == "stub":
                        m = StubMethod(TestResult(1.25, 0.5, 0.125, None, sid % 3 == 0))
                        ok, r = guarded(lambda: test.test(given, level, m))
                        c = m.calls[0] if m.calls else (None, 0, 0, 0)
                        ret = {"op": "delegated", "sid": sid, "ok": ok, "err": "" if ok else clean(r), "calls": len(m.calls),
                               "samestat": c[0] is log.stat, "value": enc(c[1]), "level": enc(c[2]), "n": int(c[3]),
                               "same": ok and r == TestResult(1.25, 0.5, 0.125, None, sid % 3 == 0)}
                    else:
                        cls = PValueDecisionMethod if how.endswith("-p") else CriticalValueDecisionMethod
                        call["method"] = "pvalue" if how.endswith("-p") else "cv"
                        if how.startswith("fixed"):
                            lim = [R.gauss(0, 1) for _ in range(R.choice([1, 5, 40]))]
                            call["given"] = [enc(t) for t in lim]
                            res = FixedResolver(lim)
                            m = cls(res)
                        elif how.startswith("mc"):
                            call["sims"] = 25
                            m = cls(MonteCarloLimitDistributionResolver(25))
                        else:
                            call["sims"] = 10000
                            m = None if how == "default" else cls()
                        ok, r = guarded(lambda: test.test(given, level, m) if m is not None else test.test(given, level), seconds=60)
                        if ok and how.startswith("fixed") and [(s is log.stat, k) for s, k in res.asked] != [(True, n)]:
                            ok, r = False, "resolver asked for " + str([(s is log.stat, k) for s, k in res.asked])
                        ret = {"op": "tested", "sid": sid, "ok": ok, "err": "" if ok else clean(r), "value": [0, 0], "level": [0, 0],
                               "rp": [], "rcv": [], "rejected": False}
                        if ok:
                            cv = r.critical_value
                            ret.update(value=enc(r.statistic), level=enc(r.significance_level), rejected=bool(r.rejected),
                                       rp=[] if r.p_value is None else [enc(r.p_value)],
                                       rcv=[] if cv is None else [enc(t) for t in cv] if isinstance(cv, tuple) else [enc(cv)])
                    ret["unmodified"] = type(given) is type(before) and list(given) == list(before)
                    evals, _ = log.take()
                    traces.append([{"op": "reset", "sid": sid}, call,
                                   {"op": "evals", "sid": sid, **evals}, ret])


{"mc": monte_carlo, "tests": tests}[sys.argv[1]]()
write(sys.argv[3], traces)
