"""Evaluates the statistics of a check's plan.
usage: rec_stats.py PROP out.jsonl"""

import sys

import numpy as np
import statplan
from rectools import clean, enc, guarded, write

prop, path = sys.argv[1], sys.argv[2]


def real(v):
    return enc(v["@"]) if isinstance(v, dict) else v


out = []
for k, (d, code, c, ck, ek, p, o, kind, xs) in enumerate(statplan.plan(prop)):
    sample = np.array(xs) if k % 3 else list(xs)
    ok, v = guarded(lambda: c(**ck).execute_statistic(sample, **ek))
    err = ""
    if ok:
        try:
            v = enc(v)
        except Exception as ex:  # noqa: BLE001
            ok, err = False, f"returned {v!r} ({type(ex).__name__})"
    else:
        err = v
    out.append([{"op": "stat", "d": d, "code": code, "p": {q: enc(x) for q, x in p.items()}, "o": {q: real(x) for q, x in o.items()},
                 "xs": [enc(x) for x in xs], "ok": ok, "val": v if ok else [0, 0], "err": clean(err),
                 "txt": clean(f"{c.__name__}({ck}) {ek if 'censoring_indices' not in ek else 'censored'} on {kind} sample of {len(xs)}"),
                 "cost": 1 + len(xs) * (10 if code in ("BHS", "BICKEL_ROSENBLATT", "KL_SUP", "KL_INT", "EP", "DSP", "HP", "AHS", "RS") else 1)}])
# critical values the Kullback-Leibler tests of log-normality offer for a size and a level
if prop == "T06":
    from pysatl_criterion.statistics.goodness_of_fit import log_normal

    for code, c in (("KL_SUP", log_normal.KLSupremumLogNormalGoFStatistic), ("KL_INT", log_normal.KLIntegralLogNormalGoFStatistic)):
        for n in (5, 10, 20, 21, 37, 50, 90, 100, 250, 1000):
            for a in (0.05, 0.01, 0.001, 0.1, 0.02, 0.025, 0.0499, 0.0501, 0.075, 0.003, 0.0009, 0.1001, 0.0, -0.05, 0.5, 1.0):
                ok, v = guarded(lambda: float(c().calculate_critical_value(n, a)))
                out.append([{"op": "critical", "code": code, "n": n, "a": enc(a), "ok": ok, "val": enc(v) if ok else [0, 0], "xs": [],
                             "exc": "" if ok else v.split(":")[0], "txt": clean(f"{c.__name__}.calculate_critical_value({n}, {a})"), "cost": 1}])
        ok, v = guarded(lambda: float(c().calculate_critical_value(64)))
        out.append([{"op": "critical", "code": code, "n": 64, "a": enc(0.05), "ok": ok, "val": enc(v) if ok else [0, 0], "xs": [],
                     "exc": "" if ok else v.split(":")[0], "txt": clean(f"{c.__name__}.calculate_critical_value(64)"), "cost": 1}])
write(path, out)
