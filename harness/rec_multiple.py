"""Records multiple-testing corrections.  usage: rec_multiple.py what out.jsonl"""

import itertools
import random
import sys

from rectools import SEED, THOROUGH, clean, enc, guarded, write

from pysatl_criterion.hypothesis_testing.multiple_testing.fdr import BenjaminiYekutieli
from pysatl_criterion.hypothesis_testing.multiple_testing.fwer import (
    BonferroniMultipleTesting,
    Holm,
    SidakHolm,
    SidakMultipleTesting,
)

METHODS = {"bonferroni": BonferroniMultipleTesting, "sidak": SidakMultipleTesting, "sidak_holm": SidakHolm,
           "holm": Holm, "by": BenjaminiYekutieli}
R = random.Random(SEED)
traces = []


def lists():
    grid = [0.0, 0.01, 0.04, 0.3, 1.0]
    for n in (0, 1, 2, 3):
        for c in itertools.product(grid, repeat=n):
            yield list(c)
    for _ in range(600 if THOROUGH else 120):
        n = R.choice([2, 3, 4, 5, 6, 10, 20, 50])
        k = R.randrange(6)
        if k == 0:
            yield [R.random() for _ in range(n)]
        elif k == 1:
            yield [10 ** R.uniform(-320, 0) for _ in range(n)]
        elif k == 2:
            yield [R.choice([0.0, 1.0, 0.5, 0.05, 1e-17, 1e-300]) for _ in range(n)]
        elif k == 3:
            yield [R.random() ** 4 for _ in range(n)]
        elif k == 4:
            yield sorted((R.random() * 0.1 for _ in range(n)), reverse=True)
        else:
            yield [1 - 10 ** R.uniform(-17, -1) for _ in range(n)]
    for _ in range(3):
        yield [R.random() ** 3 for _ in range(1000)]


def big():
    for n in (9999, 10000, 10001, 12000):
        yield [0.5 / n] * n
        yield [R.random() / n for _ in range(n)]


def order(p):
    return [i + 1 for i in sorted(range(len(p)), key=lambda i: p[i])]


def adjust_event(m, p):
    arg = list(p)
    ok, r = guarded(lambda: [enc(v) for v in METHODS[m].adjust(arg)])
    return {"op": "adjust", "m": m, "p": [enc(v) for v in p], "ord": order(p), "ok": ok, "err": "" if ok else clean(r),
            "adj": r if ok else [], "unmod": arg == p, "cost": 1 + len(p) // 10}


def test_event(m, p, thr, default=False):
    arg, exc = list(p), ""
    try:
        rej, adj = METHODS[m].test(arg) if default else METHODS[m].test(arg, thr)
        ok, err, rej, adj = True, "", [bool(v) for v in rej], [enc(v) for v in adj]
    except Exception as ex:  # noqa: BLE001
        ok, err, rej, adj = False, clean(ex), [], []
        exc = "ValueError" if isinstance(ex, ValueError) else type(ex).__name__
    same = len(arg) == len(p) and all(a is b or a == b for a, b in zip(arg, p, strict=True))
    return {"op": "test", "m": m, "p": [enc(v) for v in p], "thr": enc(thr), "ok": ok, "err": err, "exc": exc,
            "rej": rej, "adj": adj, "unmod": same, "cost": 1 + len(p) // 10}


def values(methods):
    for m in methods:
        for p in lists():
            traces.append([adjust_event(m, p)])
        if m == "by":
            for p in big():
                traces.append([adjust_event(m, p)])


def decisions():
    for m in METHODS:
        for p in lists():
            if len(p) == 3 and R.random() < 0.6 and not THOROUGH:
                continue
            a = adjust_event(m, p)
            tr = [a, test_event(m, p, 0.05, default=True)]
            exact = METHODS[m].adjust(list(p)) if a["ok"] and p else []
            for thr in {0.0, 0.05, 0.2, 1.0, *([R.choice(exact)] if exact else [])}:
                tr.append(test_event(m, p, float(thr)))
            for _ in range(2 if len(p) > 1 else 0):
                perm = R.sample(range(len(p)), len(p))
                ok, r = guarded(lambda: [enc(v) for v in METHODS[m].adjust([p[i] for i in perm])])
                tr.append({"op": "perm", "m": m, "perm": [i + 1 for i in perm], "ok": ok, "err": "" if ok else clean(r),
                           "adj": r if ok else [], "cost": 1 + len(p) // 10})
            traces.append(tr)
        for bad in (-1e-300, -0.1, 1 + 2.0**-52, 2.0, 1e300, float("inf"), float("-inf"), float("nan"), -5e-324):
            for n in (1, 2, 5, 30):
                for pos in {0, n // 2, n - 1}:
                    p = [R.random() for _ in range(n)]
                    p[pos] = bad
                    traces.append([test_event(m, p, R.choice([0.05, 0.5, 1.0]))])


{"single": lambda: values(["bonferroni", "sidak", "sidak_holm"]), "step": lambda: values(["holm", "by"]),
 "decisions": decisions}[sys.argv[1]]()
write(sys.argv[2], traces)
