"""Records payload round trips.  usage: rec_codec.py out.jsonl scratch_dir"""

import json
import os
import random
import sys

import numpy as np
from rectools import SEED, THOROUGH, clean, enc, guarded, write

from pysatl_criterion.persistence.models.limit_distribution import (
    CriticalValueQuery,
    LimitDistributionModel,
    LimitDistributionQuery,
)
from pysatl_criterion.persistence.sqlalchemy.alchemy_decorator import CompressedFloatArray
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage

R = random.Random(SEED)
SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 1 / 3, 16777217.0, 3.4e38, -3.4e38, 1e-30, 1e-40, 2.0**-149,
           1e10 + 1, -123456.789, 65504.0, 1e30, 5e-324 * 0]
INF, NAN = float("inf"), float("nan")


def some(n):
    k = R.randrange(6)
    if k == 0:
        return [R.gauss(0, 1) for _ in range(n)]
    if k == 1:
        return [R.choice(SPECIAL) for _ in range(n)]
    if k == 2:
        return [R.choice([-1, 1]) * 10 ** R.uniform(-30, 30) for _ in range(n)]
    if k == 3:
        return sorted((R.random() for _ in range(n)), reverse=True)
    if k == 4:
        return [float(R.randrange(-3, 4)) for _ in range(n)]
    return [R.random()] * n


def lists():
    out = [SPECIAL, [], [0.0], [-0.0], [1e30, 1e-30], [0.0] * 9, [NAN], [INF, -INF], [1.0, NAN, -2.5, INF, NAN, 0.0, -INF, 3.0]]
    for n in list(range(1, 24)) + [31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001]:
        out.append(some(n))
    for _ in range(400 if THOROUGH else 60):
        out.append(some(R.randrange(0, 60)))
    out.append([R.gauss(0, 1) for _ in range(10_000)])
    out.append([float(i % 1000) / 7 for i in range(66_000)])
    if THOROUGH:
        out.append([R.gauss(0, 1) for _ in range(200_000)])
    return out


def main():
    scratch = sys.argv[2]
    traces = []

    def add(ev):
        ev["cost"] = 1 + len(ev.get("val", ())) // 20
        traces.append([ev])

    url = f"sqlite:///{scratch}/c.sqlite"
    store = AlchemyLimitDistributionStorage(url)
    store.init()
    reader = AlchemyLimitDistributionStorage(url)
    ls = lists()
    for i, xs in enumerate(ls):
        q = LimitDistributionQuery("C", [1.5], 10, i + 1)
        m = LimitDistributionModel(1, "C", [1.5], 10, i + 1, list(xs))
        via = ("get", "cv", "bulk")[i % 3]

        def go():
            if i % 2:
                store.insert_data(m)
            else:
                store.insert_bulk_data([m])
            if via == "get":
                r = reader.get_data(q)
            elif via == "cv":
                r = reader.get_data_for_cv(CriticalValueQuery("C", 10))
            else:
                (r,) = reader.get_bulk_data(["C"], 10)
            return [enc(v) for v in r.results_statistics]

        ok, r = guarded(go)
        add({"op": "round", "via": "storage", "what": f"list {i} of {len(xs)} via {via}", "ok": ok,
             "err": "" if ok else clean(r), "wide": False, "val": [enc(x) for x in xs], "got": r if ok else []})
        ok, same = guarded(lambda: [enc(v) for v in m.results_statistics] == [enc(v) for v in xs])
        if not (ok and same):
            add({"op": "round", "via": "caller", "what": f"caller's list {i} after storing", "ok": True, "err": "",
                 "wide": True, "val": [enc(x) for x in xs], "got": [enc(x) for x in m.results_statistics]})
    # lists far longer than the traces can hold: the length and a selection of the elements are recorded
    for i, n in enumerate([131_073, 262_145, 300_007, 1_100_000] + ([2_097_153, 5_000_000] if THOROUGH else [])):
        xs = [float((k * 2654435761 + i) % 1000003) / 7 - 5e4 for k in range(n)]
        q = LimitDistributionQuery("L", [1.5], 11, i + 1)
        m = LimitDistributionModel(1, "L", [1.5], 11, i + 1, xs)
        at = sorted({k for e in range(22) for k in (2**e - 1, 2**e, 2**e + 1, n - 2**e)} | {0, n - 1, n // 2}
                    | {R.randrange(n) for _ in range(150)})
        at = [k for k in at if 0 <= k < n]

        c32, c64 = CompressedFloatArray(use_float32=True), CompressedFloatArray()
        for via, wide, fn in (
            ("storage", False, lambda: (store.insert_data(m), reader.get_data(q).results_statistics)[1]),
            ("codec32", False, lambda: c32.process_result_value(c32.process_bind_param(xs, None), None)),
            ("codec64", True, lambda: c64.process_result_value(c64.process_bind_param(xs, None), None)),
        ):
            if n > 200_000 and i % 2 == (via == "storage") and not THOROUGH:
                continue
            ok, r = guarded(fn, seconds=120)
            add({"op": "long", "via": via, "what": f"list of {n}", "ok": ok, "err": "" if ok else clean(r), "wide": wide,
                 "n": n, "m": len(r) if ok else 0, "at": at, "val": [enc(xs[k]) for k in at],
                 "got": [enc(r[k]) for k in at if k < len(r)] if ok else []})
    # the codec alone, in both modes
    for wide in (False, True):
        c = CompressedFloatArray(use_float32=not wide)
        other = CompressedFloatArray(use_float32=wide)
        for i, xs in enumerate(ls):
            if len(xs) > 1100 and i % 2 == wide and not THOROUGH:
                continue
            arg = [tuple, list, np.array, list][i % 4](xs)
            # a reader configured the other way still reads what was written
            rd = other if i % 3 == 2 else c
            ok, r = guarded(lambda: [enc(v) for v in rd.process_result_value(c.process_bind_param(arg, None), None)])
            add({"op": "round", "via": "codec64" if wide else "codec32", "what": f"list {i} of {len(xs)}", "ok": ok,
                 "err": "" if ok else clean(r), "wide": wide, "val": [enc(x) for x in xs], "got": r if ok else []})
            if len(xs) < 200:
                text = json.dumps([float(x) for x in xs])
                ok, r = guarded(lambda: [enc(v) for v in c.process_result_value(text, None)])
                add({"op": "round", "via": "legacy-read", "what": f"legacy text {i}", "ok": ok,
                     "err": "" if ok else clean(r), "wide": True, "val": [enc(x) for x in xs], "got": r if ok else []})
                ok, r = guarded(lambda: [enc(v) for v in c.process_result_value(c.process_bind_param(text, None), None)])
                add({"op": "round", "via": "legacy-write", "what": f"legacy text {i}", "ok": ok,
                     "err": "" if ok else clean(r), "wide": wide, "val": [enc(x) for x in xs], "got": r if ok else []})
        for what, fn in (("bind", lambda: c.process_bind_param(None, None)),
                         ("result", lambda: c.process_result_value(None, None))):
            ok, r = guarded(fn)
            add({"op": "none", "what": what, "ok": ok, "isnone": ok and r is None, "err": clean(r)})

        def damaged(kind, what, data):
            exc = ""
            try:
                r, ok = c.process_result_value(data, None), True
            except Exception as ex:  # noqa: BLE001
                ok, r, exc = False, ex, type(ex).__name__
                if isinstance(ex, ValueError):
                    exc = "ValueError"
            add({"op": "damage", "kind": kind, "what": what, "ok": ok, "exc": exc, "err": clean(str(r)[:80])})

        for xs in ([], [1.0], [0.5, -2.0, 3.0], [R.gauss(0, 1) for _ in range(500)]):
            blob = c.process_bind_param(xs, None)
            for k in range(6):
                damaged("header", f"first {k} bytes of {len(xs)} elements", blob[:k])
            for v in [0] + list(range(2, 256, 1 if len(xs) == 3 else 37)):
                damaged("version", f"version byte {v}", bytes([v]) + blob[1:])
            if xs:
                for k in {6, 7, len(blob) - 1, (6 + len(blob)) // 2}:
                    damaged("body", f"first {k} of {len(blob)} bytes", blob[:k])
    write(sys.argv[1], traces)


main()
