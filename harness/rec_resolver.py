"""Replays behaviours of Resolver.tla on the storage-backed resolver.  usage: rec_resolver.py hists out scratch"""

import json
import os
import shutil
import sqlite3
import sys

from rectools import clean, guarded, write
from stubs import make_stat

from pysatl_criterion import DistributionType
from pysatl_criterion.hypothesis_testing.limit_distribution.base import StorageLimitDistributionResolver
from pysatl_criterion.persistence.models.limit_distribution import LimitDistributionModel, LimitDistributionQuery
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage

PARAMS = {0: [], 1: [0.0, 1.0], 2: [1.0, 0.0], 3: [1 / 3], 4: [2.0], 5: [0.333333333333], 11: [0, 1], 14: [2]}
NAMES = {0: [], 1: ["mean", "var"], 2: ["mean", "var"], 3: ["lam"], 4: ["lam"], 5: ["lam"]}
VALUES = {1: [0.5, -1.0, 0.25], 2: [3.0], 3: [2.0, 2.0, 0.0], 4: [1.0, 2.0], 5: [2.0, 1.0],
          6: [float(i) for i in range(300)], 7: [0.5, -1.0], 8: [-0.5]}
LABELS = {tuple(v): k for k, v in VALUES.items()}


def stat(c, p):
    params = dict(zip(NAMES[p % 10], PARAMS[p], strict=True)) if p else (None if c[0] == "K" else {})
    return make_stat("right", dist=DistributionType.NORMAL, params=params, code=c)


def dump(path):
    with sqlite3.connect(path) as db:
        return list(db.iterdump())


def run(hist, path, hid):
    url = f"sqlite:///{path}"
    store = AlchemyLimitDistributionStorage(url)
    store.init()
    resolver = StorageLimitDistributionResolver(store)
    out = [{"op": "reset", "hid": hid, "i": -1}]
    for i, a in enumerate(hist):
        a = dict(a)
        a["same"] = True
        if a["op"] == "put":
            r = a["rec"]
            ok, res = guarded(lambda: store.insert_data(LimitDistributionModel(
                r["e"], r["c"], list(PARAMS[r["p"]]), r["n"], r["m"], list(VALUES[r["v"]]))))
        elif a["op"] == "del":
            q = a["q"]
            ok, res = guarded(lambda: store.delete_data(
                LimitDistributionQuery(q["c"], list(PARAMS[q["p"]]), q["n"], q["m"])))
        else:
            before = dump(path)
            st = stat(a["c"], a["p"])
            ok, res = guarded(lambda: resolver.resolve(st, a["n"]))
            a["same"] = dump(path) == before
            if ok and not (res is None or isinstance(res, list)):
                ok, res = False, "resolved to a " + type(res).__name__
            a["res"] = [] if not ok or res is None else [LABELS.get(tuple(res), -1)]
        a.update(ok=ok, err="" if ok else clean(res), hid=hid, i=i)
        out.append(a)
    store.engine.dispose()
    return out


traces = []
for hid, h in json.load(open(sys.argv[1])):
    d = os.path.join(sys.argv[3], f"db{hid}")
    os.makedirs(d)
    try:
        traces.append(run(h, os.path.join(d, "s.sqlite"), hid))
    finally:
        shutil.rmtree(d)
write(sys.argv[2], traces)
