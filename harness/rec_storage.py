"""Replays behaviours of Storage.tla on the real storage and records what it answers.

usage: rec_storage.py histories.json out.jsonl scratch_dir
"""

import json
import os
import random
import shutil
import sys

from rectools import clean, guarded, write

from pysatl_criterion.persistence.models.limit_distribution import (
    CriticalValueQuery,
    LimitDistributionModel,
    LimitDistributionQuery,
)
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage

# the last ones agree to 12 digits
PARAMS = [[], [0.0, 1.0], [1.0, 0.0], [0.1], [1 / 3], [0.333333333333], [1e-300, -2.5e17]]
# some contents are rearrangements or beginnings of others
VALUES = {1: [0.5, -1.0, 0.25], 2: [], 3: [2.0, 2.0, 0.0, 1e30], 4: [-1.0, 0.5, 0.25], 5: [0.5, -1.0], 6: [2.0, 0.0, 2.0, 1e30]}


def f32(xs):
    import struct

    return [struct.unpack("<f", struct.pack("<f", x))[0] for x in xs]


LABELS = {tuple(w(v)): k for k, v in VALUES.items() for w in (f32, list)}


def model(r):
    return LimitDistributionModel(
        r["e"], r["c"], list(PARAMS[r["p"]]), r["n"], r["m"], list(VALUES[r["v"]])
    )


def query(q):
    return LimitDistributionQuery(q["c"], list(PARAMS[q["p"]]), q["n"], q["m"])


def rec(m):
    """A returned model as a record of the specification (-1: not a value the history stored)."""
    if m is None:
        return []
    try:
        p = PARAMS.index(m.criterion_parameters)
    except ValueError:
        p = -1
    try:
        v = LABELS.get(tuple(m.results_statistics), -1)
    except TypeError:
        v = -1
    return [{"e": m.experiment_id, "c": clean(m.criterion_code), "p": p, "n": m.sample_size,
             "m": m.monte_carlo_count, "v": v}]


def observe(store, keys):
    out = []
    for k in keys:
        q = {"c": k[0], "p": k[1], "n": k[2], "m": k[3]}
        ok, r = guarded(lambda: rec(store.get_data(query(q))))
        out.append({"q": q, "ok": ok, "r": r if ok else [], "err": "" if ok else clean(r)})
    return out


def touch(keys, r):
    k = (r["c"], r["p"], r["n"], r["m"])
    if k not in keys:
        keys.append(k)


def run(hist, url, hid, with_obs=True):
    objs = {1: AlchemyLimitDistributionStorage(url)}
    objs[1].init()
    memory = ":memory:" in url
    objs[2] = objs[1] if memory else AlchemyLimitDistributionStorage(url)
    reader = objs[1] if memory else AlchemyLimitDistributionStorage(url)
    keys, out = [], [{"op": "reset", "hid": hid}]
    for i, a in enumerate(hist):
        a = dict(a)
        s = objs[a["s"]]
        op = a["op"]
        if op == "put":
            touch(keys, a["rec"])
            ok, r = guarded(lambda: s.insert_data(model(a["rec"])))
        elif op == "del":
            touch(keys, a["q"])
            ok, r = guarded(lambda: s.delete_data(query(a["q"])))
        elif op == "get":
            touch(keys, a["q"])
            ok, r = guarded(lambda: rec(s.get_data(query(a["q"]))))
        elif op == "cv":
            if a["t"] == 0 and i % 2:
                cq = CriticalValueQuery(a["c"], a["n"])
            else:
                cq = CriticalValueQuery(a["c"], a["n"], a["t"])
            ok, r = guarded(lambda: rec(s.get_data_for_cv(cq)))
        elif op == "bulkget":
            args = (list(a["cs"]), a["n"]) if a["t"] == 0 and i % 2 else (list(a["cs"]), a["n"], a["t"])
            ok, r = guarded(lambda: [rec(m)[0] for m in s.get_bulk_data(*args)])
        elif op == "bulk":
            models = [model(b) for b in a["batch"]]
            for b in a["batch"]:
                touch(keys, b)
            if a["bad"]:
                m = models[a["bad"] - 1]
                if a["why"] == "payload":
                    m.results_statistics = [1.0, object()]
                else:
                    m.criterion_parameters = [object()]
            ok, r = guarded(lambda: s.insert_bulk_data(models))
        elif op == "init":
            ok, r = guarded(s.init)
        elif op == "reopen":
            if not memory:
                s.engine.dispose()
                if i % 2:
                    ok, r = guarded(lambda: AlchemyLimitDistributionStorage.create_safe(url))
                    ok = ok and r is not None
                    if ok:
                        objs[a["s"]] = r
                else:
                    objs[a["s"]] = AlchemyLimitDistributionStorage(url)
                    ok, r = True, None
            else:
                ok, r = True, None
        if op in ("get", "cv", "bulkget"):
            a["res"] = r if ok else []
        a["ok"] = ok
        a["err"] = "" if ok else clean(r)
        a["hid"] = hid
        a["i"] = i
        a["obs"] = []
        if with_obs:
            sel = keys if len(keys) <= 8 else keys[-4:] + random.sample(keys[:-4], 4)
            a["obs"] = observe(reader, sel)
        a["cost"] = 2 + len(a["obs"])
        out.append(a)
    if with_obs and not memory:
        last = AlchemyLimitDistributionStorage(url)
        out.append({"op": "end", "hid": hid, "i": len(hist), "ok": True, "err": "", "obs": observe(last, keys if len(keys) < 60 else random.sample(keys, 60))})
        last.engine.dispose()
    for o in [*objs.values(), reader]:
        o.engine.dispose()
    return out


def main():
    hists = json.load(open(sys.argv[1]))
    scratch = sys.argv[3]
    random.seed(7)
    traces = []
    for j, (hid, h) in enumerate(hists):
        if j % 4 == 3:
            traces.append(run(h, "sqlite:///:memory:", hid))
        else:
            d = os.path.join(scratch, f"db{hid}")
            os.makedirs(d)
            try:
                traces.append(run(h, f"sqlite:///{d}/s.sqlite", hid))
            finally:
                shutil.rmtree(d)
    write(sys.argv[2], traces)


if __name__ == "__main__":
    main()
