"""Runs bulk stores with readers, injected faults and crashes at every statement.

usage: rec_atomic.py cases.json out.jsonl scratch_dir
"""

import copy
import json
import os
import shutil
import sys

from rec_storage import PARAMS, VALUES, clean, guarded, model, observe
from rectools import write
from sqlalchemy import event
from sqlalchemy.engine import Engine

from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage

HOOK = {"fn": None}


def _fire(what):
    fn = HOOK["fn"]
    if fn is not None:
        HOOK["fn"] = None  # the reader's own statements do not fire
        try:
            fn(what)
        finally:
            HOOK["fn"] = fn


@event.listens_for(Engine, "before_cursor_execute")
def _before(conn, cursor, statement, parameters, context, executemany):
    _fire("before " + statement.split()[0])


@event.listens_for(Engine, "after_cursor_execute")
def _after(conn, cursor, statement, parameters, context, executemany):
    _fire("after " + statement.split()[0])


@event.listens_for(Engine, "commit")
def _commit(conn):
    _fire("before COMMIT")


def batch_of(case):
    if "range" in case:
        return [{"e": 1, "c": "A", "p": 0, "n": 10, "m": 100 + i, "v": 1} for i in range(1, case["range"] + 1)]
    return case["batch"]


def keys_of(case):
    if "range" in case:
        k = case["range"]
        sel = sorted({1, 2, 50, 100, 101, 256, 500, 501, 1000, k // 2, k - 1, k} & set(range(1, k + 1)))
        return [("A", 0, 10, 100 + i) for i in sel]
    ks = []
    for r in case["pre"] + case["batch"]:
        k = (r["c"], r["p"], r["n"], r["m"])
        if k not in ks:
            ks.append(k)
    return ks


class Injected(Exception):
    pass


def spoil(models, bad):
    pos, why = bad
    models = copy.copy(models)
    m = copy.copy(models[pos])
    if why == "payload":
        m.results_statistics = [1.0, object()]
    elif why == "params":
        m.criterion_parameters = [object()]
    elif why == "null":
        m.criterion_code = None
    else:
        m = None
    models[pos] = m
    return models


def scenario(case, hid, scratch, mode, k, points=None, bad=None):
    """One bulk store; k is the statement point of the fault (or None)."""
    d = os.path.join(scratch, f"a{hid}")
    os.makedirs(d)
    url = f"sqlite:///{d}/s.sqlite"
    keys = keys_of(case)
    tr = [{"op": "reset"}]
    src = {"range": case["range"]} if "range" in case else {"batch": case["batch"]}
    base = {"hid": hid, "mode": mode, "k": -1 if k is None else k}
    try:
        w = AlchemyLimitDistributionStorage(url)
        w.init()
        r = AlchemyLimitDistributionStorage(url)
        for rec in case.get("pre", []):
            w.insert_data(model(rec))
        tr.append({"op": "pre", "batch": case.get("pre", [])})
        tr.append({"op": "begin", **base, **src})
        models = [model(x) for x in batch_of(case)]
        if mode == "bad":
            models = spoil(models, bad)
        count = [0]
        stmts = []

        def hook(what):
            count[0] += 1
            if mode == "read" and (points is None or count[0] in points):
                stmts.append({"op": "stmt", **base, "k": count[0], "what": clean(what), "obs": observe(r, keys)})
            if mode == "inject" and count[0] == k:
                raise Injected("injected fault " + what)
            if mode == "crash" and count[0] == k:
                os._exit(9)

        if mode == "crash":
            w.engine.dispose()
            r.engine.dispose()
            pid = os.fork()
            if pid == 0:
                try:
                    w = AlchemyLimitDistributionStorage(url)
                    HOOK["fn"] = hook
                    w.insert_bulk_data(models)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            again = AlchemyLimitDistributionStorage(url)
            again.init()
            tr.append({"op": "crash", **base, "obs": observe(again, keys)})
            again.engine.dispose()
            return tr, 0
        HOOK["fn"] = hook
        try:
            ok, err = guarded(lambda: w.insert_bulk_data(models), seconds=120)
        finally:
            HOOK["fn"] = None
        tr += stmts
        tr.append({"op": "end", **base, "ok": ok, "err": "" if ok else clean(err), "obs": observe(r, keys)})
        if mode != "read":
            models = [model(x) for x in batch_of(case)]
            ok, err = guarded(lambda: w.insert_bulk_data(models), seconds=120)
            tr.append({"op": "retry", **base, **src, "ok": ok, "err": "" if ok else clean(err), "obs": observe(r, keys)})
        w.engine.dispose()
        r.engine.dispose()
        return tr, count[0]
    finally:
        shutil.rmtree(d)


def main():
    cases = json.load(open(sys.argv[1]))
    scratch = sys.argv[3]
    traces = []
    nid = [0]

    def add(case, mode, k, **kw):
        nid[0] += 1
        tr, n = scenario(case, f"{cid}.{nid[0]}", scratch, mode, k, **kw)
        for e in tr:
            e["cost"] = 1 + len(e.get("obs", ()))
        traces.append(tr)
        return n

    for cid, case in cases:
        if "range" in case:
            size = case["range"]
            n = add(case, "read", None, points=set(range(1, 40)) | set(range(40, 100000, max(1, size // 8))))
            some = sorted({1, 2, 3, n // 3, n // 2, n - 2, n - 1, n} - {0})
            for k in some:
                add(case, "inject", k)
                add(case, "crash", k)
            for why in ("payload", "null", "model"):
                add(case, "bad", None, bad=(size - 1, why))
            continue
        n = add(case, "read", None)
        for k in range(1, n + 1):
            add(case, "inject", k)
            add(case, "crash", k)
        for pos in range(len(case["batch"])):
            for why in ("payload", "params", "null", "model"):
                add(case, "bad", None, bad=(pos, why))
    write(sys.argv[2], traces)


if __name__ == "__main__":
    main()
