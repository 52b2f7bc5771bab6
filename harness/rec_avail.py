"""Replays Avail behaviours: opening storages while databases break and recover.

usage: rec_avail.py histories.json out.jsonl scratch_dir
"""

import json
import os
import shutil
import sqlite3
import sys

from rectools import clean, guarded, write

from pysatl_criterion.persistence.models.limit_distribution import (
    CriticalValueQuery,
    LimitDistributionModel,
    LimitDistributionQuery,
)
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as S


def m(v):
    return LimitDistributionModel(1, "C", [0.5], 10, v, [float(v), 2.0])


def q(v):
    return LimitDistributionQuery("C", [0.5], 10, v)


def probe(s):
    """Every operation once, leaving the content as it was."""
    p = LimitDistributionModel(7, "PROBE", [], 3, 1, [1.0])
    pq = LimitDistributionQuery("PROBE", [], 3, 1)
    s.insert_data(p)
    assert s.get_data(pq) is not None, "lookup of the probe"
    assert s.get_data_for_cv(CriticalValueQuery("PROBE", 3)) is not None, "cv query of the probe"
    s.delete_data(pq)
    s.insert_bulk_data([p])
    assert len(s.get_bulk_data(["PROBE"], 3)) == 1, "bulk query of the probe"
    s.delete_data(pq)
    assert s.get_data(pq) is None, "deleted probe"


def values(s):
    out = []
    for v in range(1, 5):
        r = s.get_data(q(v))
        if r is not None:
            out.append(v if list(r.results_statistics) == [float(v), 2.0] else -v)
    return out


def run(hist, hid, d):
    paths = {"file": os.path.join(d, "one.sqlite"), "file2": os.path.join(d, "two.sqlite")}
    os.makedirs(os.path.join(d, "directory"))
    with open(os.path.join(d, "garbage.bin"), "wb") as f:
        f.write(b"this is not a database, " * 200)
    ro = sqlite3.connect(os.path.join(d, "ro.sqlite"))
    ro.execute("create table other (x)")
    ro.commit()
    ro.close()
    lock = sqlite3.connect(os.path.join(d, "locked.sqlite"), isolation_level=None)
    lock.execute("create table other (x)")
    lock.execute("begin exclusive")
    urls = {
        "file": f"sqlite:///{paths['file']}",
        "file2": f"sqlite:///{paths['file2']}?timeout=3",
        "memory": "sqlite:///:memory:",
        "missingdir": f"sqlite:///{d}/no/such/dir/x.sqlite",
        "isdir": f"sqlite:///{d}/directory",
        "garbage": f"sqlite:///{d}/garbage.bin",
        "badscheme": "nosuchdb://localhost/x",
        "nodriver": "mysql+pymysql://u:p@localhost/x",
        "malformed": "not a connection string",
        "empty": "",
        "notastring": None,
        "refused": "postgresql+psycopg2://u:p@127.0.0.1:1/x?connect_timeout=1",
        "readonly": f"sqlite:///file:{d}/ro.sqlite?mode=ro&uri=true",
        "locked": f"sqlite:///{d}/locked.sqlite?timeout=0.05",
    }
    objs = {}
    broken = {}
    out = [{"op": "reset"}]

    def see(i):
        for t in ("file", "file2"):
            if t in broken or not os.path.exists(paths[t]):
                continue

            def go():
                con = sqlite3.connect(paths[t])
                has = con.execute("select count(*) from sqlite_master").fetchone()[0]
                con.close()
                if not has:
                    return []
                r = S(urls[t])
                try:
                    return values(r)
                finally:
                    r.engine.dispose()

            ok, r = guarded(go)
            out.append({"op": "see", "hid": hid, "i": i, "t": t, "vals": r if ok else [-99], "err": "" if ok else clean(r)})
        if "memory" in objs:
            ok, r = guarded(lambda: values(objs["memory"]))
            out.append({"op": "see", "hid": hid, "i": i, "t": "memory", "vals": r if ok else [-99], "err": "" if ok else clean(r)})

    for i, a in enumerate(hist):
        op, t = a["op"], a["t"]
        ev = {"op": op, "hid": hid, "i": i, "t": t, "v": a["v"], "err": "", "probe": "ok", "out": ""}
        if op == "create":
            if t == "memory" and "memory" in objs:
                # every in-memory storage is its own database: re-initialise the existing one
                ok, r = guarded(objs["memory"].init)
                r = objs["memory"] if ok else r
            else:
                ok, r = guarded(lambda: S.create_safe(urls[t], "label") if i % 2 else S.create_safe(urls[t]))
            ev["out"] = ("storage" if isinstance(r, S) else "nothing" if r is None else "other") if ok else "raised"
            ev["err"] = "" if ok else clean(r)
            if ev["out"] == "storage":
                if objs.get(t) is not None and objs[t] is not r:
                    objs[t].engine.dispose()
                objs[t] = r
                ok, e = guarded(lambda: probe(r))
                ev["probe"] = "ok" if ok else clean(e)
            elif t in objs:
                objs[t].engine.dispose()
                del objs[t]
        elif op == "init":
            try:
                if t not in objs:
                    objs[t] = S(urls[t])
                s = objs[t]
                s.init()
                ev["out"] = "ok"
                ok, e = guarded(lambda: probe(s))
                ev["probe"] = "ok" if ok else clean(e)
            except ConnectionError as ex:
                ev["out"], ev["err"] = "ConnectionError", clean(ex)
            except Exception as ex:  # noqa: BLE001
                # a string no storage object can even be constructed for is not an init failure
                made = t in objs
                ev["out"], ev["err"] = ("raised" if made else "ConnectionError"), clean(ex)
            if ev["out"] != "ok" and t in objs and t not in paths:
                objs.pop(t).engine.dispose()
        elif op == "put":
            ok, r = guarded(lambda: objs[t].insert_data(m(a["v"])))
            ev["out"], ev["err"] = ("ok", "") if ok else ("raised", clean(r))
        elif op == "break":
            if t in objs:
                objs[t].engine.dispose()
            p = paths[t]
            if os.path.exists(p):
                os.rename(p, p + ".kept")
            broken[t] = a["v"]
            if a["v"] == 1:
                with open(p, "wb") as f:
                    f.write(b"garbage garbage " * 400)
            elif a["v"] == 2:
                os.makedirs(p)
            else:
                with open(p, "wb") as f:
                    f.write(b"SQLite format 3\x00" + b"\xff" * 900)
        elif op == "repair":
            p = paths[t]
            if t in objs:
                objs[t].engine.dispose()
            if os.path.isdir(p):
                os.rmdir(p)
            elif os.path.exists(p):
                os.remove(p)
            if os.path.exists(p + ".kept"):
                os.rename(p + ".kept", p)
            del broken[t]
        out.append(ev)
        see(i)
    for o in objs.values():
        o.engine.dispose()
    lock.close()
    return out


def main():
    traces = []
    for hid, h in json.load(open(sys.argv[1])):
        d = os.path.join(sys.argv[3], f"v{hid}")
        os.makedirs(d)
        try:
            traces.append(run(h, hid, d))
        finally:
            shutil.rmtree(d)
    write(sys.argv[2], traces)


main()
