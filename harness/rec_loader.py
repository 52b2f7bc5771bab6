"""Replays Loader behaviours on the real loader.

usage: rec_loader.py histories.json out.jsonl scratch_dir
"""

import json
import random
import sys

from rec_storage import clean, guarded, model, observe, query, rec, touch
from rectools import write

from pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader import CriticalValueLoader
from pysatl_criterion.persistence.models.limit_distribution import ILimitDistributionStorage
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage


class Ideal(ILimitDistributionStorage):
    """A storage that is the specification's map itself (ties broken at random)."""

    def __init__(self, rnd):
        self.d = {}
        self.rnd = rnd

    def init(self):
        pass

    @staticmethod
    def key(m):
        return (m.experiment_id, m.criterion_code, tuple(m.criterion_parameters), m.sample_size, m.monte_carlo_count)

    def insert_data(self, m):
        self.d[self.key(m)] = m

    def insert_bulk_data(self, ms):
        for m in ms:
            self.insert_data(m)

    def get_data(self, q):
        k = (q.criterion_code, tuple(q.criterion_parameters), q.sample_size, q.monte_carlo_count)
        c = [m for kk, m in self.d.items() if kk[1:] == k]
        return self.rnd.choice(c) if c else None

    def delete_data(self, q):
        k = (q.criterion_code, tuple(q.criterion_parameters), q.sample_size, q.monte_carlo_count)
        self.d = {kk: m for kk, m in self.d.items() if kk[1:] != k}

    def best(self, code, n, t):
        c = [m for m in self.d.values() if m.criterion_code == code and n - t <= m.sample_size <= n + t]
        top = max((m.monte_carlo_count for m in c), default=None)
        c = [m for m in c if m.monte_carlo_count == top]
        return self.rnd.choice(c) if c else None

    def get_data_for_cv(self, q):
        return self.best(q.criterion_code, q.sample_size, q.sample_size_error)

    def get_bulk_data(self, codes, n, t=0):
        r = [self.best(c, n, t) for c in dict.fromkeys(codes)]
        return [m for m in r if m is not None]


class Failing(ILimitDistributionStorage):
    """Passes everything through; stores fail while `fail` is set."""

    def __init__(self, inner):
        self.inner = inner
        self.fail = False

    def init(self):
        self.inner.init()

    def insert_data(self, m):
        if self.fail:
            raise OSError("injected: disk full")
        self.inner.insert_data(m)

    def insert_bulk_data(self, ms):
        if self.fail:
            raise OSError("injected: disk full")
        self.inner.insert_bulk_data(ms)

    def get_data(self, q):
        return self.inner.get_data(q)

    def delete_data(self, q):
        self.inner.delete_data(q)

    def get_data_for_cv(self, q):
        return self.inner.get_data_for_cv(q)

    def get_bulk_data(self, *a, **k):
        return self.inner.get_bulk_data(*a, **k)


def run(hist, hid):
    rnd = random.Random(hid)
    kind = "real" if hid % 2 else "ideal"
    if kind == "real":
        a, b = (AlchemyLimitDistributionStorage("sqlite:///:memory:") for _ in range(2))
        a.init()
        b.init()
    else:
        a, b = Ideal(rnd), Ideal(rnd)
    local, remote = Failing(a), Failing(b)
    has = hist[0]["has"] or hid % 5 != 0
    loader = CriticalValueLoader(local, remote if has else None)
    out = [{"op": "reset", "has": has, "hid": hid}]
    keys = []
    for i, x in enumerate(hist[1:]):
        ev = dict(x)
        op = x["op"]
        ok, r = True, None
        if op == "fill":
            for r0 in x["rows"]:
                touch(keys, r0)
            (a if x["where"] == "local" else b).insert_bulk_data([model(r0) for r0 in x["rows"]])
        elif op == "putlocal":
            touch(keys, x["rec"])
            a.insert_data(model(x["rec"]))
        elif op == "putremote":
            touch(keys, x["rec"])
            b.insert_data(model(x["rec"]))
        elif op in ("droplocal", "dropremote"):
            (a if op == "droplocal" else b).delete_data(query(x["q"]))
        else:
            local.fail = x["fail"]
            before = list(x["cs"]) if op == "bulk" else None
            if op == "load":
                args = (x["c"], x["n"]) if x["t"] == 0 and i % 2 else (x["c"], x["n"], x["t"])
                ok, r = guarded(lambda: loader.load(*args))
                ev["ans"] = r is True
                if ok and not isinstance(r, bool):
                    ok, r = False, f"answered {r!r}"
            else:
                args = (before, x["n"]) if x["t"] == 0 and i % 2 else (before, x["n"], x["t"])
                ok, r = guarded(lambda: loader.load_bulk(*args))
                ev.update(req=-1, cached=-1, new=-1, missing=[])
                if ok:
                    ev.update(req=r.requested_count, cached=r.already_cached_count, new=r.newly_cached_count,
                              missing=list(r.not_found_codes))
            local.fail = False
        ev.update(ok=ok, err="" if ok else clean(r), hid=hid, i=i, kind=kind)
        seen = keys if len(keys) <= 40 else rnd.sample(keys, 40)
        ev["obsl"] = observe(a, seen)
        ev["obsr"] = observe(b, seen)
        ev["cost"] = 1 + len(keys) // 2
        out.append(ev)
    return out


write(sys.argv[2], [run(h, hid) for hid, h in json.load(open(sys.argv[1]))])
