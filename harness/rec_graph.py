"""Evaluates the graph statistics on grid samples from the specification and on drawn samples.
usage: rec_graph.py cases.json out.jsonl"""

import json
import random
import sys

import numpy as np
import statcat
import statplan
from rectools import SEED, THOROUGH, clean, enc, guarded, write

cases = json.load(open(sys.argv[1]))
stats = [(d, c) for d, c in statcat.classes() if str(c.short_code()) in statplan.GRAPH]
r = random.Random(f"{SEED}graph")
out = []


def evaluate(d, c, given, xs, exact, what):
    code = str(c.short_code())
    full = {**statcat.DEFAULT[d], **given}
    form = r.choice(["list", "array", "array"])
    ok, v = guarded(lambda: c(**given).execute_statistic(list(xs) if form == "list" else np.array(xs)))
    err = "" if ok else v
    if ok:
        try:
            v = enc(v)
        except Exception as ex:  # noqa: BLE001
            ok, err = False, f"returned {v!r} ({type(ex).__name__})"
    out.append([{"op": "graph", "d": d, "code": code, "p": {k: enc(x) for k, x in full.items()}, "xs": [enc(x) for x in xs], "exact": exact,
                 "ok": ok, "val": v if ok else [0, 0], "err": clean(err), "txt": clean(f"{c.__name__}({given}) on {what} sample {xs if len(xs) < 12 else len(xs)} as {form}"),
                 "cost": 1 + len(xs)}])


for case in cases:
    xs = [x / case["den"] for x in case["x"]]
    r.shuffle(xs)
    for d, c in stats:
        if d == case["d"]:
            evaluate(d, c, {}, xs, True, "grid")
for d, c in stats:
    own = [q for q in statcat.NULL[d] if q in statcat.ctor(c)]
    for k in range(156 if THOROUGH else 39):
        given = {} if k % 3 == 0 else {q: v for q, v in statcat.null_row(d, random.Random(f"{SEED}g{d}{k}")).items() if q in own}
        full = {**statcat.DEFAULT[d], **given}
        n = [1, 2, 3, 4, 5, 8, 13, 30, 60, 100, 257, 400, 1300 if k % 2 else 2200 if THOROUGH else 640][k % 13]
        kind = statplan.KINDS[k % 6]
        xs = [r.choice([0.5, 2.0, 7.25])] * n if k in (14, 15, 17, 18, 23) else statplan.draw(d, full, n, kind, r)
        evaluate(d, c, given, xs, False, kind)
write(sys.argv[2], out)
