"""Replays generator sessions on the real generators.  usage: rec_generators.py in.json out.jsonl scratch"""

import json
import random
import sys

import numpy as np
from laws import ROWS, exchanged, random_row
from rectools import SEED, THOROUGH, clean, enc, guarded, write

from pysatl_criterion import DistributionType
from pysatl_criterion.generator import generators as module
from pysatl_criterion.generator.model import AbstractRVSGenerator
from pysatl_criterion.utils.generator import get_available_generator

# the classes, found by what they declare
CLASSES = {}
for c in vars(module).values():
    if isinstance(c, type) and issubclass(c, AbstractRVSGenerator) and c is not AbstractRVSGenerator:
        CLASSES.setdefault(c.distribution_type().value, []).append(c)
RNG = {d: [random_row(d, random.Random(f"{SEED}{d}{k}")) for k in range(5)] for d in ROWS}
TOP = 12000 if THOROUGH else 1500


def row(d, r):
    return {} if r == 0 else ROWS[d][r - 1] if r <= 3 else RNG[d][r - 4] if r <= 8 else exchanged(d)[r - 9]


def reported(g):
    p = g.parameters()
    return {"got": {k: enc(v) for k, v in p.items()}, "gtext": clean(p), "rowtext": clean([str(v) for v in p.values()]),
            "code": str(g.code()), "type": g.distribution_type().value, "err": ""}


BLANK = {"got": {}, "gtext": "", "rowtext": "", "code": "", "type": ""}


def session(sid, steps):
    np.random.seed(SEED * 1000 + sid)
    tr, gens, held = [{"op": "reset", "sid": sid}], [], []

    def draw(o, n, i):
        g, d, what = gens[o - 1]
        ok, v = guarded(lambda: [enc(x) for x in g.generate(n)])
        tr.append({"op": "draw", "sid": sid, "o": o, "d": d, "n": n, "what": what + f" step {i}", "ok": ok, "err": "" if ok else clean(v),
                   "vals": v if ok else [], "cost": 1 + n // 20})

    for i, s in enumerate(steps):
        if s["op"] == "make":
            d, given = s["k"], row(s["k"], s["row"])
            what = clean(f"{d} {given} ({s['via']})")
            arg = {}
            if s["via"] == "class":
                ok, g = guarded(lambda: CLASSES[d][0](**given))
            else:
                arg = dict(given) if given else [None, {}][sid % 2]
                if s["via"] == "registry-extra" and arg is not None:
                    arg["not_a_parameter"] = 3.5
                ok, g = guarded(lambda: get_available_generator(DistributionType(d), arg))
            held.append(arg)
            if ok:
                gens.append((g, d, what))
                ok2, rep = guarded(lambda: reported(g))
                if not ok2:
                    rep = {**BLANK, "err": clean(rep)}
                ok = ok2
            else:
                gens.append((None, d, what))
                rep = {**BLANK, "err": clean(g)}
            tr.append({"op": "make", "sid": sid, "d": d, "what": what, "ok": ok, "defaults": not given,
                       "given": {k: enc(v) for k, v in given.items()},
                       "pieces": [str(DistributionType(d))] + [str(v) for v in given.values()], **rep})
        elif gens[s["o"] - 1][0] is None:
            continue
        elif s["op"] == "draw":
            draw(s["o"], s["n"], i)
        elif s["op"] == "tamper":
            ok, p = guarded(gens[s["o"] - 1][0].parameters)
            for mine in (held[s["o"] - 1], p if ok else None):
                if mine:
                    for q in mine:
                        mine[q] = 0.4375
                    mine["junk"] = 1
            tr.append({"op": "tamper", "sid": sid, "o": s["o"]})
        else:
            g, d, what = gens[s["o"] - 1]
            mk = [e for e in tr if e["op"] == "make"][s["o"] - 1]
            ok, rep = guarded(lambda: reported(g))
            tr.append({**mk, "op": "report", "o": s["o"], "ok": ok, **(rep if ok else {**BLANK, "err": clean(rep)})})
    for o, (g, d, what) in enumerate(gens, start=1):
        if g is not None:
            for n in (1, 7, 40, TOP // 2, TOP // 2):
                draw(o, n, "end")
            tr.append({"op": "law", "sid": sid, "o": o, "d": d, "what": what,
                       "cost": TOP // 20 * (8 if d in ("tukey", "rice") else 1)})
    tr.append({"op": "end", "sid": sid})
    return tr


def many(d, total):
    """Draws total values in calls of changing size; answers how many came and how many of them differ."""
    r = random.Random(f"{SEED}{d}many")
    g, seen, asked = CLASSES[d][0](**ROWS[d][0]), [], 0
    while asked < total:
        n = r.choice([1, 10, 100, 1000, 1000, 5000]) if "con" not in d else r.choice([10, 1000])
        seen.append(np.ravel(g.generate(n)))
        asked += n
    a = np.concatenate(seen)
    return asked, a.size, len(np.unique(a))


fresh = []
for d in ROWS:
    np.random.seed(SEED + 11)
    total = (30000 if "con" in d else 300000) * (4 if THOROUGH else 1)
    ok, r = guarded(lambda: many(d, total))
    fresh.append([{"op": "fresh", "d": d, "ok": ok, "err": "" if ok else clean(r), "asked": r[0] if ok else 0, "drawn": r[1] if ok else 0,
                   "distinct": r[2] if ok else 0, "what": clean(f"{d} {ROWS[d][0]}")}])
write(sys.argv[2], fresh + [session(sid, h) for sid, h in json.load(open(sys.argv[1]))])
