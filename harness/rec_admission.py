"""Puts constructor calls and samples to every statistic of their family and records what becomes of them.
usage: rec_admission.py cases.json out.jsonl"""

import json
import math
import random
import sys

import numpy as np
import statcat
import statplan
from rectools import SEED, THOROUGH, clean, enc, guarded, write

cases = json.load(open(sys.argv[1]))
TOK = {"neg": -1.5, "negtiny": -5e-324, "negzero": -0.0, "zero": 0.0, "tiny": 5e-324, "below1": math.nextafter(1, 0), "one": 1.0, "above1": math.nextafter(1, 2),
       "big": 1e300, "negbig": -1e300}


def outcome(ok, v):
    if not ok:
        return "refused" if v.startswith("ValueError") else "raised"
    if v is None:
        return "none"
    try:
        v = float(v)
    except Exception:  # noqa: BLE001
        return "raised"
    return "nan" if math.isnan(v) else "inf" if math.isinf(v) else "number"


out = []
for d, c in statcat.classes():
    code = str(c.short_code())
    own = set(statcat.ctor(c))
    for k, e in enumerate(cases):
        if e["d"] != d:
            continue
        base = {"op": e["op"], "d": d, "code": code, "o": {}, "p": {}, "xs": []}
        if e["op"] == "ctor":
            p = {q: TOK[t] for q, t in e["p"].items() if q in own}
            if not p or set(e["p"]) - own - {"scale", "loc"}:
                continue
            if k % 2:  # integers as well as floats
                p = {q: int(v) if v in (0, 1) and math.copysign(1, v) > 0 else v for q, v in p.items()}
            ok, v = guarded(lambda: c(**p))
            res = "built" if ok else "refused" if v.startswith("ValueError") else "raised"
            out.append([{**base, "p": {q: enc(float(v2)) for q, v2 in p.items()}, "out": res, "txt": clean(f"{c.__name__}({p}): {'built' if ok else v}")}])
        elif e["op"] == "opt":
            kw = {"bins": e["bins"]} if "bins" in e else {"test_type": e["type"]}
            name = next(iter(kw))
            if name not in own or (name == "bins" and d != "gamma"):
                continue
            ok, v = guarded(lambda: c(**kw))
            res = "built" if ok else "refused" if v.startswith("ValueError") else "raised"
            full = {q: enc(float(v2)) for q, v2 in statcat.standard(d, c).items()}
            out.append([{**base, "p": full, "o": {("type" if name == "test_type" else name): kw[name]}, "out": res,
                         "txt": clean(f"{c.__name__}({kw}): {'built' if ok else v}")}])
        else:
            n, pos, mark = e["n"], e["pos"], e["mark"]
            for row in range(4 if THOROUGH else 2):
                r = random.Random(f"{SEED}{c.__name__}{k}{row}")
                given, full = statplan.rows(d, c, row)
                if d == "student" and code == "LILLIE":
                    full.update(loc=0, scale=1)
                xs = statplan.draw(d, full, n, "null", r)
                if mark == "equal":
                    xs = xs[:1] * n
                lo, hi = (full["a"], full["b"]) if d == "uniform" else (0.0, 1.0)
                if pos:
                    xs[pos - 1] = {"farbelow": lambda: lo - 10 * (hi - lo), "below": lambda: math.nextafter(lo, -math.inf), "lo": lambda: lo,
                                   "abovelo": lambda: lo + 1e-9 * (hi - lo), "belowhi": lambda: hi - 1e-9 * (hi - lo), "hi": lambda: hi,
                                   "above": lambda: math.nextafter(hi, math.inf), "farabove": lambda: hi + 10 * (hi - lo),
                                   "neg": lambda: -abs(xs[pos - 1]), "negtiny": lambda: -1e-300, "zero": lambda: 0.0, "tiny": lambda: 1e-9}[mark]()
                sample = np.array(xs, dtype=float) if (k + row) % 2 else list(xs)
                ok, v = guarded(lambda: c(**given).execute_statistic(sample))
                out.append([{**base, "p": {q: enc(v2) for q, v2 in full.items()}, "xs": [enc(x) for x in xs], "out": outcome(ok, v),
                             "txt": clean(f"{c.__name__}({given}) on {n} values, number {pos} {mark}: {v}")}])
write(sys.argv[2], out)
