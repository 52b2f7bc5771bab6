"""Draws, for every statistic and several null parameter rows, from the generator its hypothesis names.
usage: rec_calibration.py out.jsonl"""

import random
import sys

import numpy as np
import statcat
from rectools import SEED, THOROUGH, clean, enc, guarded, write

from pysatl_criterion.utils.generator import get_available_generator

N = 2000 if THOROUGH else 500
out = []
for c0, (d, c) in enumerate(statcat.classes()):
    tr = [{"op": "reset"}]
    own = [p for p in statcat.NULL[d] if p in statcat.ctor(c)]
    for k in range(8 if THOROUGH else 3):
        given = statcat.null_row(d, random.Random(f"{SEED}cal{c.__name__}{k}")) if k else {}
        if d == "student" and k % 2:
            given.update(loc=0, scale=1)
        if c.__name__ == "ModeBetaGofStatistic":
            given = {p: v + 1 for p, v in given.items()} or {"alpha": 2, "beta": 3}
        given = {p: v for p, v in given.items() if p in own}
        if k and not given:
            break
        full = {**statcat.standard(d, c), **given}
        np.random.seed((SEED * 7919 + c0 * 31 + k) % 2**31)

        def draw():
            g = get_available_generator(c.distribution(), c(**given).hypothesis().params)
            return g.distribution_type().value, [enc(x) for x in g.generate(N)]

        ok, v = guarded(draw)
        tr.append({"op": "draws", "d": d, "short": str(c.short_code()), "what": clean(f"{c.__name__} {given}"), "n": N, "ok": ok,
                   "given": {p: enc(x) for p, x in full.items()}, "err": "" if ok else clean(v), "dist": v[0] if ok else "",
                   "vals": v[1] if ok else [], "cost": 30})
    out.append(tr)
write(sys.argv[1], out)
