"""usage: rec_descriptors.py out.jsonl"""

import inspect
import random
import sys

import numpy as np
from rectools import SEED, clean, enc, guarded, write

from pysatl_criterion import DistributionType
from pysatl_criterion.distribution.distributions import DistributionDescriptor
from pysatl_criterion.utils.distribution import get_available_distribution_descriptor
from pysatl_criterion.utils.generator import get_available_generator


def subs(c):
    out = set()
    for k in c.__subclasses__():
        out |= subs(k) | {k}
    return out


r = random.Random(SEED)
tiny = 5e-324
VALUES = [0, 1, -1, 2, 0.0, -0.0, 1.0, 0.5, tiny, -tiny, 2.2250738585072014e-308, -1e-300, 1e-16, -1e-16, np.nextafter(1, 2), np.nextafter(1, 0),
          np.nextafter(0, -1), 1.7e308, -1.7e308, float("inf"), float("-inf"), float("nan"), True, False, 10**15, -(10**15),
          np.float64(0.25), np.float64(-0.25), np.float64(1.5), np.float32(0.1), np.float32(-0.1), np.int64(3), np.int64(-3), np.int64(0), np.int32(1)]
VALUES += [r.uniform(-2, 2) for _ in range(60)] + [r.choice([-1, 1]) * 10 ** r.uniform(-310, 300) for _ in range(60)]
T = [[{"op": "types", "list": [str(x) for x in DistributionType.list()], "members": [m.value for m in DistributionType],
       "lookup": [DistributionType(v).value for v in DistributionType.list()], "distinct": len({m for m in DistributionType}) == len(list(DistributionType))}]]
for m in DistributionType:
    d = m.value
    n = sum(1 for c in subs(DistributionDescriptor) if not inspect.isabstract(c) and c.type() == m)

    def desc():
        x = get_available_distribution_descriptor(m)
        return x, x.parameters()

    ok, v = guarded(desc)
    if not ok:
        T.append([{"op": "desc", "d": d, "ok": False, "err": clean(v)}])
        continue
    x, ps = v

    def draw():
        g = get_available_generator(m, {p.name: p.default for p in ps})
        s = g.generate(50)
        if len(s) != 50 or not np.all(np.isfinite(np.asarray(s, dtype=float))):
            raise ValueError("draws are not 50 finite numbers")

    np.random.seed(SEED)
    dok, dv = guarded(draw)
    tr = [{"op": "desc", "d": d, "ok": True, "err": "", "classes": n, "type": x.type().value, "names": [p.name for p in ps],
           "again": [p.name for p in get_available_distribution_descriptor(m).parameters()], "draws": dok, "derr": "" if dok else clean(dv)}]
    for p in ps:
        def verdict(v, p=p):
            if p.validator is None:
                return "yes"
            ok, a = guarded(p.validator, v)
            return ("yes" if bool(a) else "no") if ok else "raised " + clean(a)

        tr.append({"op": "param", "d": d, "name": p.name, "default": enc(p.default if p.default is not None else float("nan")),
                   "labelled": bool(p.display_name) and bool(p.description), "validated": p.validator is not None,
                   "vals": [{"x": enc(v), "text": clean(repr(v))} for v in VALUES], "accepted": [verdict(v) for v in VALUES]})
    T.append(tr)
write(sys.argv[1], T)
