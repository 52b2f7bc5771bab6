"""Replays evaluation sessions.  usage: rec_session.py in.json out.jsonl scratch"""

import hashlib
import json
import math
import random
import sys

import numpy as np
import statcat
import statplan
from rectools import SEED, clean, enc, guarded, write

src, path = sys.argv[1], sys.argv[2]


def schedule():
    """Groups of three configurations of one family with common null parameters: [(family, full null parameters, [(class, ctor, call)])]."""
    out = []
    fams = {}
    for d, c in statcat.classes():
        fams.setdefault(d, []).append(c)
    for k in range(2):
        for d, cs in fams.items():
            r = random.Random(f"{SEED}session{d}{k}")
            cs = sorted(cs, key=lambda c: c.__name__)
            r.shuffle(cs)
            for j in range(0, len(cs), 3):
                three = [cs[(j + i) % len(cs)] for i in range(3)]
                null = {} if k == 0 else statplan.rows(d, max(three, key=lambda c: len(statcat.ctor(c))), j + 1)[0]
                if d == "beta":
                    null = {q: v + 1 for q, v in null.items()}
                confs = []
                for c in three:
                    opts = statplan.options(d, str(c.short_code()), None)
                    ck, ek, _ = opts[(k * (1 + j)) % len(opts)]
                    confs.append((c, {**{q: v for q, v in null.items() if q in statcat.ctor(c)}, **ck}, ek))
                out.append((d, {**statcat.DEFAULT[d], **null}, confs))
                if d == "uniform":
                    ends = {"a": 0, "b": [100, 256, 2**12, 2**16, 2**31, 2**32, 10**15][(k + j) % 7]}
                    out.append((d, ends, [(c, {**ck, **ends}, ek) for c, ck, ek in confs]))
    return out


def looks(x):
    """Type, element types and elements of a sample."""
    if isinstance(x, np.ndarray):
        return hashlib.sha1(f"{x.dtype}{x.shape}{x.strides}{x.flags.writeable}".encode() + x.tobytes()).hexdigest()[:16]
    return hashlib.sha1(repr((type(x).__name__, [(type(v).__name__, float(v).hex()) for v in x])).encode()).hexdigest()[:16]


def ordered(xs, o):
    if o == 0:
        return list(xs)
    if o in (1, 2):
        return sorted(xs, reverse=o == 2)
    ys = list(xs)
    random.Random(o).shuffle(ys)
    return ys


def whole(d, p, n, r, distinct):
    """A sample of whole numbers in the bulk of the null law, or None where the law has too few of them."""
    u = r.uniform
    z = {"normal": lambda: p["mean"] + math.sqrt(p["var"]) * u(-4, 4), "student": lambda: p["loc"] + p["scale"] * u(-4, 4),
         "exponential": lambda: u(0.5, 6) / p["lam"], "gamma": lambda: p["alpha"] / p["beta"] * u(0.3, 3),
         "log_normal": lambda: p["scale"] * math.exp(p["s"] * u(-2, 2))}.get(d)
    if z is None:
        return None
    low = -math.inf if d in ("normal", "student") else 1
    xs = [float(max(low, round(z()))) for _ in range(n)]
    return None if len(set(xs)) < (n if distinct else min(n, 5)) else xs


def wide(d, p, n, r, confs):
    """Distinct whole numbers up to a bound near the range of a machine type, on which the float arrays have finite values, or None."""
    if d == "beta" or d == "uniform" and p["b"] < 100:
        return None
    bound = int(p["b"]) - 1 if d == "uniform" else r.choice([20, 40, 120, 600, 10**4, 2 * 10**9, 10**15])
    xs = [float(x) for x in r.sample(range(1, bound + 1), min(n, bound // 2))]
    for c, ck, ek in confs:
        ok, v = guarded(lambda c=c, ck=ck, ek=ek: float(c(**ck).execute_statistic(np.array(xs), **ek)))
        if not ok or not math.isfinite(v):
            return None
    return xs


def machine(xs, unsigned):
    """The smallest integer type that holds the numbers and the sum of their squares, or the largest type."""
    types, low, high = (("uint8", "uint16", "uint32", "uint64") if unsigned and min(xs) >= 0 else ("int8", "int16", "int32", "int64")), min(xs), sum(x * x for x in xs)
    return next((t for t in types if np.iinfo(t).min <= low and high <= np.iinfo(t).max), types[-1])


INTEGERS = ("numbers", "integers", "narrow", "unsigned")


def container(xs, k):
    integral = k in INTEGERS and all(float(x).is_integer() for x in xs)
    if k in ("narrow", "unsigned") and integral:
        return np.array([int(x) for x in xs], dtype=machine(xs, k == "unsigned"))
    if k == "numbers" and integral:
        return [int(x) for x in xs]
    if k in ("list", "numbers"):
        return list(xs)
    if k == "tuple":
        return tuple(xs)
    a = np.array(xs, dtype=int if integral else float)
    if k == "readonly":
        a.flags.writeable = False
    if k == "strided":
        b = np.full(2 * len(xs), 0.5)
        b[::2] = a
        a = b[::2]
    return a


GROUPS = schedule()
out = []
for sid, steps in json.load(open(src)):
    d, full, confs = GROUPS[sid % len(GROUPS)]
    r = random.Random(f"{SEED}s{sid}")
    codes = [str(c.short_code()) for c, _, _ in confs]
    lo = max([statplan.minimum(d, c) for c in codes] + [6])
    hi = max(lo, min(statplan.MAX.get((d, c), 40) for c in codes))
    kinds = ["null", "uniform", "skewed", "heavy", "shifted", "null"] + ([] if any((d, c) in statplan.NO_TIES for c in codes) else ["ties"] * 3)
    contents = {}
    for x in range(1, 5):
        kind = r.choice(kinds)
        n = r.randint(lo, min(hi, 30)) if x % 2 else len(contents[x - 1][1])
        contents[x] = (kind, statplan.draw(d, full, n, kind, r))
        numbers = whole(d, full, n, r, "ties" not in kinds) if x >= 3 else None
        if numbers:
            contents[x] = ("whole", numbers)
        numbers = wide(d, full, n, r, confs) if x == 2 or x == 4 and sid % 2 else None
        if numbers and len(numbers) == n:
            contents[x] = ("wide", numbers)
    tr, objs, heap = [{"op": "reset", "sid": sid}], [], []
    made, held = [s["c"] for s in steps if s["op"] == "make"], sum(s["op"] == "sample" for s in steps)
    for c in sorted(set(made)):  # the sample an object has just seen is overwritten in place
        o, form = made.index(c) + 1, r.choice(["array", "array", "list"])
        steps = [*steps, {"op": "sample", "x": 1, "o": 0, "k": form}, {"op": "sample", "x": 2, "o": 0, "k": form},
                 {"op": "eval", "o": o, "i": held + 2}, {"op": "eval", "o": o, "i": held + 1}, {"op": "over", "i": held + 1, "x": 2, "o": 0},
                 {"op": "eval", "o": o, "i": held + 1}, {"op": "over", "i": held + 1, "x": 1, "o": 3}, {"op": "eval", "o": o, "i": held + 1}]
        held += 2
        for x in (2, 4):  # the same whole numbers in every form
            if contents[x][0] == "wide":
                for i, form in enumerate(("array", "integers", "narrow", "unsigned", "numbers")):
                    steps += [{"op": "sample", "x": x, "o": 0, "k": form}, {"op": "eval", "o": o, "i": held + i + 1}]
                held += 5
    for st in steps:
        if st["op"] == "make":
            c, ck, ek = confs[st["c"] - 1]
            objs.append((st["c"], c, ck, *guarded(lambda: c(**ck)), ek))
        elif st["op"] == "sample":
            x = container(ordered(contents[st["x"]][1], st["o"]), st["k"])
            heap.append([x, st["x"], st["o"], st["k"]])
            tr.append({"op": "sample", "looks": looks(x)})
        elif st["op"] == "over":
            h = heap[st["i"] - 1]
            xs = ordered(contents[st["x"]][1], st["o"])
            if isinstance(h[0], list):
                h[0][:] = container(xs, h[3])
            elif len(xs) == len(h[0]) and h[3] not in INTEGERS:
                h[0][:] = xs
            else:  # an array cannot change its length or type
                h[0] = container(xs, h[3])
            h[1], h[2] = st["x"], st["o"]
            tr.append({"op": "over", "i": st["i"], "looks": looks(h[0])})
        else:
            cid, c, ck, made, obj, ek = objs[st["o"] - 1]
            x, cont, order, kind = heap[st["i"] - 1]
            ok, v = guarded(lambda: obj.execute_statistic(x, **ek)) if made else (False, obj)
            err = "" if ok else v
            if ok:
                try:
                    v = enc(v)
                except Exception as ex:  # noqa: BLE001
                    ok, err = False, f"returned {v!r} ({type(ex).__name__})"
            tr.append({"op": "eval", "d": d, "code": str(c.short_code()), "ok": ok, "val": v if ok else [0, 0], "err": clean(err),
                       "exact": f"{cid}/{cont}/{order}/{kind}", "memo": f"{cid}/{cont}", "heap": [looks(h[0]) for h in heap],
                       "txt": clean(f"{c.__name__}({ck}) on {kind} of {len(x)} ({contents[cont][0]}, order {order})")})
    out.append(tr)
write(path, out)
