"""Evaluates statistics on samples and on transformed samples, and records the hypotheses they state.
usage: rec_groups.py composite|simple table.json out.jsonl"""

import json
import random
import sys

import numpy as np
import statcat
import statplan
from rectools import SEED, THOROUGH, clean, enc, guarded, write

from pysatl_criterion.statistics.alternative import AlternativeType

mode, table, path = sys.argv[1:4]
rows = {(x["d"], x["c"]): x for x in json.load(open(table)) if x["composite"] == (mode == "composite")}
FLIP = {AlternativeType.RIGHT: AlternativeType.LEFT, AlternativeType.LEFT: AlternativeType.RIGHT}
COUNTING = {"AHS", "DSP", "HP", "RS"}
HALF = {"exponential", "gamma", "weibull", "log_normal"}


def real(v):
    return enc(v["@"]) if isinstance(v, dict) else v


def transform(d, code, kind, simple, dyadic, r, extreme=0):
    if kind == "affine" and not simple and extreme:
        return {"kind": kind, "a": 2.0 ** (extreme * r.choice([33, 45, 60])), "b": 0.0}
    if kind == "affine":
        a = 2.0 ** r.randint(-6, 6) if dyadic or code in COUNTING else 10 ** r.uniform(-2, 2)
        b = 0.0 if d in HALF else r.randint(-40, 40) / 4 if dyadic else round(r.uniform(-20, 20) * a, 3)
        return {"kind": kind, "a": a, "b": b}
    if kind == "power":
        return {"kind": kind, "a": r.uniform(0.6, 1.8), "b": 1.0 if d == "weibull" and simple else 10 ** r.uniform(-0.7, 0.7)}
    return {"kind": kind, "a": 1.0, "b": 0.5 if d == "beta" else round(r.uniform(-3, 3), 2)}


def act_x(t, x):
    return t["a"] * x + t["b"] if t["kind"] == "affine" else t["b"] * x ** t["a"] if t["kind"] == "power" else 2 * t["b"] - x


def act_p(d, t, p):
    a, b = t["a"], t["b"]
    if t["kind"] == "affine":
        return {"normal": lambda: {"mean": a * p["mean"] + b, "var": a * a * p["var"]}, "exponential": lambda: {"lam": p["lam"] / a},
                "uniform": lambda: {"a": a * p["a"] + b, "b": a * p["b"] + b}, "gamma": lambda: {"alpha": p["alpha"], "beta": p["beta"] / a},
                "student": lambda: {"df": p["df"], "loc": a * p["loc"] + b, "scale": a * p["scale"]}}[d]()
    if t["kind"] == "power":
        return {"log_normal": lambda: {"s": a * p["s"], "scale": b * p["scale"] ** a}, "weibull": lambda: {"a": p["a"], "k": p["k"] / a}}[d]()
    return {"normal": lambda: {"mean": 2 * b - p["mean"], "var": p["var"]}, "student": lambda: {"df": p["df"], "loc": 2 * b - p["loc"], "scale": p["scale"]},
            "uniform": lambda: {"a": 2 * b - p["b"], "b": 2 * b - p["a"]}, "beta": lambda: {"alpha": p["beta"], "beta": p["alpha"]}}[d]()


out = []
for d, c in statcat.classes():
    code = str(c.short_code())
    own = [q for q in statcat.NULL[d] if q in statcat.ctor(c)]
    opts = statplan.options(d, code, None)
    row = rows.get((d, code))
    for j in range(((40 if THOROUGH else 8) + 2 * len(opts)) if row else 0):
        r = random.Random(f"{SEED}{mode}{c.__name__}{j}")
        kind = row["kinds"][j % len(row["kinds"])]
        ck, ek, spec = opts[(j // len(row["kinds"])) % len(opts)]
        given, full = statplan.rows(d, c, 1 + j % 5) if mode == "simple" else statplan.rows(d, c, 0)
        if d == "weibull" and mode == "composite":
            full = {"a": 1, "k": 1.5}
        shape = statplan.KINDS[(j + len(code)) % 6]
        binned = code.startswith("CHI2") or code in ("G_TEST", "CRESSIE_READ")
        if shape == "ties" and ((d, code) in statplan.NO_TIES or binned or kind != "affine" or mode == "simple" and d == "uniform"):
            shape = "null"
        n = statplan.sizes(d, code, j)
        xs = statplan.draw(d, full, n, shape, r)
        # every fourth transformation is a tiny scaling, every fourth a huge one
        t = transform(d, code, kind, mode == "simple", shape == "ties", r, (0, -1, 0, 1)[j // len(row["kinds"]) % 4])
        if code == "KL" and ek.get("m", 0) > n // 2 or code in ("HM", "GD") and ek.get("r", 0) * 2 >= n:
            ek = {}
        ck2, ek2 = dict(ck), dict(ek)
        if kind == "reflect" and ck.get("alternative_type") in FLIP:
            ck2["alternative_type"] = FLIP[ck["alternative_type"]]
        if (d, code) == ("uniform", "CENSORED_STEIN_U"):
            ek = ek2 = {"censoring_indices": np.array([int(r.random() < 0.3) for _ in xs])} if j % 2 else {}
        xs2 = [act_x(t, x) for x in xs]
        p2 = act_p(d, t, full) if mode == "simple" else full
        given2 = {q: p2[q] for q in own} if mode == "simple" else given
        given1 = {q: full[q] for q in own} if mode == "simple" else given

        def value(g, k, x, e):
            ok, v = guarded(lambda: c(**g, **k).execute_statistic(np.array(x), **e))
            if ok:
                try:
                    return True, enc(v)
                except Exception as ex:  # noqa: BLE001
                    return False, f"returned {v!r} ({type(ex).__name__})"
            return False, v

        ok1, v1 = value(given1, ck, xs, ek)
        ok2, v2 = value(given2, ck2, xs2, ek2)
        ok = ok1 and ok2
        out.append([{"op": "pair", "d": d, "code": code, "composite": mode == "composite", "t": {"kind": kind, "a": enc(t["a"]), "b": enc(t["b"])},
                     "p": {q: enc(v) for q, v in full.items()}, "p2": {q: enc(v) for q, v in p2.items()}, "xs": [enc(x) for x in xs], "xs2": [enc(x) for x in xs2],
                     "ok": ok, "val": v1 if ok else [0, 0], "val2": v2 if ok else [0, 0], "err": "" if ok else clean(v1 if not ok1 else v2),
                     "txt": clean(f"{c.__name__}({given1} {ck}) on {shape} sample of {n}, {kind} a={t['a']:.6g} b={t['b']:.6g}"), "cost": 1 + n // 10}])
    if mode == "simple" and own:
        for j in range(4):
            given, full = statplan.rows(d, c, j)
            ok, v = guarded(lambda: c(**given).hypothesis().params)
            try:
                got = {str(q): enc(x) for q, x in v.items()} if ok else {}
            except Exception as ex:  # noqa: BLE001
                ok, got, v = False, {}, f"parameters {v!r} ({type(ex).__name__})"
            out.append([{"op": "hyp", "d": d, "code": code, "p": {q: enc(x) for q, x in full.items()}, "got": got, "gtext": clean(v), "ok": ok,
                         "err": "" if ok else clean(v), "txt": clean(f"{c.__name__}({given})")}])
write(path, out)
