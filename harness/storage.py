"""Checks of the storage (Storage.tla)."""

import json
import os

from core import CheckError, parallel


def design(ctx, configs):
    """Exhaustive model checking of the specification itself."""
    for module, cfg in configs:
        r = ctx.tlc(module, cfg, workers=4, extra=("-coverage", "1"))
        ctx.cov.setdefault("design", {})[cfg] = {"distinct_states": r.distinct, "states_generated": r.states}


def behaviours(ctx, module, num, depth, cfg=None, shards=1):
    def one(k):
        r = ctx.tlc(module, cfg, workers=1,
                    extra=("-simulate", f"num={num // shards}", "-depth", str(depth + 1),
                           "-seed", str(ctx.seed * 1000 + k)))
        return [json.loads(x[5:]) for x in r.lines if x.startswith("HIST|")]

    out = []
    for hs in parallel([lambda k=k: one(k) for k in range(shards)]):
        out += hs
    if not out:
        raise CheckError("no behaviours generated")
    return out


def replay(ctx, script, hists, procs=6, extra=()):
    """Replay behaviours in several recorder processes; returns traces."""
    items = list(enumerate(hists))
    chunks = [items[k::procs] for k in range(procs) if items[k::procs]]

    def one(k, chunk):
        src = os.path.join(ctx.work, f"h{k}.json")
        dst = os.path.join(ctx.work, f"t{k}.jsonl")
        scratch = os.path.join(ctx.work, f"scratch{k}")
        os.makedirs(scratch, exist_ok=True)
        json.dump(chunk, open(src, "w"))
        ctx.record(script, src, dst, scratch, *extra)
        return [json.loads(x) for x in open(dst)]

    out = []
    for ts in parallel([lambda k=k, c=c: one(k, c) for k, c in enumerate(chunks)]):
        out += ts
    return out


def wide(rnd, codes):
    """A behaviour of the specification with far more keys and simulations than random walks reach."""
    def row(c, **kw):
        return {"e": 1, "c": c, "p": rnd.randrange(4), "n": rnd.randrange(1, 6), "m": rnd.randrange(1, 6),
                "v": rnd.randrange(1, 4), **kw}

    names = [f"code_{k:05d}" for k in rnd.sample(range(99999), codes)]
    rows = [row(c) for c in names]
    crowd = [row(names[0], m=k, n=3) for k in rnd.sample(range(1, 9999), codes)]
    asked = names[: codes // 2] + [f"none_{k}" for k in range(codes)] + names[codes // 2:]
    hist = [{"op": "bulk", "s": 1, "batch": rows, "bad": 0}]
    for n, t in ((3, 0), (2, 1), (4, 20)):
        hist.append({"op": "bulkget", "s": rnd.choice((1, 2)), "cs": asked, "n": n, "t": t})
    hist.append({"op": "bulk", "s": 2, "batch": crowd, "bad": 0})
    for n, t in ((3, 0), (2, 1), (5, 1)):
        hist.append({"op": "cv", "s": 1, "c": names[0], "n": n, "t": t})
    hist.append({"op": "bulkget", "s": 1, "cs": asked[::-1], "n": 3, "t": 1})
    for r in (rows[0], rows[-1], crowd[codes // 2], row("absent")):
        q = {k: r[k] for k in "cpnm"}
        hist += [{"op": "get", "s": 2, "q": q}, {"op": "del", "s": 1, "q": q}, {"op": "get", "s": 2, "q": q}]
    hist.append({"op": "bulk", "s": 1, "batch": [*rows[: codes // 2], row("last")], "bad": codes // 2 + 1,
                 "why": "payload"})
    hist.append({"op": "bulkget", "s": 2, "cs": names, "n": 3, "t": 0})
    return hist


def histories(ctx, clauses):
    import random

    n = 1200 if ctx.thorough else 240
    hists = behaviours(ctx, "StorageGen", n, 24, shards=4)
    rnd = random.Random(ctx.seed)
    hists += [wide(rnd, k) for k in ((60, 350, 700, 1100, 1600) if ctx.thorough else (60, 350, 700))]
    traces = replay(ctx, "rec_storage.py", hists)
    bad, _ = ctx.validate("StorageTrace", traces, shards=6)
    byhid = {t[0]["hid"]: t for t in traces}
    for ev, clause, detail in bad:
        if clause in clauses:
            tr = byhid[ev["hid"]]
            ctx.violation(f"storage:{clause}", detail, tr[: ev["i"] + 2])
    ops = {}
    for t in traces:
        for e in t:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.cov["calls_replayed"] = ops
    ctx.sample({"history": hists[0][:8]})


EXACT = ["put-raised", "delete-raised-one", "delete-raised-several", "lookup-raised-one",
         "lookup-raised-several", "content", "lookup", "init-raised", "bulk-raised", "bulk-accepted-bad"]


def s01(ctx):
    design(ctx, [("Storage", "Storage")])
    histories(ctx, EXACT)


def s02(ctx):
    design(ctx, [("Storage", "StorageTol")])
    histories(ctx, ["cv", "cv-tolerance", "cv-raised", "bulkget", "bulkget-raised"])


def s03(ctx):
    import random

    design(ctx, [("Storage", "Storage")])
    r = ctx.tlc("AtomicGen", workers=1)
    cases = [json.loads(x[5:]) for x in r.lines if x.startswith("HIST|")]
    if not cases:
        raise CheckError("no scenarios")
    ctx.cov["scenarios_enumerated"] = len(cases)
    rnd = random.Random(ctx.seed)
    full = [c for c in cases if len(c["batch"]) >= 2]
    small = [c for c in cases if len(c["batch"]) < 2]
    if ctx.thorough:
        sel = cases
    else:
        sel = rnd.sample(small, 14) + rnd.sample(full, 70)
    sel = sel + [{"range": n} for n in ((130, 1100, 6000) if ctx.thorough else (130, 1100))]
    traces = replay(ctx, "rec_atomic.py", sel[::-1], procs=8)
    bad, _ = ctx.validate("AtomicTrace", traces, shards=6)
    for ev, clause, detail in bad:
        ctx.violation(f"bulk:{clause}", detail, ev)
    modes = {}
    for t in traces:
        for e in t:
            if e["op"] == "begin":
                modes[e["mode"]] = modes.get(e["mode"], 0) + 1
    ctx.cov["bulk_stores"] = modes
    ctx.cov["scenarios_replayed"] = len(sel)
    ctx.sample({"scenario": sel[0]})
    ctx.assumptions.append("SQLite's own commit is atomic; crash points are the boundaries of the statements it is sent")


def load(path):
    return [json.loads(x) for x in open(path)]


def s04(ctx):
    design(ctx, [("Codec", "Codec")])
    out = os.path.join(ctx.work, "codec.jsonl")
    ctx.record("rec_codec.py", out, ctx.work)
    traces = load(out)
    bad, _ = ctx.validate("CodecTrace", traces, shards=6)
    for ev, clause, detail in bad:
        ctx.violation(f"payload:{clause}", detail, ev if len(str(ev)) < 20000 else detail)
    kinds = {}
    for t in traces:
        k = t[0].get("via") or t[0]["op"] + "-" + t[0].get("kind", "")
        kinds[k] = kinds.get(k, 0) + 1
    ctx.cov["round_trips"] = kinds
    ctx.cov["elements"] = sum(len(t[0].get("val", ())) for t in traces)
    ctx.sample({k: v for k, v in traces[5][0].items()})


def s05(ctx):
    design(ctx, [("Avail", "Avail")])
    hists = behaviours(ctx, "AvailGen", 1500 if ctx.thorough else 240, 18, shards=2)
    traces = replay(ctx, "rec_avail.py", hists)
    bad, _ = ctx.validate("AvailTrace", traces, shards=4)
    for ev, clause, detail in bad:
        ctx.violation(f"open:{clause}:{ev['t']}", detail, ev)
    seen = {}
    for t in traces:
        for e in t:
            if e["op"] in ("create", "init"):
                k = f"{e['op']} {e['t']} -> {e['out']}"
                seen[k] = seen.get(k, 0) + 1
    ctx.cov["outcomes"] = dict(sorted(seen.items()))
    ctx.sample({"history": hists[0]})


def wide_loads(rnd, codes, has=True):
    """A behaviour of the loader with far more codes than random walks reach (no ties, so one outcome)."""
    def row(c, m):
        return {"e": 1, "c": c, "p": rnd.randrange(2), "n": rnd.choice((9, 10, 12)), "m": m, "v": rnd.randrange(1, 4)}

    names = [f"code_{k:05d}" for k in rnd.sample(range(99999), codes)]
    counts = iter(rnd.sample(range(1, 10**6), 6 * codes))
    hist = [{"op": "start", "has": has}]
    hist.append({"op": "fill", "where": "remote", "rows": [row(c, next(counts)) for c in names for _ in range(rnd.randrange(3))]})
    hist.append({"op": "fill", "where": "local", "rows": [row(c, next(counts)) for c in names if rnd.random() < 0.2]})
    asked = names + [f"none_{k}" for k in range(codes // 3)]
    for n, t, fail in ((9, 0, True), (9, 0, False), (9, 0, False), (10, 1, False), (12, 3, True), (12, 3, False)):
        rnd.shuffle(asked)
        hist.append({"op": "bulk", "cs": list(asked), "n": n, "t": t, "fail": fail})
        hist.append({"op": "load", "c": rnd.choice(names), "n": n, "t": 0, "fail": False})
    return hist


def loader(ctx, prefix):
    import random

    design(ctx, [("LoaderMC", "Loader" if ctx.thorough else "LoaderQuick")])
    hists = behaviours(ctx, "LoaderGen", 2000 if ctx.thorough else 320, 24, shards=4)
    rnd = random.Random(ctx.seed)
    for size in (60, 60, 300, 300, 550, 1100) if ctx.thorough else (60, 60, 300, 550):
        hists.append(wide_loads(rnd, size))
    traces = replay(ctx, "rec_loader.py", hists)
    bad, _ = ctx.validate("LoaderTrace", traces, shards=6)
    byhid = {t[0]["hid"]: t for t in traces}
    for ev, clause, detail in bad:
        if clause.startswith(prefix):
            small = [{k: v for k, v in e.items() if not k.startswith("obs")} for e in byhid[ev["hid"]][: ev["i"] + 2]]
            ctx.violation(f"loader:{clause}", detail, small)
    ops = {}
    for t in traces:
        for e in t[1:]:
            k = e["op"] + ("-failing" if e.get("fail") else "") + ("" if t[0]["has"] else "-noremote")
            ops[k] = ops.get(k, 0) + 1
    ctx.cov["calls_replayed"] = ops
    ctx.sample({"history": hists[0][:8]})


def l01(ctx):
    loader(ctx, "load-")


def l02(ctx):
    loader(ctx, "bulk-")
