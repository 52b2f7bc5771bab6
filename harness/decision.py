"""Checks of decisions and test runs (Decision.tla, TestRun.tla, Resolver.tla)."""

import os

from storage import behaviours, design, load, replay


def recorded(ctx, what, clauses=None, shards=6):
    design(ctx, [("DecisionMC", "DecisionMC")])
    out = os.path.join(ctx.work, what + ".jsonl")
    ctx.record("rec_decision.py", what, out)
    traces = load(out)
    bad, _ = ctx.validate("DecisionTrace", traces, shards=shards)
    for ev, clause, detail in bad:
        ctx.violation(f"decision:{clause}", detail, ev if len(str(ev)) < 20000 else detail)
    n = sum(len(t) for t in traces)
    ctx.cov["calls_recorded"] = n
    ctx.cov["distinct_limit_distributions"] = len({str(e["lim"]) for t in traces for e in t if "lim" in e})
    ctx.sample(traces[min(200, len(traces) - 1)][0])


def d01(ctx):
    recorded(ctx, "pvalues")


def d02(ctx):
    recorded(ctx, "cvs")


def d03(ctx):
    recorded(ctx, "decisions")


def r02(ctx):
    design(ctx, [("Resolver", "Resolver")])
    hists = behaviours(ctx, "ResolverGen", 800 if ctx.thorough else 160, 40, shards=4)
    traces = replay(ctx, "rec_resolver.py", hists)
    bad, dev = ctx.validate("ResolverTrace", traces, shards=6)
    byhid = {t[0]["hid"]: t for t in traces}
    for ev, clause, detail in bad:
        ctx.violation(f"resolver:{clause}", detail, byhid[ev["hid"]][: ev["i"] + 2])
    for ev, name, detail in dev:
        ctx.violation(f"resolver:{name}", detail, byhid[ev["hid"]][: ev["i"] + 2])
    res = [e for t in traces for e in t if e["op"] == "resolve"]
    ctx.cov["resolves_replayed"] = len(res)
    ctx.cov["resolves_with_an_answer"] = sum(1 for e in res if e["res"])
    ctx.sample({"history": hists[0][:8]})


def testrun(ctx, what, hists):
    import json

    from core import parallel

    items = list(enumerate(hists)) or [None]
    procs = 6 if hists else 1

    def one(k):
        src, dst = os.path.join(ctx.work, f"s{k}.json"), os.path.join(ctx.work, f"d{k}.jsonl")
        json.dump(items[k::procs], open(src, "w"))
        ctx.record("rec_testrun.py", what, src, dst)
        return load(dst)

    traces = [t for ts in parallel([lambda k=k: one(k) for k in range(procs)]) for t in ts]
    bad, _ = ctx.validate("TestRunTrace", traces, shards=8)
    for ev, clause, detail in bad:
        tr = next((t for t in traces if t[0]["sid"] == ev["sid"] and ev in t), [])
        ctx.violation(f"testrun:{clause}", detail, [e for e in tr if len(str(e)) < 3000][:20])
    ev = [e for t in traces for e in t]
    ctx.cov["calls"] = sum(1 for e in ev if e["op"] == "call")
    ctx.cov["evaluations_observed"] = sum(len(e["ids"]) for e in ev if e["op"] == "evals")
    ctx.cov["null_laws_compared"] = sorted({e["dist"] + " " + e["ptext"] for e in ev if e["op"] == "pool"})
    ctx.sample([e for e in traces[0] if len(str(e)) < 2000][:6])


def d04(ctx):
    design(ctx, [("TestRun", "TestRun")])
    testrun(ctx, "tests", [])


def r01(ctx):
    design(ctx, [("TestRun", "TestRun")])
    testrun(ctx, "mc", behaviours(ctx, "TestRunGen", 160 if ctx.thorough else 40, 12, shards=4))
