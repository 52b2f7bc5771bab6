"""Checks of multiple-testing corrections (MultipleTesting.tla)."""

import os

from storage import design, load


def corrections(ctx, what, only=None):
    design(ctx, [("MultipleTestingMC", "MultipleTestingMC")])
    out = os.path.join(ctx.work, what + ".jsonl")
    ctx.record("rec_multiple.py", what, out)
    traces = load(out)
    bad, dev = ctx.validate("MultipleTestingTrace", traces, shards=7)
    for ev, clause, detail in bad + dev:
        if only is None or clause.startswith(only):
            ctx.violation(f"multiple:{clause}", detail, ev if len(str(ev)) < 20000 else detail)
    ctx.cov["calls_recorded"] = sum(len(t) for t in traces)
    ctx.cov["longest_list"] = max(len(e.get("p", ())) for t in traces for e in t)
    ctx.sample(traces[20][0])


def m01(ctx):
    corrections(ctx, "single")


def m02(ctx):
    corrections(ctx, "step")


def m03(ctx):
    corrections(ctx, "decisions", ("test-", "input-", "permutation-", "order-", "adjust-raised", "length-", "ties-"))
