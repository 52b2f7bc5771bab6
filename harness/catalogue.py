"""Checks of generators, descriptors and the registry of criteria."""

from storage import behaviours, design, replay


def g03(ctx):
    design(ctx, [("Generators", "Generators")])
    hists = behaviours(ctx, "GeneratorsGen", 400 if ctx.thorough else 120, 34, shards=4)
    traces = replay(ctx, "rec_generators.py", hists, procs=8)
    bad, _ = ctx.validate("GeneratorsTrace", traces, shards=8)
    for ev, clause, detail in bad:
        tr = next(t for t in traces if t[0]["sid"] == ev["sid"])
        ctx.violation(f"generator:{clause}", detail, {"session": hists[ev["sid"]], "events": [e for e in tr if len(str(e)) < 1500][:30]})
    ev = [e for t in traces for e in t]
    ctx.cov["generators_made"] = sum(1 for e in ev if e["op"] == "make")
    ctx.cov["laws_compared"] = len({e["what"].rsplit(" (", 1)[0] for e in ev if e["op"] == "law"})
    ctx.cov["values_drawn"] = sum(e["n"] for e in ev if e["op"] == "draw")
    ctx.sample({"session": hists[0][:10]})


def g01(ctx):
    design(ctx, [("Registry", "Registry")])
    hists = behaviours(ctx, "RegistryGen", 400 if ctx.thorough else 60, 10, shards=2)
    # every query as the first one a process makes
    for d in ("normal", "exponential", "weibull", "uniform", "student", "gamma", "beta", "log_normal", "rice"):
        hists.append([{"op": q, "d": d} for q in ("criteria", "generator", "descriptor", "criteria")])
        hists.append([{"op": "criteria", "d": d}, {"op": "spoil"}, {"op": "criteria", "d": d}, {"op": "define", "d": d, "how": "direct", "c": "OWN"}, {"op": "criteria", "d": d}])
    hists.append("classes")
    traces = replay(ctx, "rec_registry.py", hists, procs=8)
    bad, dev = ctx.validate("RegistryTrace", traces, shards=2)
    for ev, clause, detail in bad:
        case = ev if ev["op"] == "stat" else {"history": hists[ev["hid"]] if "hid" in ev else None}
        ctx.violation(f"registry:{clause}", detail, case)
    for ev, name, detail in dev:
        ctx.violation(f"registry:{name}", detail, ev)
    ev = [e for t in traces for e in t]
    ctx.cov["processes"] = len(hists) - 1
    ctx.cov["queries"] = sum(1 for e in ev if e["op"] == "ask")
    ctx.cov["statistics_inspected"] = len({(e["d"], e["cls"]) for e in ev if e["op"] == "stat"})
    ctx.sample({"process": hists[0]})


def g02(ctx):
    import os

    from storage import load

    design(ctx, [("Descriptors", "Descriptors")])
    out = os.path.join(ctx.work, "descriptors.jsonl")
    ctx.record("rec_descriptors.py", out)
    traces = load(out)
    bad, _ = ctx.validate("DescriptorsTrace", traces, shards=2)
    for ev, clause, detail in bad:
        ctx.violation(f"descriptor:{clause}", detail, detail)
    ctx.cov["descriptors"] = sum(1 for t in traces if t[0]["op"] == "desc")
    ctx.cov["validator_answers"] = sum(len(e["vals"]) for t in traces for e in t if e["op"] == "param")
    ctx.sample(traces[1][0])


def g04(ctx):
    import os

    from storage import load

    design(ctx, [("CalibrationMC", "CalibrationMC")])
    out = os.path.join(ctx.work, "calibration.jsonl")
    ctx.record("rec_calibration.py", out)
    traces = load(out)
    bad, dev = ctx.validate("CalibrationTrace", traces, shards=8)
    for ev, clause, detail in bad:
        ctx.violation(f"calibration:{clause}", detail, detail)
    for ev, name, detail in dev:
        ctx.violation(f"calibration:{name}", detail, detail)
    ev = [e for t in traces for e in t if e["op"] == "draws"]
    ctx.cov["statistics"] = len({(e["d"], e["short"]) for e in ev})
    ctx.cov["laws_compared"] = len(ev)
    ctx.cov["values_drawn"] = sum(e["n"] for e in ev)
    ctx.sample({"statistic": ev[0]["what"], "draws": ev[0]["n"]})


def g05(ctx):
    import os

    from storage import load

    design(ctx, [("CoreFunctionsMC", "CoreFunctionsMC")])
    out = os.path.join(ctx.work, "core.jsonl")
    ctx.record("rec_core.py", out)
    traces = load(out)
    bad, _ = ctx.validate("CoreFunctionsTrace", traces, shards=6)
    for ev, clause, detail in bad:
        ctx.violation(f"core:{clause}", detail, ev if len(str(ev)) < 5000 else detail)
    ev = [e for t in traces for e in t]
    ctx.cov["function_calls"] = sum(1 for e in ev if e["op"] == "fn")
    ctx.cov["values_compared"] = sum(len(e["xs"]) for e in ev if e["op"] == "fn")
    ctx.cov["moments"] = sum(len(e["cols"]) for e in ev if e["op"] == "moment")
    ctx.cov["laws_compared"] = sum(1 for e in ev if e["op"] == "law")
    ctx.sample({"call": ev[0]})
