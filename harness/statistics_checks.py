"""The statistics: values against the specification (T01..T06)."""

import json
import os
import random

from core import CheckError, dec
from storage import behaviours, design, load, replay


def values(ctx, prop):
    out = os.path.join(ctx.work, "stats.jsonl")
    ctx.record("rec_stats.py", prop, out, timeout=1200)
    traces = load(out)
    bad, dev = ctx.validate("StatTrace", traces, shards=8)
    for ev, clause, detail in bad:
        ctx.violation(f"stat:{clause}", detail, {**ev, "xs": [dec(x) for x in ev["xs"]]})
    for ev, name, detail in dev:
        ctx.violation(f"stat:{name}", detail, {**ev, "xs": [dec(x) for x in ev["xs"]]})
    ctx.cov["critical_values"] = sum(1 for t in traces for e in t if e["op"] == "critical")
    ev = [e for t in traces for e in t if e["op"] == "stat"]
    ctx.cov["statistics"] = len({(e["d"], e["code"]) for e in ev})
    ctx.cov["values_compared"] = len(ev)
    ctx.cov["sample_sizes"] = sorted({len(e["xs"]) for e in ev})
    ctx.sample({"evaluation": ev[0]["txt"], "sample": [dec(x) for x in ev[0]["xs"]], "value": dec(ev[0]["val"])})


def t01(ctx):
    design(ctx, [("EdfMC", "EdfDeep" if ctx.thorough else "EdfMC")])
    values(ctx, "T01")


def t02(ctx):
    design(ctx, [("StatDefsMC", "StatDefsDeep" if ctx.thorough else "StatDefsMC")])
    values(ctx, "T02")


def t03(ctx):
    design(ctx, [("StatDefsMC", "StatDefsDeep" if ctx.thorough else "StatDefsMC")])
    values(ctx, "T03")


def t04(ctx):
    design(ctx, [("StatGroupsMC", "StatGroupsDeep" if ctx.thorough else "StatGroupsMC")])
    values(ctx, "T04")


def t05(ctx):
    design(ctx, [("StatGroupsMC", "StatGroupsDeep" if ctx.thorough else "StatGroupsMC")])
    values(ctx, "T05")


def t06(ctx):
    design(ctx, [("StatGroupsMC", "StatGroupsDeep" if ctx.thorough else "StatGroupsMC")])
    values(ctx, "T06")


def t07(ctx):
    design(ctx, [("GraphMC", "GraphDeep" if ctx.thorough else "GraphMC")])
    r = ctx.tlc("GraphGen", workers=1)
    hists = [json.loads(x[5:]) for x in r.lines if x.startswith("HIST|")]
    pick = random.Random(f"{ctx.seed}graph")
    normal = [h for h in hists if h["d"] == "normal"]
    other = [h for h in hists if h["d"] != "normal"]
    other = pick.sample(other, min(len(other), 1500 if ctx.thorough else 300))
    cases = os.path.join(ctx.work, "cases.json")
    with open(cases, "w") as f:
        json.dump(normal + other, f)
    out = os.path.join(ctx.work, "graph.jsonl")
    ctx.record("rec_graph.py", cases, out)
    traces = load(out)
    bad, _ = ctx.validate("GraphTrace", traces, shards=8)
    for ev, clause, detail in bad:
        ctx.violation(f"graph:{clause}", detail, {**ev, "xs": [dec(x) for x in ev["xs"]]})
    ctx.cov["grid_samples_enumerated"] = len(hists)
    ctx.cov["grid_samples_replayed"] = len(normal + other)
    ctx.cov["values_compared"] = len(traces)
    ctx.sample(normal[0])


def sessions(ctx, clauses):
    """Sessions of evaluations on shared samples and objects."""
    design(ctx, [("SessionMC", "SessionMC")])
    hists = behaviours(ctx, "SessionGen", 1600 if ctx.thorough else 400, 36, shards=8)
    traces = replay(ctx, "rec_session.py", hists, procs=8)
    bad, dev = ctx.validate("SessionTrace", traces, shards=4)
    byid = {id(e): t for t in traces for e in t}
    for ev, clause, detail in bad + dev:
        if clause.split("-")[0] in clauses:
            ctx.violation(f"session:{clause}", detail, {"session": hists[byid[id(ev)][0]["sid"]], "event": ev})
    ev = [e for t in traces for e in t if e["op"] == "eval"]
    ctx.cov["statistics"] = len({(e["d"], e["code"]) for e in ev})
    ctx.cov["evaluations"] = len(ev)
    ctx.cov["sessions"] = len(traces)
    ctx.sample({"session": hists[0][:12]})


def t08(ctx):
    sessions(ctx, {"heap", "repeat"})


def t09(ctx):
    sessions(ctx, {"order", "raised"})



def groups(ctx, mode):
    design(ctx, [("StatGroupsMC", "StatGroupsDeep" if ctx.thorough else "StatGroupsMC")])
    r = ctx.tlc("StatGroupsTable")
    table = os.path.join(ctx.work, "table.json")
    with open(table, "w") as f:
        json.dump([json.loads(x[5:]) for x in r.lines if x.startswith("HIST|")], f)
    out = os.path.join(ctx.work, "groups.jsonl")
    ctx.record("rec_groups.py", mode, table, out, timeout=1200)
    traces = load(out)
    bad, dev = ctx.validate("StatGroupsTrace", traces, shards=4)
    for ev, clause, detail in bad + dev:
        if clause == "machinery":
            raise CheckError("transformation mismatch: " + detail)
        case = {k: v for k, v in ev.items() if k not in ("xs", "xs2")}
        if "xs" in ev:
            case.update(xs=[dec(x) for x in ev["xs"]], xs2=[dec(x) for x in ev["xs2"]])
        ctx.violation(f"group:{clause}", detail, case)
    ev = [t[0] for t in traces]
    ctx.cov["statistics"] = len({(e["d"], e["code"]) for e in ev})
    ctx.cov["pairs_compared"] = sum(1 for e in ev if e["op"] == "pair")
    ctx.cov["hypotheses"] = sum(1 for e in ev if e["op"] == "hyp")
    ctx.sample(ev[0]["txt"])


def t10(ctx):
    groups(ctx, "composite")


def t11(ctx):
    groups(ctx, "simple")
    values(ctx, "T11")


def t12(ctx):
    design(ctx, [("AdmissionMC", "AdmissionDeep" if ctx.thorough else "AdmissionMC")])
    r = ctx.tlc("AdmissionGen", "AdmissionGenDeep" if ctx.thorough else "AdmissionGen")
    cases = os.path.join(ctx.work, "cases.json")
    with open(cases, "w") as f:
        json.dump([json.loads(x[5:]) for x in r.lines if x.startswith("HIST|")], f)
    out = os.path.join(ctx.work, "admission.jsonl")
    ctx.record("rec_admission.py", cases, out, timeout=1200)
    traces = load(out)
    bad, _ = ctx.validate("AdmissionTrace", traces, shards=4)
    for ev, clause, detail in bad:
        ctx.violation(f"admission:{clause}", detail, {**ev, "xs": [dec(x) for x in ev["xs"]], "p": {q: dec(v) for q, v in ev["p"].items()}})
    ev = [t[0] for t in traces]
    ctx.cov["statistics"] = len({(e["d"], e["code"]) for e in ev})
    ctx.cov["constructor_calls"] = sum(1 for e in ev if e["op"] != "sample")
    ctx.cov["evaluations"] = sum(1 for e in ev if e["op"] == "sample")
    ctx.cov["refused"] = sum(1 for e in ev if e["out"] == "refused")
    ctx.sample(ev[len(ev) // 2]["txt"])


def e01(ctx):
    design(ctx, [("LikelihoodMC", "LikelihoodDeep" if ctx.thorough else "LikelihoodMC")])
    r = ctx.tlc("LikelihoodGen", "LikelihoodGenDeep" if ctx.thorough else "LikelihoodGen")
    cases = os.path.join(ctx.work, "cases.json")
    with open(cases, "w") as f:
        json.dump([json.loads(x[5:]) for x in r.lines if x.startswith("HIST|")], f)
    out = os.path.join(ctx.work, "likelihood.jsonl")
    ctx.record("rec_likelihood.py", cases, out, timeout=1200)
    traces = load(out)
    bad, _ = ctx.validate("LikelihoodTrace", traces, shards=8)
    for ev, clause, detail in bad:
        ctx.violation(f"likelihood:{clause}", detail, {**ev, "xs": [dec(x) for x in ev.get("xs", [])]})
    ev = [t[0] for t in traces]
    ctx.cov["likelihood_functions"] = len({e["f"] for e in ev if e["op"] == "lik"})
    ctx.cov["evaluations"] = sum(1 for e in ev if e["op"] == "lik")
    ctx.cov["searches"] = sum(1 for e in ev if e["op"] == "search")
    ctx.sample(ev[len(ev) // 2]["txt"])
