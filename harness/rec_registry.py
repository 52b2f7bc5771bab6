"""usage: rec_registry.py in.json out.jsonl scratch
Replays import/query histories, each in a process of its own, and records every statistic class once."""

import json
import subprocess
import sys

CHILD = r"""
import importlib, json, sys
sys.path.insert(0, sys.argv[1])
from rectools import clean, guarded
MOD = {"package": "pysatl_criterion", "api": "pysatl_criterion.api.testing", "statistics": "pysatl_criterion.statistics",
       "goodness_of_fit": "pysatl_criterion.statistics.goodness_of_fit", "generators": "pysatl_criterion.generator.generators",
       "utils.statistic": "pysatl_criterion.utils.statistic", "utils.generator": "pysatl_criterion.utils.generator",
       "utils.distribution": "pysatl_criterion.utils.distribution"}
held, classes = [], []
def criteria(d):
    from pysatl_criterion import DistributionType
    from pysatl_criterion.utils.statistic import get_available_criteria
    held.append(get_available_criteria(DistributionType(d)))
    return sorted(held[-1])
def spoil():
    for a in held:
        if isinstance(a, list):
            del a[::2]
            a.append("SPOILT")
def define(d, how, code):
    from pysatl_criterion import DistributionType
    from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic
    from pysatl_criterion.statistics.alternative import RightAlternative
    from pysatl_criterion.statistics.hypothesis import GoodnessOfFitHypothesis
    class Base(AbstractGoodnessOfFitStatistic):
        def hypothesis(self): return GoodnessOfFitHypothesis({})
        def alternative(self): return RightAlternative()
        @staticmethod
        def distribution(): return DistributionType(d)
        @staticmethod
        def short_code(): return code
        if how != "abstract" and how != "indirect":
            def execute_statistic(self, rvs): return 0.0
    classes.append(Base)
    if how == "indirect":
        class Own(Base):
            def execute_statistic(self, rvs): return 0.0
        classes.append(Own)
def generator(d):
    from pysatl_criterion import DistributionType
    from pysatl_criterion.utils.generator import get_available_generator
    p = json.loads(sys.argv[3])[d]
    g = get_available_generator(DistributionType(d), p)
    return [g.distribution_type().value]
def descriptor(d):
    from pysatl_criterion import DistributionType
    from pysatl_criterion.utils.distribution import get_available_distribution_descriptor
    x = get_available_distribution_descriptor(DistributionType(d))
    held.append(x.parameters())
    return [x.type().value]
out = []
for s in json.loads(sys.argv[2]):
    if s["op"] == "import":
        ok, v = guarded(lambda: importlib.import_module(MOD[s["m"]]))
        out.append({"op": "import", "m": s["m"], "ok": ok, "err": "" if ok else clean(v)})
    elif s["op"] == "define":
        ok, v = guarded(lambda: define(s["d"], s["how"], s["c"]))
        out.append({**s, "ok": ok, "err": "" if ok else clean(v)})
    elif s["op"] == "spoil":
        spoil()
        out.append(s)
    else:
        ok, v = guarded(lambda: {"criteria": criteria, "generator": generator, "descriptor": descriptor}[s["op"]](s["d"]))
        out.append({"op": "ask", "q": s["op"], "d": s["d"], "ok": ok, "err": "" if ok else clean(v), "got": v if ok else []})
print(json.dumps(out))
"""


def history(hid, steps, here, rows):
    p = subprocess.run([sys.executable, "-c", CHILD, here, json.dumps(steps), json.dumps(rows)], capture_output=True, text=True, timeout=120)
    lines = p.stdout.strip().split("\n")
    if p.returncode or not lines[-1].startswith("["):
        return [{"op": "reset", "hid": hid}, {"op": "import", "m": "process", "ok": False, "err": p.stderr.strip().split("\n")[-1][:150]}]
    return [{"op": "reset", "hid": hid}] + [{**e, "hid": hid} for e in json.loads(lines[-1])]


def record_classes():
    import statcat
    from rectools import clean, enc, guarded

    def one(d, c, given, alt):
        args = {k: v for k, v in given.items() if k in statcat.ctor(c)}
        if alt:
            args["alternative_type"] = statcat.AlternativeType(alt)
        o = c(**args)
        h = o.hypothesis()
        return {"given": {k: enc(v) for k, v in {**statcat.standard(d, c), **args}.items() if k in statcat.NULL[d]},
                "short": str(c.short_code()), "code": str(c.code()), "ishort": str(o.short_code()), "icode": str(o.code()),
                "dist": o.distribution().value, "alt": o.alternative().type().value, "alt2": o.alternative().type().value,
                "hyp": {k: enc(v) for k, v in h.params.items()}, "plist": [enc(v) for v in h.parameters()],
                "vals": [enc(v) for v in h.params.values()]}

    blank = {"short": "", "code": "", "ishort": "", "icode": "", "dist": "", "alt": "", "alt2": "", "hyp": {}, "plist": [], "vals": [], "given": {}}
    tr = [{"op": "reset", "hid": 0}]
    for d, c in statcat.classes():
        alts = ["", "left", "right", "two_tailed"] if "alternative_type" in statcat.ctor(c) else [""]
        for k, given in enumerate([{}] + statcat.rows(d, 4)):
            for alt in alts:
                if c.__name__ == "ModeBetaGofStatistic":
                    given = {p: v + 1 for p, v in given.items()}
                ok, v = guarded(one, d, c, given, alt)
                own = sorted(set(statcat.ctor(c)) & set(statcat.NULL[d]))
                tr.append({"op": "stat", "d": d, "cls": c.__name__, "own": own, "asked": alt, "first": k == 0 and alt == "", "ok": ok,
                           "err": "" if ok else clean(v), **(v if ok else {**blank, "short": str(c.short_code())})})
    tr.append({"op": "done"})
    return tr


if __name__ == "__main__":
    import os

    here = os.path.dirname(os.path.abspath(__file__))
    items = json.load(open(sys.argv[1]))
    from laws import ROWS

    rows = {d: r[1] for d, r in ROWS.items()}
    with open(sys.argv[2], "w") as f:
        for hid, steps in items:
            t = record_classes() if steps == "classes" else history(hid, steps, here, rows)
            f.write(json.dumps(t) + "\n")
