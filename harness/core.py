"""Shared machinery of the checks: building, recording, running TLC, reporting.

Stdlib only.  The code under test is only ever imported by the recorders
(harness/rec_*.py), which run in their own process under the project's
interpreter with /repo/src first on the path.
"""

import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")


class CheckError(Exception):
    """The machinery itself failed: no verdict."""


class Crash(CheckError):
    """The code under test raised where the specification has no failing step."""


def crashed_in_library(stderr):
    """The last line of a recorder's traceback when the exception was raised inside the code under test."""
    tail = stderr[stderr.rfind("Traceback (most recent call last)"):]
    frames = re.findall(r'^  File "([^"]+)", line (\d+), in (\S+)', tail, re.M)
    ours = [f for f in frames if f[0].startswith((os.path.join(VERIF, "harness"), os.path.join(REPO, "src") + os.sep))]
    if ours and ours[-1][0].startswith(os.path.join(REPO, "src") + os.sep):
        f = ours[-1]
        return f"{tail.strip().splitlines()[-1][:300]} ({os.path.relpath(f[0], REPO)}:{f[1]} in {f[2]})"
    return None


def build():
    """Compile the Java override of Real64 when it is missing or stale."""
    src = os.path.join(VERIF, "java", "Real64.java")
    cls = os.path.join(BUILD, "pysatl", "Real64.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    tmp = tempfile.mkdtemp(prefix="pysatl-build-")
    try:
        r = subprocess.run(["javac", "-cp", JAR, "-d", tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac failed: " + r.stderr)
        os.makedirs(os.path.join(BUILD, "pysatl"), exist_ok=True)
        for f in os.listdir(os.path.join(tmp, "pysatl")):
            dst = os.path.join(BUILD, "pysatl", f)
            shutil.copyfile(os.path.join(tmp, "pysatl", f), dst + ".new")
            os.replace(dst + ".new", dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def enc(x):
    """A float as the two signed 32-bit halves the specification reads."""
    return list(struct.unpack(">ii", struct.pack(">d", float(x))))


def dec(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


class Tlc:
    """Result of one TLC run."""

    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.states = self.distinct = 0
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        if m:
            self.states, self.distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.states = self.distinct = int(m[-1])
        self.lines = []
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"') and "|" in line:
                self.lines.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))

    def tagged(self, tag):
        return [s.split("|") for s in self.lines if s.startswith(tag + "|")]

    @property
    def error(self):
        m = re.search(r"^Error: ", self.out, re.M)
        return self.out[m.start() : m.start() + 3000] if m else None

    def coverage(self):
        """Per-action counts from -coverage."""
        acts = {}
        for m in re.finditer(r"^<(\w+) line[^>]*>: (\d+):(\d+)$", self.out, re.M):
            acts[m.group(1)] = acts.get(m.group(1), 0) + int(m.group(3))
        return acts


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", f"{pid}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.found = {}  # key -> (what, case)
        self.counts = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []

    # -- running things ---------------------------------------------------
    def record(self, script, *args, timeout=600, stdin=None, env=None):
        """Run a recorder against /repo's working tree; returns its stdout."""
        e = {
            "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "HOME": "/root",
            "LANG": "C.UTF-8",
            "PYTHONPATH": os.path.join(REPO, "src") + ":" + os.path.join(VERIF, "harness"),
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": os.path.join(self.work, "pyc"),
            "PYTHONHASHSEED": "0",
            "OMP_NUM_THREADS": "1",
            "OPENBLAS_NUM_THREADS": "1",
            "VERIF_SEED": str(self.seed),
            "VERIF_TIER": self.tier,
            "TMPDIR": self.work,
        }
        e.update(env or {})
        cmd = [PY, "-W", "ignore", os.path.join(VERIF, "harness", script)] + [str(a) for a in args]
        try:
            r = subprocess.run(
                cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=self.work, input=stdin
            )
        except subprocess.TimeoutExpired as ex:
            raise CheckError(f"recorder {script} {args} exceeded {timeout}s") from ex
        if r.returncode:
            what = crashed_in_library(r.stderr)
            if what:
                raise Crash(f"{script} {' '.join(str(a) for a in args if '/' not in str(a))}: {what}")
            raise CheckError(f"recorder {script} {args} failed ({r.returncode}): {r.stderr[-3000:]}")
        return r.stdout

    def tlc(self, module, cfg=None, env=None, workers=1, extra=(), timeout=800, heap="2g", check=True):
        build()
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = [
            "java", "-Xmx" + heap, "-Xss64m",
            "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:pysatl.Real64",
            "-Djava.io.tmpdir=" + meta,
            "-cp", f"{BUILD}:{JAR}:{COMM}",
            "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-nowarning", "-noGenerateSpecTE",
            "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *extra,
            os.path.join(SPEC, module + ".tla"),
        ]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=meta)
        except subprocess.TimeoutExpired as ex:
            raise CheckError(f"TLC {module} exceeded {timeout}s") from ex
        res = Tlc(r.stdout, r.returncode, time.time() - t)
        shutil.rmtree(meta, ignore_errors=True)
        if check and (r.returncode != 0 or res.error):
            raise CheckError(f"TLC {module}/{cfg} rc={r.returncode}\n{r.stdout[-1800:]}{r.stderr[-1000:]}")
        self.cov["states"] += res.distinct
        self.cov["transitions"] += res.states
        return res

    def validate(self, module, events, cfg=None, shards=1, env=None, timeout=800, per_shard=None):
        """Check recorded events (a list of traces, each a list of dicts) against
        the trace specification.  Every trace starts with its own reset; traces are
        concatenated into shards, each validated by one TLC run.  Verdict lines
        "BAD|line|clause|detail" and "DEV|line|name|detail" are mapped back."""
        shards = max(1, min(shards, len(events)))
        buckets = [[] for _ in range(shards)]
        loads = [0] * shards
        for tr in sorted(events, key=lambda t: -sum(e.get("cost", 1) for e in t)):
            k = loads.index(min(loads))
            buckets[k].append(tr)
            loads[k] += sum(e.get("cost", 1) for e in tr)
        jobs = []
        for b in buckets:
            if not b:
                continue
            flat = [e for tr in b for e in tr]
            path = tempfile.mktemp(prefix="trace-", suffix=".ndjson", dir=self.work)
            with open(path, "w") as f:
                for e in flat:
                    f.write(json.dumps(e) + "\n")
            jobs.append((path, flat))

        def go(job):
            path, flat = job
            ev = {"TRACE": path}
            ev.update(env or {})
            return self.tlc(module, cfg, env=ev, timeout=timeout)

        bad, dev = [], []
        with ThreadPoolExecutor(max_workers=8) as ex:
            for (path, flat), res in zip(jobs, ex.map(go, jobs)):
                done = res.tagged("DONE")
                if not done or int(done[-1][1]) != len(flat):
                    raise CheckError(f"trace {path} not consumed: {res.out[-2000:]}")
                for tag, acc in (("BAD", bad), ("DEV", dev)):
                    for s in res.tagged(tag):
                        acc.append((flat[int(s[1]) - 1], s[2], "|".join(s[3:])))
        self.cov["traces_validated_against_impl"] += len(events)
        by = self.cov.setdefault("events", {})  # how often each action of the specification was observed
        for tr in events:
            for e in tr:
                name = f"{module}.{e.get('op', '?')}"
                by[name] = by.get(name, 0) + 1
        return bad, dev

    # -- reporting --------------------------------------------------------
    def violation(self, key, what, case):
        if key not in self.found:
            self.found[key] = (what, case)
        self.counts[key] = self.counts.get(key, 0) + 1

    def sample(self, s):
        if len(self.cov["samples"]) < 8:
            self.cov["samples"].append(s)

    def known(self):
        out = {}
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self, level="model_checking"):
        known = self.known()
        nviol = 0
        for key, (what, case) in sorted(self.found.items()):
            if key in known:
                print(f"KNOWN-FINDING: property={self.pid} {key} {known[key]}")
                continue
            nviol += 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}-{re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:80]}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": what, "case": case,
                           "tier": self.tier, "seed": self.seed,
                           "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} bin/check {self.pid}"},
                          f, indent=1)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {key}: {what}"[:600])
        if len(self.cov["samples"]) == 0:
            self.cov["samples"].append("none")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": self.cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": nviol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if nviol else 0


def parallel(fns, n=8):
    with ThreadPoolExecutor(max_workers=n) as ex:
        return [f.result() for f in [ex.submit(fn) for fn in fns]]


def main(argv):
    import importlib

    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    from registry import CHECKS

    mod, fn = CHECKS[pid]
    ctx = Ctx(pid, tier, seed)
    try:
        try:
            getattr(importlib.import_module(mod), fn)(ctx)
        except Crash as ex:
            ctx.violation("raised", f"the library raised: {ex}", str(ex))
        return ctx.finish()
    except CheckError as ex:
        print(f"CHECK-ERROR property={pid}: {ex}", file=sys.stderr)
        return 2

