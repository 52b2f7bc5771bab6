"""Helpers for the recorders (imported in the process that runs the code under test)."""

import json
import os
import signal
import struct
import sys
import time

SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def enc(x):
    return list(struct.unpack(">ii", struct.pack(">d", float(x))))


def dec(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


def guarded(fn, *args, seconds=20, **kw):
    """Call fn; returns (True, value) or (False, "ExceptionName: text").  Ends after so many seconds of processor time
    (more on the clock: the machine may be busy)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, min(10 * seconds, 240)))
    try:
        return True, fn(*args, **kw)
    except Timeout:
        return False, f"Timeout: no result within {seconds}s"
    except Exception as ex:  # noqa: BLE001 - every failure is an observation
        return False, (type(ex).__name__ + ": " + str(ex).split("\n")[0])[:160]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def clean(s):
    return "".join(c if 32 <= ord(c) < 127 and c not in '|"\\' else "?" for c in str(s))


def write(path, traces):
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
