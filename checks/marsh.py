#!/usr/bin/env python3
"""M01/M02/M03: Splinter's marshalling library, run in erased mode against a byte-level oracle."""
import sys, os
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import rustx
prop = sys.argv[1]
RULE = {"M01": "distinct (format, value) pairs marshalled and read back", "M02": "distinct (format, byte string) pairs parsed",
        "M03": "distinct (format, edit history) pairs"}[prop]
c = Check(prop, rule=RULE + ", counted per worker process")
secs, procs = (600, 8) if THOROUGH else (20, 6)
try:
    exe = rustx.build(scratch(prop), "marsh_main.rs", ["util.rs", "marsh.rs"], ["marshalling"])
    def one(i):
        return run([exe, prop, str(SEED * 1000 + i), str(secs), "100000000"], secs * 3 + 120)
    with ThreadPoolExecutor(procs) as ex:
        for i, (rc, o, e) in enumerate(ex.map(one, range(procs))):
            r = result_of(o)
            if r is None:
                if rc is not None and rc < 0:
                    c.violation(f"worker {i} (seed {SEED * 1000 + i}) died on signal {-rc}: {e[-400:]}")
                elif rc == 101 or "memory allocation of" in e:
                    c.violation(f"worker {i} (seed {SEED * 1000 + i}) aborted: {e[-400:]}")
                else:
                    c.inconclusive.append(f"worker {i}: rc={rc} {e[-400:]}")
            else:
                c.add(r)
except Inconclusive as e:
    c.inconclusive.append(str(e))
c.finish(min_evaluations=50000, need_events={"M01": ["marshal", "read back"], "M02": ["accepted", "rejected", "well-formed", "element refused"], "M03": ["initialised", "append", "set", "resize", "append refused"]}[prop])
