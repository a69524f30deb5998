#!/usr/bin/env python3
"""R03: the executable page allocator of the Rust tree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import rustx, hrun
c = Check("R03", rule="distinct (unit, pages taken, unit size) triples, per worker")
secs = 120 if THOROUGH else 6
try:
    exe = rustx.build(scratch("R03"), "mini_main.rs", ["util.rs"], ["abstract_system", "allocation_layer", "betree", "disk", "journal", "marshalling", "spec", "exec"])
    hrun.runs(c, [(exe, "run", SEED * 100 + i, secs) for i in range(3)], procs=3)
except Inconclusive as e:
    c.inconclusive.append(str(e))
c.finish(min_evaluations=5000, need_events=["run: page handed out", "run: unit filled", "run: observed"])
