#!/usr/bin/env python3
"""R01: the concurrent bank of the Rust tree, under scheduled and free-running threads."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import rustx, hrun
c = Check("R01", rule="distinct (schedule, history) pairs of scheduled runs and distinct (transfer, balances) pairs of sequential runs, per worker")
secs = 400 if THOROUGH else 15
try:
    exe = rustx.build(scratch("R01"), "bank_main.rs", ["util.rs"], ["example/" + m for m in ("BankSpec_t", "BankContract_t", "Bank_v", "ClientAPI_t", "VerifiedEntry_t", "SimpleBank_v", "BankObligations_v")])
    hrun.runs(c, [(exe, "sched", SEED * 100 + i, secs) for i in range(4)] + [(exe, "seq", SEED, secs), (exe, "stress", SEED, secs)], procs=7)
    for i in range(20 if THOROUGH else 5):
        rc, o, e = run([exe, "entry", "0", "0"], 120)
        tot = re.findall(r"total: (\d+)", o)
        if rc is None:
            c.violation("the bank's own concurrent program did not end in 120 s")
        elif rc != 0:
            c.violation(f"the bank's own concurrent program ended with {rc}: {e[-300:]}")
        elif len(set(tot)) > 1:
            c.violation(f"the bank's own concurrent program printed different totals: {tot}")
        else:
            c.event("own program runs")
except Inconclusive as e:
    c.inconclusive.append(str(e))
c.finish(min_evaluations=5000, need_events=["sched: transfer done", "sched: transfer refused", "stress: contended acquisitions", "seq: transfer done"])
