#!/usr/bin/env python3
"""D01..: the library data structures under lib/, translated and driven against simple models."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import dfyx, hrun
D = {  # property: (harness, driver, entry points, rule, needed events, extra sources)
    "D01": ("maps", ["DrvL.*", "DrvC.*", "DrvM.*"], "map histories (each a different seed)", ["lookup", "update by iterator", "simple iteration", "lookup in a clone", "nearly full tables", "final linear lookup", "object iteration", "leak checks"], []),
    "D02": ("btree", ["DrvBig.*", "DrvSmall.*", "DrvOdd.*"], "tree histories (each a different seed)", ["insertions", "overwrites", "absent lookups", "present lookups", "walks over very deep trees", "trees freed", "leak checks"], []),
    "D03": ("packed", ["DrvP.*", "DrvK.*"], "packed lists (each a different seed)", ["sub-range of a sub-range", "searches", "snapshot of a growing array", "appends in place", "left of a split", "unpacked package", "hostile bytes accepted", "hostile bytes refused", "leak checks"], []),
    "D04": ("bucket", ["DrvB.*"], "buffer histories and flushes (each a different seed)", ["buffer after an insertion", "clone after a change of the original", "left part", "prefix present", "ordered contents", "list with one buffer split", "joined list of five parts", "complete flushes", "partial flushes", "flushes without room", "range judgements", "leak checks"], []),
}
CFG = {"Bounds.MaxTotalBucketWeightUint64": "cfg_bucket"}  # constants of the repository that a harness varies
prop = sys.argv[1]
har, names, rule, need, srcs = D[prop]
c = Check(prop, rule=rule)
try:
    d = scratch(prop)
    root = dfyx.drv(d, har)
    secs = 400 if THOROUGH else 14
    jobs = []
    for san, n in (("asan", 5), ("none", 2)):
        exe, info = dfyx.build(os.path.join(d, san), root, names, [os.path.join(dfyx.DX, "h", har + ".cpp")] + [os.path.join(REPO, s) for s in srcs], CFG, san, forceinc=[os.path.join(dfyx.DX, "h", "cfg_externs.h")], parts=4, defines=(["HLEAK"] if san == "none" and "leak checks" in need else []))
        jobs += [(exe, "run", SEED * 100 + i + (50 if san == "none" else 0), secs) for i in range(n)]
    hrun.runs(c, jobs, procs=7, info=info, label=False)
except Inconclusive as e:
    c.inconclusive.append(str(e))
c.finish(min_evaluations=20000, need_events=need)
