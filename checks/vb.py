#!/usr/bin/env python3
"""V checks: the real VeriBetrFS handlers against an independent model, see DESIGN.md."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import vb
from concurrent.futures import ThreadPoolExecutor
P = sys.argv[1]
# property: (modes, categories, sanitizer, needed events, minimum evaluations)
T = {
 "V01": (["dict"] * 5 + ["prod", "space", "crash"], {"QUERY"}, "none", ["query answers with a value", "inserts", "deletions"], 20000),
 "V02": (["scan"] * 6 + ["dict", "prod"], {"SCAN"}, "none", ["scans compared", "scan entries compared", "full scans compared"], 2000),
 "V03": (["crash"] * 6 + ["sync", "disk"], {"CRASH"}, "none", ["crash states matched to a history prefix", "of those applied", "crash kept part of the unsynced suffix", "double crashes", "checkpoint syncs completed", "log syncs completed"], 300),
 "V04": (["sync"] * 4 + ["dict", "scan", "space", "disk"], {"LIVE", "SYNC", "HANG", "FINDING"}, "none", ["fair phases", "syncs requested", "log syncs completed", "checkpoint syncs completed"], 1000),
 "V05": (["disk"] * 5 + ["crash", "space", "sync"], {"DISK"}, "none", ["pairs of outstanding requests compared", "superblock writes", "double writes"], 20000),
 "V06": (["corrupt"] * 7 + ["disk"], {"CORRUPT", "SUM"}, "none", ["corrupted reads of superblocks", "corrupted reads of other blocks", "corrupted reads of journal blocks", "restarts after corrupted reads", "written blocks whose checksum was recomputed"], 3000),
 "V08": (["dict", "scan", "crash", "sync", "disk", "corrupt", "clone", "prod"], {"TRAP", "HANG"}, "asan", ["runs"], 3000),
 "V09": (["space"] * 6 + ["disk", "sync"], {"CACHE", "LIVE"}, "none", ["runs"], 3000),
 "V10": (["mkfs"] * 6 + ["prod"], {"MKFS"}, "none", ["fresh images checked empty", "mkfs blocks checked"], 500),
 "V11": (["clone"] * 6, {"QUERY", "SCAN", "CRASH"}, "none", ["clones", "crash states matched to a history prefix"], 1000),
}
A = {   # the same property of the real application, in the same way
 "V01": (["app"] * 5 + ["prodapp", "mkfsapp"], ["lookups with a value"]),
 "V02": (["app"] * 5 + ["prodapp"] * 2, ["scans compared"]),
 "V03": (["lossapp"] * 5 + ["kill"] * 2, ["power losses that dropped writes in progress", "power losses that lost an unsynced suffix", "killed stores matched to a prefix"]),
 "V04": (["app"] * 3 + ["lossapp", "prodapp", "mkfsapp"], ["log syncs", "checkpoint syncs"]),
 "V05": (["lossapp"] * 3 + ["app"] * 3 + ["mkfsapp"], ["requests of the application judged"]),
 "V08": (["app"] * 4 + ["lossapp", "mkfsapp"], ["application runs"]),
 "V10": (["mkfsapp"] * 7, ["fresh devices formatted", "old stores formatted again", "formatted stores checked empty"]),
}
modes, cats, san, need, mine = T[P]
c = Check(P, rule="distinct simulated histories (random workload, configuration and schedule), counted as runs")
secs, reps = (400, 1) if THOROUGH else (30, 1)
try:
    d = scratch(P)
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(vb.build_app, os.path.join(d, "app"), san) if P in A else None
        exe, info = ex.submit(vb.build, os.path.join(d, "sim"), san).result()
        try: app = fa.result()[0] if fa else None
        except Inconclusive as e: app = None; c.notes.append("application not built, only the handlers were run: " + str(e))
    jobs = [(m, SEED * 1000 + int(P[1:]) * 20 + i, secs) for i, m in enumerate(modes)]
    vb.runs(c, exe, info, jobs, cats, san, procs=8 if not THOROUGH else 6)
    if app:
        vb.app_runs(c, app, [(m, SEED * 1000 + int(P[1:]) * 20 + i) for i, m in enumerate(A[P][0])], cats, 240 if THOROUGH else 14, d)
        need = need + ["application: " + e for e in A[P][1]]
    if P == "V09":   # stalls already recorded against progress are judged there
        c.violations = [v for v in c.violations if not v["what"].startswith("LIVE") or "mode=space" in v["what"]]
except Inconclusive as e:
    c.inconclusive.append(str(e))
c.finish(min_evaluations=mine, need_events=need)
