#!/usr/bin/env python3
"""P01..: the repository's Python tools, run in generated projects (pyt/h.py) and compared with independent models."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import hrun
T = {
    "P01": ("generated projects with their verifier reports", 5000, ["successful verdicts", "failing verdicts", "a single failing file", "failures: parse", "failures: type", "failures: error", "failures: assume", "failures: timeout", "failures: rlimit", "report missing or cut short", "reports of all files", "published: success", "published: failure", "published: neutral"]),
    "P02": ("generated include graphs", 5000, ["dependency closures", "refused: trust", "refused: missing", "refused: undeclared", "orderings", "cyclic projects", "rebuild rules judged"]),
    "P03": ("generated projects with their verifier reports", 3000, ["files drawn: " + k for k in ("parse", "type", "error", "assume", "timeout", "rlimit", "dynamic", "ok", "syn")] + ["reports with failures", "clean reports"]),
    "P04": ("generated projects with their printed sources", 2000, ["files counted", "trusted files counted", "other files counted", "texts filtered", "line reports"]),
    "P05": ("generated files and moves", 5000, ["files moved", "files renamed", "referrers judged", "headers: none before", "headers: old before", "headers: current before", "headers: second run", "notices added", "interpreter lines kept", "export sets", "constants set", "unknown constants", "cache sizes computed"]),
    "P06": ("suites, schedules and machine sets", 5000, ["configurations", "joined suites", "tasks run", "more tasks than workers", "too many tasks refused", "parallel runs", "dry runs", "worker selections", "scalings up", "scalings down", "dry scalings", "listings", "single starts and stops", "ambiguous names refused", "starts with failures"]),
    "P08": ("option lists, failing preparation steps and machine sets", 5000, ["experiments run", "experiments on veri", "experiments on rocks", "experiments on berkeley", "experiments on kyoto", "settings built in", "experiments from archives", "default memory limits", "refused option lists", "failed preparations", "failed experiments", "experiments stopped by their budget", "experiments launched", "commands sent to fleets", "dry fleets", "too small fleets", "shells"]),
    "P09": ("generated result files", 5000, ["comparisons", "throughput curves", "memory curves", "unreadable logs skipped", "verification time reports", "bogus workers dropped", "b-tree comparisons", "bars"]),
    "P07": ("generated logs", 5000, ["traces", "logs read", "logs with several phases", "log quantities", "profiles read", "profiles compared", "profiles by max", "profiles by sum", "profiles by count"]),
}
prop = sys.argv[1]
rule, need, evs = T[prop]
c = Check(prop, rule=rule)
try:
    d = scratch(prop)
    h = os.path.join(VERIF, "pyt", "h.py")
    hrun.runs(c, [(h, prop, SEED * 100 + i, 300 if THOROUGH else 15) for i in range(8)], procs=8, label=False, env={"PYT_REPO": REPO, "PYT_SCRATCH": d, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
except Inconclusive as e:
    c.inconclusive.append(str(e))
c.finish(min_evaluations=need, need_events=evs)
