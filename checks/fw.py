#!/usr/bin/env python3
"""F checks: the hand-written C++ around the store (disk adapter, application, row cache, native primitives), see DESIGN.md."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import vb, dfyx, hrun
P = sys.argv[1]
F, H = REPO + "/framework/", os.path.join(dfyx.DX, "h")
SECS = 300 if THOROUGH else 25
out = scratch(P)
S = lambda i: SEED * 1000 + int(P[1:]) * 20 + i

def native(c):
    """returns jobs of the native-primitives harness"""
    flags = dfyx.BASE + dfyx.SAN["asan"] + [f"-I{dfyx.DX}/rt", "-I" + F]
    exe = dfyx.cxx(out, [H + "/native.cpp", dfyx.DX + "/rt/DafnyRuntime.cpp"], flags)
    return [(exe, "native", S(i), SECS) for i in range(8)]

def row_exe(name, cap, source):
    flags = dfyx.BASE + dfyx.SAN["asan"] + [f"-I{dfyx.DX}/rt", "-I" + F, f"-DROW={cap}"]
    d = os.path.join(out, name); os.makedirs(d)
    return dfyx.cxx(d, [H + "/rowcache.cpp", source, dfyx.DX + "/rt/DafnyRuntime.cpp"], flags)

c = Check(P, rule={"F01": "distinct request histories of the disk adapter", "F02": "distinct application histories (several crashes or kills each)",
                   "F03": "distinct histories of cache operations", "F04": "distinct batches of random arguments"}[P])
need, mine, info, env = [], 0, None, {"VB_SCRATCH": out}
try:
    if P == "F01":
        exe, info = vb.build_app(out, "asan")
        jobs = [(exe, "io", S(i), SECS) for i in range(8)]
        need, mine = ["io: adapter histories", "io: injected faults refused"], 20000
    elif P == "F02":
        exe, info = vb.build_app(out, "none")
        jobs = [(exe, m, S(i), SECS) for i, m in enumerate(["app"] * 3 + ["prodapp"] + ["kill"] * 2 + ["lossapp"] * 2)]
        need, mine = ["kill: killed stores matched to a prefix", "lossapp: power losses that dropped writes in progress"], 3000
    elif P == "F03":
        src = open(F + "UnverifiedRowCache.cpp").read()
        small = []
        m = re.search(r"(#define[ \t]+ROW_CACHE_SIZE[ \t]+)([^\n]*)", src)
        if m:
            for cap in (2, 3, 5, 12):
                p = os.path.join(out, f"UnverifiedRowCache_{cap}.cpp")
                open(p, "w").write(src[:m.start()] + m.group(1) + str(cap) + src[m.end():])
                small.append((cap, p))
        jobs = []
        for cap, p in small:
            jobs.append((row_exe(f"r{cap}", cap, p), f"capacity {cap}", S(cap), SECS // 3))
        cap = m.group(2).strip() if m else "(1<<18)"
        jobs.append((row_exe("real", cap, F + "UnverifiedRowCache.cpp"), "real capacity", S(0), SECS))
        d = os.path.join(out, "app")
        exe, info = vb.build_app(d, "none", defines=["USE_UNVERIFIED_ROW_CACHE"], sub=small[-1][1] if small else None)
        jobs += [(exe, "app", S(30 + i), SECS) for i in range(3)]
        need, mine = ["real capacity: evictions", "real capacity: cache hits compared"] + [f"capacity {k}: evictions" for k, _ in small], 100000
    else:
        jobs = native(c)
        need, mine = ["native: " + e for e in ("array copies", "bit operations", "comparisons", "integer packings", "linear sequence histories", "other primitives")], 100000
    hrun.runs(c, jobs, 8, info, env=env)
except Inconclusive as e:
    c.inconclusive.append(str(e))
c.finish(min_evaluations=mine, need_events=need)
