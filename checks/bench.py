#!/usr/bin/env python3
"""Y checks: the benchmark drivers (ycsb/YcsbMain.cpp, framework/Benchmarks.cpp, framework/Main.cpp) over modelled stores, see DESIGN.md."""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import dfyx, hrun
from concurrent.futures import ThreadPoolExecutor
P = sys.argv[1]
H = os.path.join(dfyx.DX, "h")
out = scratch(P)

def link(d, srcs, main, name, flags, extra):
    """Links srcs (name -> path) with main's `main` renamed, so that the harness can call it and the language's rules for main still hold."""
    os.makedirs(d, exist_ok=True)
    def comp(s):
        o = os.path.join(d, os.path.basename(s).rsplit(".", 1)[0] + ".o")
        rc, so, se = run(["clang++"] + flags + ["-c", s, "-o", o], 600)
        if rc != 0:
            raise Inconclusive("harness does not compile: " + " | ".join([l for l in se.splitlines() if "error:" in l][:4])[:1200])
        if s == main:
            rc, so, se = run(["objcopy", "--redefine-sym", "main=" + name, o], 60)
            if rc != 0: raise Inconclusive("objcopy: " + se[:300])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, srcs))
    rc, so, se = run(["clang++"] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")] + objs + ["-Wl,--wrap=exit"] + extra + ["-o", os.path.join(d, "h")], 300)
    if rc != 0:
        raise Inconclusive("harness does not link: " + se[:1500])
    return os.path.join(d, "h")

c = Check(P, rule={"Y01": "distinct runs of the driver (each with other workloads, options and timings)", "Y02": "distinct runs of the built-in benchmarks and of their stopwatches"}[P])
need, mine = [], 0
try:
    if P == "Y01":
        secs = 400 if THOROUGH else 25
        V = ["VERIBETRFS", "ROCKS", "KYOTO", "BERKELEYDB"]
        flags = lambda v: ["-std=c++17", "-w", "-g1", "-O1"] + dfyx.SAN["asan"] + [f"-D_YCSB_{v}", f"-I{H}/ycsb", f"-I{REPO}/ycsb/wrappers", f"-I{REPO}/framework"]
        main = f"{REPO}/ycsb/YcsbMain.cpp"
        with ThreadPoolExecutor(4) as ex:
            exes = list(ex.map(lambda v: link(os.path.join(out, v), [main, f"{REPO}/ycsb/wrappers/ycsbwrappers.cpp", f"{H}/ycsbsim.cpp"], main, "ycsb_main", flags(v), ["-Wl,--wrap=system,--wrap=abort,--wrap=__assert_fail"]), V))
        jobs = [(e, v.lower(), SEED * 100 + i, secs) for i in range(2) for e, v in zip(exes, V)]
        need, mine = [v.lower() + ": " + e for v in V for e in ("load phases", "load phases skipped", "several runs after one load", "syncs when due", "final state synced", "latency reports", "throughput reports", "progress reports", "unsupported workloads refused", "read", "insert", "update", "scan", "readmodifywrite")] + [v.lower() + ": store failures noticed" for v in V[1:]], 100000
    else:
        secs = 200 if THOROUGH else 12
        src = os.path.join(out, "src"); os.makedirs(src)
        for f in ("Application.h", "Benchmarks.h", "Benchmarks.cpp", "Main.cpp"):
            shutil.copy(os.path.join(REPO, "framework", f), src)
        for f in os.listdir(H + "/bmk"):
            shutil.copy(os.path.join(H, "bmk", f), src)
        def build(san):
            main = src + "/Main.cpp"
            return link(os.path.join(out, san), [main, src + "/Benchmarks.cpp", H + "/benchsim.cpp", dfyx.DX + "/rt/DafnyRuntime.cpp"], main, "vb_main",
                        ["-std=c++17", "-msse4.2", "-w", "-g1", "-O2"] + dfyx.SAN[san] + ["-I" + src, f"-I{dfyx.DX}/rt", f"-I{REPO}/framework"], [])
        with ThreadPoolExecutor(2) as ex:
            asan, plain = ex.map(build, ["asan", "none"])
        big = ["big-tree-queries", "mixed-insert-query", "mixed-update-query", "long-random-inserts", "all", "random-queries", "random-inserts"]
        small = ["random-succs", "replay", "simple-test", "command_line", "stopwatch"]
        jobs = [(plain, m, SEED * 100 + i, secs) for i, m in enumerate(big)] + [(asan, m, SEED * 100 + 50 + i, secs) for i, m in enumerate(small)] + [(plain, "random-succs", SEED * 100 + 90, secs)]
        need, mine = [b for b in big + small if b not in ("all", "command_line", "stopwatch")] + ["complete series", "stopwatches judged", "stopwatches cleared", "command lines", "wrong answers noticed", "runs over a store prepared before"], 100000
    hrun.runs(c, jobs, 8, label=P == "Y01")
except Inconclusive as e:
    c.inconclusive.append(str(e))
c.finish(min_evaluations=mine, need_events=need)
