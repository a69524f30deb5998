"""The whole VeriBetrFS bundle under a simulated disk (dfyx/h/vbsim.cpp)."""
import json, os, resource, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import dfyx
OV = {"Bounds.NodeBlockSizeUint64": "cfg_node", "Bounds.DiskNumJournalBlocksUint64": "cfg_journal", "Bounds.IndirectionTableBlockSizeUint64": "cfg_indtable",
      "Bounds.MaxTotalBucketWeightUint64": "cfg_bucket", "Bounds.MaxCacheSizeUint64": "cfg_cache", "Bounds.MaxNumChildrenUint64": "cfg_children",
      "Bounds.NumBlocksUint64": "cfg_blocks", "KeyType.MaxLen": "cfg_maxkey", "ValueType.MaxLen": "cfg_maxval"}

def build(out, san):
    F = REPO + "/framework/"
    H = os.path.join(dfyx.DX, "h")
    def go(clone):
        names = ["MainHandlers.*", "KeyType.MaxLen", "ValueType.MaxLen"] + (["CoordinationImpl.clone?"] if clone else [])
        exe, info = dfyx.build(out, "Impl/Bundle.i.dfy", names, [H + "/vbsim.cpp", F + "BundleWrapper.cpp", F + "MallocAccounting.cpp"], OV, san,
                               defines=["HAVE_CLONE"] if clone else [], forceinc=[H + "/sim_externs.h"], opt="2" if san == "none" else None)
        return exe, info
    try:
        return go(True)
    except Inconclusive as e:
        if "clone" not in str(e):
            raise
        return go(False)

def runs(c, exe, info, jobs, cats, san, procs=8):
    """jobs: (mode, seed, secs). Violations of the categories in cats count; TRAP/HANG and crashes count when 'TRAP' is in cats."""
    covnames = info.pop("covnames", [])
    c.extra["translated"] = info
    cov = set()
    def one(j):
        env = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=6000", "UBSAN_OPTIONS": "print_stacktrace=1"}
        out, left, seed = [], j[2], j[1]
        while True:
            t0 = time.time()
            rc, o, e = run([exe, j[0], str(seed), str(int(left))], left * 4 + 150, env=env)
            out.append(((j[0], seed, j[2]), (rc, o, e)))
            left -= time.time() - t0
            seed += 100003
            if left < 2 or '"memstop": true' not in o or any(not v.startswith("FINDING") for v in result_of(o)["violations"]):
                return out
    with ThreadPoolExecutor(procs) as ex:
        for (mode, seed, secs), (rc, o, e) in (x for l in ex.map(one, jobs) for x in l):
            r = result_of(o)
            tag = f"{mode} seed {seed}"
            if r is None:
                rep = next((l for l in e.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l), "")
                if rep or (rc is not None and (rc < 0 or rc == 100)):
                    msg = f"{tag}: the process died (rc {rc}): {rep or e[-300:]}"
                    if rc == -9:
                        c.inconclusive.append(tag + ": killed")
                    elif "TRAP" in cats or not c.notes:
                        (c.violation if "TRAP" in cats else c.notes.append)(msg)
                        if "TRAP" not in cats:
                            c.extra.setdefault("dead_workers", []).append(tag)
                elif rc is None:
                    (c.violation if "HANG" in cats else c.notes.append)(f"{tag}: did not finish in {secs * 4 + 150} s")
                else:
                    c.inconclusive.append(f"{tag}: rc={rc} {e[-300:]}")
                continue
            cov |= set(r.pop("cov", []))
            r.pop("memstop", 0)
            vs = r.pop("violations", [])
            r["violations"] = []
            c.add(r, None)
            for v in vs:
                cat = v.split(":")[0].split(" ")[0]
                if cat in cats:
                    c.violation(v)
                elif cat != "FINDING":
                    c.notes.append("outside this property: " + v[:300])
    never = [covnames[i] for i in range(len(covnames)) if i not in cov]
    c.extra["code_entered"] = {"callables translated": len(covnames), "entered": len(cov), "never entered (sample)": never[:40]}

WRAPS = ["open", "close", "pread", "pwrite", "read", "write", "aio_write", "aio_error", "aio_return", "aio_suspend", "exit", "fsync", "fdatasync", "aio_fsync", "lseek", "fstat", "stat", "access", "ftruncate"]
def build_app(out, san, defines=(), sub=None):
    """The C++ framework with the translated bundle."""
    F = REPO + "/framework/"
    H = os.path.join(dfyx.DX, "h")
    libs = ("-lpthread", "-lrt") + tuple("-Wl,--wrap=" + w for w in WRAPS)
    exe, info = dfyx.build(out, "Impl/Bundle.i.dfy", ["MainHandlers.*", "KeyType.MaxLen", "ValueType.MaxLen"],
                           [H + "/vbapp.cpp", F + "Framework.cpp", F + "BundleWrapper.cpp", F + "MallocAccounting.cpp", sub or F + "UnverifiedRowCache.cpp"], OV, san, defines=defines,
                           libs=libs, forceinc=[H + "/cfg_externs.h"], opt="2" if san == "none" else None)
    return exe, info

# what a report of the application harness (vbapp) says about the store
APP = [(r"mode=mkfsapp", "MKFS"), (r"^(lookup|insert)", "QUERY"), (r"^scan", "SCAN"), (r"after a (crash|power loss|kill)|was lost in a|could not be opened and read", "CRASH"),
       (r"didn't finish|^sync ended", "LIVE"), (r"never-written|overlap|aligned (request|block)", "DISK"), (r"terminate called|exception|: the process died", "TRAP"), (r": the process died", "QUERY")]
def app_runs(c, exe, jobs, cats, secs, scratch_dir):
    """The real application on a simulated device. jobs: (mode, seed). Only reports of the categories in cats count."""
    import hrun, re
    class Sub:   # collects like a Check
        def __init__(s): s.violations, s.inconclusive, s.extra = [], c.inconclusive, {}
        def violation(s, m, *a): s.violations.append(m)
        def add(s, r, label):
            s.violations += r.pop("violations", []); r["violations"] = []
            r["events"] = {"application: " + k: v for k, v in r["events"].items()}
            c.add(r, None)
    s = Sub()
    hrun.runs(s, [(exe, m, seed, secs) for m, seed in jobs], 8, None, label=False, env={"VB_SCRATCH": scratch_dir})
    for v in s.violations:
        k = {cat for rx, cat in APP if re.search(rx, v)}
        (c.violation if k & cats else c.notes.append)(("application: " if k & cats else "outside this property: ") + v[:600])
