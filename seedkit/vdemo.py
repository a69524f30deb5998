"""vdemo.py MODE CATS SECS SEED..: builds the store of the repository in the current directory with a simulated disk and runs random histories; exit 1 when one violates CATS."""
import json, os, shutil, subprocess, sys, tempfile, time
H = os.path.dirname(os.path.abspath(__file__)); R = os.getcwd(); F = R + "/framework/"
mode, cats, secs, seeds = sys.argv[1], sys.argv[2].split(","), sys.argv[3], sys.argv[4:]
OV = {"Bounds.NodeBlockSizeUint64": "cfg_node", "Bounds.DiskNumJournalBlocksUint64": "cfg_journal", "Bounds.IndirectionTableBlockSizeUint64": "cfg_indtable",
      "Bounds.MaxTotalBucketWeightUint64": "cfg_bucket", "Bounds.MaxCacheSizeUint64": "cfg_cache", "Bounds.MaxNumChildrenUint64": "cfg_children",
      "Bounds.NumBlocksUint64": "cfg_blocks", "KeyType.MaxLen": "cfg_maxkey", "ValueType.MaxLen": "cfg_maxval"}
names = ["MainHandlers.*", "KeyType.MaxLen", "ValueType.MaxLen"] + (["CoordinationImpl.clone?"] if mode == "clone" else [])
out = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
try:
    sys.path.insert(0, H)
    import emit
    h, c, e = emit.compile_(R + "/Impl/Bundle.i.dfy", names, OV)
    emit.write(out, h, c, 8)
    srcs = [f"{out}/part_{i}.cpp" for i in range(8)] + [H + "/DafnyRuntime.cpp", H + "/vbsim.cpp", F + "BundleWrapper.cpp", F + "MallocAccounting.cpp"]
    fl = ["-std=c++17", "-msse4.2", "-mpclmul", "-w", "-O2", "-I" + out, "-I" + H, "-I" + F, "-include", H + "/sim_externs.h"] + (["-DHAVE_CLONE"] if mode == "clone" else [])
    ps = [subprocess.Popen(["clang++"] + fl + ["-c", s, "-o", f"{out}/{i}.o"]) for i, s in enumerate(srcs)]
    if any([p.wait() for p in ps]): sys.exit("does not compile")
    subprocess.check_call(["clang++"] + [f"{out}/{i}.o" for i in range(len(srcs))] + ["-o", out + "/h", "-lpthread", "-lrt"])
    def one(s):
        r, end = [], time.time() + int(secs)
        while time.time() < end - 1 and not any(v.split(":")[0] in cats for v in r):
            p = subprocess.run([out + "/h", mode, str(s), str(int(end - time.time()))], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            l = [l for l in p.stdout.decode("utf8", "replace").splitlines() if l.startswith("RESULT ")]
            if not l: return r + ["TRAP: a run died (rc %d)" % p.returncode]
            r += json.loads(l[-1][7:])["violations"]; s = int(s) + 100003
        return r
    from concurrent.futures import ThreadPoolExecutor
    hits = [v for r in ThreadPoolExecutor(8).map(one, seeds) for v in r if v.split(":")[0] in cats]
    for x in hits[:3]: print(x)
    sys.exit(1 if hits else 0)
finally:
    shutil.rmtree(out, ignore_errors=True)
