"""appdemo.py MAIN.cpp [define..]: builds the C++ application of the repository in the current directory (its verified part translated) with MAIN.cpp and runs it."""
import os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__)); R = os.getcwd(); F = R + "/framework/"
OV = {"Bounds.NodeBlockSizeUint64": "cfg_node", "Bounds.DiskNumJournalBlocksUint64": "cfg_journal", "Bounds.IndirectionTableBlockSizeUint64": "cfg_indtable",
      "Bounds.MaxTotalBucketWeightUint64": "cfg_bucket", "Bounds.MaxCacheSizeUint64": "cfg_cache", "Bounds.MaxNumChildrenUint64": "cfg_children",
      "Bounds.NumBlocksUint64": "cfg_blocks", "KeyType.MaxLen": "cfg_maxkey", "ValueType.MaxLen": "cfg_maxval"}
out = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
try:
    sys.path.insert(0, H)
    import emit
    h, c, e = emit.compile_(R + "/Impl/Bundle.i.dfy", ["MainHandlers.*", "KeyType.MaxLen", "ValueType.MaxLen"], OV)
    emit.write(out, h, c, 8)
    srcs = [f"{out}/part_{i}.cpp" for i in range(8)] + [H + "/DafnyRuntime.cpp", H + "/" + sys.argv[1]] + [F + x + ".cpp" for x in ("Framework", "BundleWrapper", "MallocAccounting", "UnverifiedRowCache")]
    fl = ["-std=c++17", "-msse4.2", "-mpclmul", "-w", "-O2", "-I" + out, "-I" + H, "-I" + F, "-include", H + "/cfg_externs.h"] + ["-D" + d for d in sys.argv[2:]]
    ps = [subprocess.Popen(["clang++"] + fl + ["-c", s, "-o", f"{out}/{i}.o"]) for i, s in enumerate(srcs)]
    if any([p.wait() for p in ps]): sys.exit("does not compile")
    subprocess.check_call(["clang++"] + [f"{out}/{i}.o" for i in range(len(srcs))] + ["-o", out + "/h", "-lpthread", "-lrt"] + ["-Wl,--wrap=" + w for w in os.environ.get("WRAPS", "").split()])
    sys.exit(1 if subprocess.call([out + "/h"], cwd=out, timeout=200) else 0)
finally:
    shutil.rmtree(out, ignore_errors=True)
