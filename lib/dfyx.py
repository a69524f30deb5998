"""Building harnesses over the Dafny-dialect sources (translated by /verif/dfyx) and the C++ framework."""
import os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
DX = os.path.join(VERIF, "dfyx")
BASE = ["-std=c++17", "-msse4.2", "-mpclmul", "-w", "-g1", "-O1"]
SAN = {"none": [], "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
       "tsan": ["-fsanitize=thread"]}

def _gen(out, root, names, overrides, parts):
    prog = ("import sys,json;sys.path.insert(0,sys.argv[1]);import emit\n"
            "a=json.loads(sys.argv[2])\n"
            "h,c,e=emit.compile_(a['root'],a['names'],a['over'])\n"
            "emit.write(a['out'],h,c,a['parts'])\n"
            "print(json.dumps({'callables':len(e.fdone),'covnames':e.covnames,'datatypes':len(e.dts),'unused':sorted(set(a['over'])-e.over_used)}))")
    rc, o, e = run([sys.executable, "-c", prog, DX, json.dumps({"root": root, "names": names, "over": overrides, "out": out, "parts": parts})], 300)
    if rc != 0:
        raise Inconclusive(f"dfyx cannot translate {root}: {e.strip().splitlines()[-1][:400] if e.strip() else rc}")
    return json.loads(o.splitlines()[-1])

def build(out, root, names, sources, overrides=None, san="asan", defines=(), libs=("-lpthread", "-lrt"), parts=8, incs=(), exe="h", opt=None, forceinc=()):
    """Translates root (relative to the repository) and links it with sources (absolute paths). Returns (path, info)."""
    os.makedirs(out, exist_ok=True)
    t0 = time.time()
    info = _gen(out, os.path.join(REPO, root), names, overrides or {}, parts)
    t1 = time.time()
    flags = BASE + SAN[san] + (["-O" + opt] if opt else []) + [f"-D{d}" for d in defines] + [f"-I{i}" for i in incs] + [f"-I{out}", f"-I{DX}/rt", f"-I{REPO}/framework"] + [x for f in forceinc for x in ("-include", f)]
    srcs = [os.path.join(out, f"part_{i}.cpp") for i in range(parts)] + [os.path.join(DX, "rt", "DafnyRuntime.cpp")] + list(sources)
    exe = cxx(out, srcs, flags, libs, exe)
    info["translate_s"], info["compile_s"] = round(t1 - t0, 1), round(time.time() - t1, 1)
    return exe, info

def cxx(out, srcs, flags, libs=("-lpthread", "-lrt"), exe="h"):
    def comp(s):
        o = os.path.join(out, os.path.basename(s).rsplit(".", 1)[0] + ".o")
        return o, run(["clang++"] + flags + ["-c", s, "-o", o], 600)
    objs = []
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for o, (rc, so, se) in ex.map(comp, sorted(srcs, key=lambda s: -os.path.getsize(s))):
            if rc != 0:
                raise Inconclusive("harness does not compile: " + " | ".join([l for l in se.splitlines() if "error:" in l][:4])[:1200])
            objs.append(o)
    path = os.path.join(out, exe)
    rc, so, se = run(["clang++"] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")] + objs + ["-o", path] + list(libs), 300)
    if rc != 0:
        raise Inconclusive("harness does not link: " + se[:1800])
    return path

def drv(out, name):
    """Instantiates dfyx/drv/NAME.dfy, a driver that gives the repository's generic modules concrete types."""
    os.makedirs(out, exist_ok=True)
    p = os.path.join(out, name + ".dfy")
    with open(p, "w") as f:
        f.write(open(os.path.join(DX, "drv", name + ".dfy")).read().replace("@REPO@", REPO))
    return p
