#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the list in seeds*.py: patch, demonstration and description; `mk.py ID..` also confirms them in a scratch copy.
   Not used by any check."""
import glob, importlib, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); REPO = "/repo"
sys.path.insert(0, H)
def sh(*a, cwd=None, t=300):
    try:
        p = subprocess.run(a, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""
KITS = {
  "v": ["dfyx/parse.py", "dfyx/sema.py", "dfyx/emit.py", "dfyx/rt/DafnyRuntime.h", "dfyx/rt/DafnyRuntime.cpp", "dfyx/rt/dfyx_externs.h", "dfyx/h/vbsim.cpp", "dfyx/h/sim_externs.h", "seedkit/vdemo.py"],
  "app": ["dfyx/parse.py", "dfyx/sema.py", "dfyx/emit.py", "dfyx/rt/DafnyRuntime.h", "dfyx/rt/DafnyRuntime.cpp", "dfyx/rt/dfyx_externs.h", "dfyx/h/cfg_externs.h", "seedkit/appdemo.py"],
  "dfy": ["dfyx/parse.py", "dfyx/sema.py", "dfyx/emit.py", "dfyx/rt/DafnyRuntime.h", "dfyx/rt/DafnyRuntime.cpp", "dfyx/rt/dfyx_externs.h", "seedkit/dfydemo.py"],
  "rust": ["rust/vstd_shim/lib.rs", "seedkit/rustdemo.py"],
  "kv": ["rust/vstd_shim/lib.rs", "seedkit/rustdemo.py", "rust/harness/util.rs", "rust/harness/kv_env.rs", "rust/harness/kv_client.rs"],
  "pyt": ["pyt/h.py", "pyt/stub", "pyt/stub2"],
  "ycsb": ["dfyx/h/ycsb", "dfyx/h/ycsbsim.cpp"],
  "bench": ["dfyx/h/bmk", "dfyx/h/benchsim.cpp", "dfyx/rt/DafnyRuntime.h", "dfyx/rt/DafnyRuntime.cpp"],
  "sp": ["sp/" + f for f in ("gen.py", "parse.py", "rt.py", "mon.py", "journal.py", "work.py", "s01.py", "s02.py", "s03.py", "s04.py", "s05.py", "s06.py", "s07.py")],
  "": [],
}
def all_seeds():
    out = {}
    for f in sorted(glob.glob(H + "/seeds*.py")):
        for s in importlib.import_module(os.path.basename(f)[:-3]).S:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out
def make(s):
    d = os.path.join(V, "seeded_dafny" if any(f.endswith(".dfy") for f, _, _ in s["edits"]) else "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seedwt-", dir="/tmp")
    try:
        sh("git", "-C", REPO, "worktree", "add", "--detach", w + "/r", "HEAD"); r = w + "/r"
        for f, old, new in s["edits"]:
            t = open(os.path.join(r, f)).read()
            if t.count(old) != 1:
                raise SystemExit(f"{s['id']}: {f}: text occurs {t.count(old)} times: {old!r}")
            open(os.path.join(r, f), "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git", "diff", cwd=r)[1])
        for f in KITS[s.get("kit", "")]:
            src, dst = os.path.join(V, f), os.path.join(d, os.path.basename(f))
            if os.path.isdir(src): shutil.copytree(src, dst, ignore=shutil.ignore_patterns("__pycache__"))
            else: shutil.copy(src, dst)
        for name, text in s.get("files", {}).items():
            open(os.path.join(d, name), "w").write(text)
        open(d + "/demo.sh", "w").write("#!/bin/bash\n# cwd: the repository. Exit 0 when the property holds here.\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\n" + s["demo"] + "\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # confirm
        sh("git", "checkout", "-q", "--", ".", cwd=r)
        k = tempfile.mkdtemp(prefix="seedkit-", dir="/tmp")
        for f in os.listdir(d):
            if os.path.isdir(os.path.join(d, f)): shutil.copytree(os.path.join(d, f), os.path.join(k, f))
            elif not f.endswith((".diff", ".json")): shutil.copy(os.path.join(d, f), k)
        a = sh("bash", k + "/demo.sh", cwd=r)
        sh("git", "apply", d + "/patch.diff", cwd=r)
        b = sh("bash", k + "/demo.sh", cwd=r)
        shutil.rmtree(k)
        ok = a[0] == 0 and b[0] not in (0, "timeout")
        print(("OK  " if ok else "BAD ") + s["id"], "clean rc", a[0], "patched rc", b[0])
        if not ok: print("--clean", a[1][-900:], "\n--patched", b[1][-900:])
        else: print("     ", b[1].strip().splitlines()[-1][:200] if b[1].strip() else "")
        return ok
    finally:
        sh("git", "-C", REPO, "worktree", "remove", "--force", w + "/r"); shutil.rmtree(w, ignore_errors=True); sh("git", "-C", REPO, "worktree", "prune")
if __name__ == "__main__":
    S = all_seeds()
    ids = [i for i in S if any(i.startswith(a) for a in sys.argv[1:])] if sys.argv[1:] else list(S)
    for i in ids:
        try: make(S[i])
        except SystemExit as e: print("BAD ", e)
