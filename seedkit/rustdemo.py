"""rustdemo.py MAIN.rs MODULE..: compiles MAIN.rs with the named modules of Splinter/src of the repository in the current directory (Verus annotations erased) and runs it; exit as it does."""
import os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__)); R = os.getcwd(); V = "/opt/veriftools/verus"
RC = ["rustc", "+1.98.1", "--edition=2021", "-O"]; ENV = dict(os.environ, RUSTC_BOOTSTRAP="1")
out = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
try:
    ext = ["-L", f"dependency={V}", "--extern", f"verus_builtin={V}/libverus_builtin.rlib", "--extern", f"verus_builtin_macros={V}/libverus_builtin_macros.so"]
    subprocess.run(RC + ["--crate-name", "vstd", "--crate-type", "rlib", *ext, H + "/lib.rs", "-o", out + "/libvstd.rlib"], env=ENV, check=True, stderr=subprocess.DEVNULL)
    d = out + "/crate"; os.mkdir(d)
    mods = [a for a in sys.argv[2:] if a != "--kv"]; kv = "--kv" in sys.argv
    for m in mods:
        for n in (m, m + ".rs"):
            if kv and os.path.isdir(f"{R}/Splinter/src/{n}"): shutil.copytree(f"{R}/Splinter/src/{n}", f"{d}/{n}")
            elif os.path.exists(f"{R}/Splinter/src/{n}"): os.symlink(f"{R}/Splinter/src/{n}", f"{d}/{os.path.basename(n)}")
    shutil.copy(f"{H}/{sys.argv[1]}", d + "/main.rs")
    if kv:
        for f in ("util.rs", "kv_env.rs"): shutil.copy(f"{H}/{f}", d)
        shutil.copy(f"{H}/kv_client.rs", d + "/trusted/ClientAPI_t.rs")
        t = open(d + "/implementation/DiskLayout_v.rs").read()
        for n in ("marshall", "unmarshall"):
            t = re.sub(r"(pub (?:exec )?fn %s\((\w+): [^)]*\)[^{]*)\{[^}]*unreached\(\)\s*\}" % n, lambda m: "#[verifier::external_body]\n" + m.group(1) + "{ crate::kv_env::" + n + "(" + m.group(2) + ") }", t)
        open(d + "/implementation/DiskLayout_v.rs", "w").write(t)
    p = subprocess.run(RC + ["-C", "debug-assertions=on", *ext, "--extern", f"vstd={out}/libvstd.rlib", "--extern", f"builtin={V}/libverus_builtin.rlib",
        "--extern", f"builtin_macros={V}/libverus_builtin_macros.so", "--extern", f"state_machines_macros={V}/libverus_state_machines_macros.so",
        "-Zcrate-attr=feature(register_tool)", "-Zcrate-attr=register_tool(verifier,verus)", "main.rs", "-o", out + "/x"], cwd=d, env=ENV, stderr=subprocess.PIPE)
    if p.returncode: print("\n".join(l for l in p.stderr.decode().splitlines() if not l.startswith("warning"))[-2500:]); sys.exit(2)
    sys.exit(subprocess.run([out + "/x"] + (["run", "1", "4"] if kv else []), timeout=250).returncode)
finally:
    shutil.rmtree(out, ignore_errors=True)
