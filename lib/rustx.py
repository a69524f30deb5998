"""Builds the *executable* part of /repo/Splinter/src with plain rustc in Verus' erased mode."""
import os, re, shutil
from vlib import *
V = "/opt/veriftools/verus"
RUSTC = ["rustc", "+1.98.1", "--edition=2021"]
ENV = {"RUSTC_BOOTSTRAP": "1"}

def build(root, main, files, modules, flags=(), override=None, timeout=600):
    """Lay out a crate root (symlinks to the repo's modules + harness files; override: path -> text put in a copy) and compile it. Returns the binary."""
    src = os.path.join(REPO, "Splinter/src")
    shim, shim_rs = os.path.join(root, "libvstd.rlib"), os.path.join(root, "vstd.rs")
    ext = ["--extern", f"verus_builtin={V}/libverus_builtin.rlib", "--extern", f"verus_builtin_macros={V}/libverus_builtin_macros.so"]
    shutil.copy(os.path.join(VERIF, "rust/vstd_shim/lib.rs"), shim_rs)
    def build_shim():
        rc, o, e = run(RUSTC + ["-O", "--crate-name", "vstd", "--crate-type", "rlib", "-L", f"dependency={V}", *ext, *flags, shim_rs, "-o", shim], timeout, env=ENV)
        if rc != 0:
            raise Inconclusive("vstd stand-in does not build: " + e[-800:])
    build_shim()
    d = os.path.join(root, "crate")
    os.makedirs(d, exist_ok=True)
    for m in modules:
        for n in (m, m + ".rs"):
            if os.path.isdir(os.path.join(src, n)) and any(k.startswith(n + "/") for k in override or {}):
                shutil.copytree(os.path.join(src, n), os.path.join(d, n))
            elif os.path.exists(os.path.join(src, n)):
                os.symlink(os.path.join(src, n), os.path.join(d, os.path.basename(n)))
    for f in files + [main]:
        os.symlink(os.path.join(VERIF, "rust/harness", f), os.path.join(d, f))
    for dst, s in (override or {}).items():
        p = os.path.join(d, dst)
        if os.path.exists(p):
            os.remove(p)
        with open(p, "w") as f:
            f.write(s)
    exe = os.path.join(root, "harness")
    for _ in range(6):
        rc, o, e = run(RUSTC + ["-O", "-C", "debug-assertions=on", "-C", "overflow-checks=on", *flags,
                                "-L", f"dependency={V}", "--extern", f"vstd={shim}", "--extern", f"builtin={V}/libverus_builtin.rlib",
                                "--extern", f"builtin_macros={V}/libverus_builtin_macros.so", *ext,
                                "--extern", f"state_machines_macros={V}/libverus_state_machines_macros.so",
                                "-Zcrate-attr=feature(register_tool)", "-Zcrate-attr=register_tool(verifier,verus)",
                                main, "-o", exe := os.path.join(root, "harness")], timeout, cwd=d, env=ENV)
        if rc == 0:
            return exe
        # ghost names imported from vstd (lemmas, modules): give the stand-in empty ones
        if not extend_shim(shim_rs, e):
            break
        build_shim()
    errs = "\n".join(l for l in e.splitlines() if not l.startswith("warning"))
    raise Inconclusive("harness does not build: " + errs[-3000:])

def extend_shim(path, errors):
    """Adds what `use vstd::...` lines name and the stand-in lacks. Returns whether anything was added."""
    old = s = open(path).read()
    named = set(re.findall(r"`(\w+)`", " ".join(re.findall(r"error\[E043[23]\]: .*", errors)))) | {x.split("::")[-1] for x in re.findall(r"`(vstd::[\w:]+)`", errors)}
    if not named:
        return False
    paths = set()
    for root, _, fs in os.walk(os.path.join(os.path.dirname(path), "crate"), followlinks=True):
        for f in fs:
            if f.endswith(".rs"):
                for u in re.findall(r"\buse\s+(vstd::[^;]*);", open(os.path.join(root, f)).read()):
                    paths |= expand(re.sub(r"\s+as\s+\w+|\s", "", u))
    for full in sorted(paths):
        parts = [x for x in full.split("::") if x not in ("*", "self")]
        if named & set(parts):
            at = 0
            for k, x in enumerate(parts[1:]):
                mod = re.compile(r"pub mod %s\s*\{" % x).search(s, at)
                if mod and (at == 0 or mod.start() < close(s, at)):
                    at = mod.end()
                    continue
                if x not in named:
                    break
                new = f"pub mod {x} {{}} pub fn {x}() {{}} "
                if at == 0:
                    s += "\n" + new
                else:
                    s = s[:at] + " " + new + s[at:]
                break
    if s != old:
        with open(path, "w") as f:
            f.write(s)
    return s != old

def expand(u):
    """`a::{b, c::{d}}` -> {a::b, a::c::d}"""
    m = re.match(r"([^{]*)\{(.*)\}$", u)
    if not m:
        return {u}
    out, depth, cur = set(), 0, ""
    for ch in m.group(2) + ",":
        if ch == "," and depth == 0:
            if cur:
                out |= {m.group(1) + x for x in expand(cur)}
            cur = ""
            continue
        depth += {"{": 1, "}": -1}.get(ch, 0)
        cur += ch
    return out

def close(s, at):
    """Index of the brace that closes the block opened just before `at`."""
    d = 1
    for i in range(at, len(s)):
        d += {"{": 1, "}": -1}.get(s[i], 0)
        if d == 0:
            return i
    return len(s)
