"""Runs harness workers that end with a RESULT line and merges what they saw into a Check."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

SANENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=6000", "UBSAN_OPTIONS": "print_stacktrace=1",
          "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}
REPORTS = ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "ERROR: LeakSanitizer")

def runs(c, jobs, procs=8, info=None, crash_is_violation=True, label=True, env=None):
    """jobs: (exe, mode, seed, secs[, env]). A worker killed by a signal or a sanitizer report is a violation; a timeout is inconclusive."""
    covnames = (info or {}).pop("covnames", [])
    if info:
        c.extra["translated"] = info
    cov = set()
    def one(j):
        exe, mode, seed, secs = j[:4]
        e = dict(SANENV); e.update(env or {}); e.update(j[4] if len(j) > 4 else {})
        return j, run([exe, mode, str(seed), str(secs)], secs * 4 + 150, env=e)
    with ThreadPoolExecutor(procs) as ex:
        for j, (rc, o, e) in ex.map(one, jobs):
            tag = f"{j[1]} seed {j[2]}"
            r = result_of(o)
            rep = next((l for l in e.splitlines() if any(x in l for x in REPORTS)), "")
            if r is None:
                if rc == -9:
                    c.inconclusive.append(tag + ": killed")
                elif rep or (rc is not None and rc < 0):
                    c.violation(f"{tag}: the process died (rc {rc}): {rep} {e[-400:] if not rep else ' '.join(l.strip() for l in e.splitlines() if l.strip().startswith('#'))[:500]}")
                elif rc is None:
                    c.inconclusive.append(f"{tag}: did not finish in {j[3] * 4 + 150} s")
                else:
                    c.inconclusive.append(f"{tag}: rc={rc} {e[-300:]}")
                continue
            cov |= set(r.pop("cov", []))
            c.add(r, j[1] if label else None)
            if rep:
                c.violation(f"{tag}: {rep}")
    if covnames:
        never = [covnames[i] for i in range(len(covnames)) if i not in cov]
        c.extra["code_entered"] = {"callables translated": len(covnames), "entered": len(covnames) - len(never), "never entered (sample)": never[:40]}
