#!/usr/bin/env python3
"""R02: the sequential key-value program of the Rust tree against a scripted client and disk."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import rustx, hrun
c = Check("R02", rule="distinct superblock writes and distinct states at a sync's answer, per worker")
secs = 300 if THOROUGH else 12
try:
    t = open(os.path.join(REPO, "Splinter/src/implementation/DiskLayout_v.rs")).read()
    # (un)marshalling of the superblock is not written yet in the repository ("TODO"): hand it to the environment
    for n, call in (("marshall", "crate::kv_env::marshall(sb)"), ("unmarshall", "crate::kv_env::unmarshall(raw_page)")):
        t, k = re.subn(r"(pub (?:exec )?fn %s\((\w+): [^)]*\)[^{]*)\{[^}]*unreached\(\)\s*\}" % n, lambda m: "#[verifier::external_body]\n" + m.group(1) + "{ " + call.replace("sb", m.group(2)).replace("raw_page", m.group(2)) + " }", t)
        if k != 1:
            raise Inconclusive(f"{n} of the superblock is no longer a stub")
    exe = rustx.build(scratch("R02"), "kv_main.rs", ["util.rs", "kv_env.rs"], ["spec", "trusted", "implementation", "marshalling", "abstract_system", "disk", "journal"],
                      override={"implementation/DiskLayout_v.rs": t, "trusted/ClientAPI_t.rs": open(os.path.join(VERIF, "rust/harness/kv_client.rs")).read()})
    hrun.runs(c, [(exe, "run", SEED * 100 + i, secs) for i in range(4)], procs=4)
except Inconclusive as e:
    c.inconclusive.append(str(e))
c.finish(min_evaluations=5000, need_events=["run: put", "run: sync answered", "run: superblock durable", "run: sync asked while a superblock write was outstanding"])
