#!/usr/bin/env python3
"""One worker: PROP SEED SECS, over the tree at SP_REPO. Ends with a RESULT line."""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main(prop, seed, secs):
    import importlib
    viols = []
    class Stop(Exception): pass
    def rep(m):
        viols.append(m[:1800]); raise Stop
    j = importlib.import_module(prop.lower()).make(os.environ["SP_REPO"], seed, rep)
    n = 0; t0 = time.time()
    while time.time() - t0 < secs + 5 and len(viols) < 5:
        try: j.episode(n)
        except Stop: pass
        n += 1
    ev = {k: v for k, v in j.stat.items() if not k.startswith("why:")}
    ev["episodes"] = n
    why = sorted(((v, k[4:]) for k, v in j.stat.items() if k.startswith("why:")), reverse=True)[:6]
    r = {"evaluations": j.judged(), "distinct": len(j.seen), "events": ev, "violations": viols + list(getattr(j, "findings", [])), "samples": list(j.samples)[:6] + ["open: %d x %s" % w for w in why]}
    print("RESULT " + json.dumps(r))
if __name__ == "__main__": main(sys.argv[1], int(sys.argv[2]), float(sys.argv[3]))
