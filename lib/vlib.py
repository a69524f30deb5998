"""Shared plumbing of the checks: scratch directories, child processes, verdicts, evidence."""
import atexit, json, os, shutil, signal, subprocess, sys, tempfile, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"

class Inconclusive(Exception):
    pass

_scratch = []
def scratch(tag):
    base = os.path.join(VERIF, ".work")
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(prefix=tag + "-", dir=base)
    _scratch.append(d)
    return d

@atexit.register
def _clean():
    if os.environ.get("VERIF_KEEP"):
        return
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)

def run(cmd, timeout, cwd=None, env=None, input=None):
    """Returns (rc, stdout, stderr); rc None on timeout. Kills the whole process group."""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(input=input, timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")

class Check:
    def __init__(self, prop, level="exploration", rule=""):
        self.prop, self.level, self.rule = prop, level, rule
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = 0
        self.events = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self.inconclusive = []
        self.extra = {}

    def add(self, other, label=None):
        """Merge one worker's RESULT object."""
        self.evaluations += other.get("evaluations", 0)
        d = other.get("distinct", 0)
        self.distinct += d
        for k, v in other.get("events", {}).items():
            k = f"{label}: {k}" if label else k
            self.events[k] = self.events.get(k, 0) + v
        for s in other.get("samples", [])[:6]:
            if len(self.samples) < 24:
                self.samples.append(f"{label}: {s}" if label else s)
        for v in other.get("violations", []):
            self.violation(f"{label}: {v}" if label else v)

    def violation(self, what, replay=None):
        self.violations.append({"what": what, "replay": replay})

    def event(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + n

    def known_findings(self):
        out = []
        try:
            for line in open(os.path.join(VERIF, "known_findings.jsonl")):
                line = line.strip()
                if line:
                    o = json.loads(line)
                    if o.get("property") == self.prop and o.get("kind") == "finding":
                        out.append(o)
        except FileNotFoundError:
            pass
        return out

    def finish(self, min_evaluations=1, need_events=()):
        # split off listed findings (matched by their exact signature)
        known, fresh = [], []
        kf = self.known_findings()
        for v in self.violations:
            m = next((k for k in kf if k["signature"] in v["what"]), None)
            (known if m else fresh).append((v, m))
        wall = time.time() - self.t0
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": self.distinct, "rule": self.rule,
               "events": self.events, "samples": self.samples[:24]}
        cov.update(self.extra)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(wall, 2), "violations": len(fresh)}
        if fresh:
            ev["reported"] = [v["what"][:2000] for v, _ in fresh][:20]
        if self.notes:
            ev["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in {k["signature"]: k for _, k in known}.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if fresh:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "violations": [v for v, _ in fresh][:20]}, f, indent=1)
            for v, _ in fresh[:5]:
                print("  " + v["what"][:600])
            print(f"VIOLATION property={self.prop} replay={path}")
            sys.exit(1)
        if self.inconclusive:
            for m in self.inconclusive[:5]:
                print("INCONCLUSIVE " + m[:1500])
            sys.exit(2)
        missing = [e for e in need_events if not self.events.get(e)]
        if self.evaluations < min_evaluations or missing:
            print(f"INCONCLUSIVE observed too little: {self.evaluations} evaluations, missing events {missing}")
            sys.exit(2)
        print(f"OK property={self.prop} evaluations={self.evaluations} distinct={self.distinct} wall={wall:.1f}s")
        sys.exit(0)

def result_of(out):
    for line in reversed(out.splitlines()):
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    return None
